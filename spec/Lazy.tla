-------------------------------- MODULE Lazy --------------------------------
(* States with stored objects (slots). The stored objects of a state that   *)
(* opts into lazy loading are read when they are first needed; all others   *)
(* when the state is restored. Snapshots written by old versions refer to   *)
(* pickles, which are not read unless the environment allows it.            *)
(*                                                                          *)
(* Static: sl, a sequence of [top, dep]: whether the slot is a field of the *)
(* state itself, and the slot that its deserializer asks for (0: none).     *)
(*                                                                          *)
(* Model state                                                              *)
(*   up    a state is in memory        lazy  it opts into lazy loading      *)
(*   val   contents of the slots: <<>> for None, else <<content>>           *)
(*   un    slots that have not been read yet                                *)
(*   src   name of the snapshot it was restored from                        *)
(*   dirs  snapshots: sequence of <<name, [val, leg, gone]>>, where leg says*)
(*         for every slot how it is stored: "msgpack", "pickle", "BLOB" or  *)
(*         "fake" (a pickle in place of the proper format)                  *)
(*         and gone is the set of slots whose file has been removed         *)
(*   ctx   deserialization context: set of pairs                            *)
(*   env   the environment allows pickles                                   *)
(*   ck    it has a checkpoint directory                                    *)
(*   step  key of the state            auto  key of the latest checkpoint   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Slots(sl) == DOMAIN sl
HasD(ds, nm) == \E i \in DOMAIN ds : ds[i][1] = nm
GetD(ds, nm) == ds[CHOOSE i \in DOMAIN ds : ds[i][1] = nm][2]
PutD(ds, nm, d) == IF HasD(ds, nm) THEN [i \in DOMAIN ds |-> IF ds[i][1] = nm THEN <<nm, d>> ELSE ds[i]] ELSE Append(ds, <<nm, d>>)

Down0(sl, lazy) == [up |-> FALSE, lazy |-> lazy, val |-> [i \in Slots(sl) |-> <<>>], un |-> {}, src |-> "", dirs |-> <<>>,
                    ctx |-> {}, env |-> FALSE, ck |-> FALSE, step |-> 0, auto |-> -1]

IsPickle(f) == f \in {"pickle", "BLOB"}

\* Whether the file of slot i in snapshot d can be read
Readable(d, i, env) == i \notin d.gone /\ (d.leg[i] = "msgpack" \/ (IsPickle(d.leg[i]) /\ env))

\* The slots that are read when slot i is needed: itself and, while those have not been read, what it depends on
RECURSIVE Chain(_, _, _)
Chain(sl, un, i) == IF i = 0 \/ i \notin un THEN {} ELSE {i} \union Chain(sl, un, sl[i].dep)

Loads(sl, m, i) == \A j \in Chain(sl, m.un, i) : Readable(GetD(m.dirs, m.src), j, m.env)

\* Which of the sets of slots in hint may have been read when something that reads all of S has failed
Partial(sl, m, S, hint) == {P \in hint : P \subseteq S /\ \A i \in P : Loads(sl, m, i) /\ Chain(sl, m.un, i) \subseteq P}

\* Outcomes: <<model afterwards, whether it succeeds, slots read>>
ReadAll(sl, m, S, hint) ==
  LET C == UNION {Chain(sl, m.un, i) : i \in S} IN
  IF \A i \in S : Loads(sl, m, i) THEN {<<[m EXCEPT !.un = m.un \ C], TRUE, C>>}
  ELSE {<<[m EXCEPT !.un = m.un \ P], FALSE, P>> : P \in Partial(sl, m, C, hint)}

Snapshot(sl, m) == [val |-> m.val, leg |-> [i \in Slots(sl) |-> "msgpack"], gone |-> {}]

\* What a start resumes from
Origin(m, op) == IF op.dir /\ HasD(m.dirs, "latest") THEN "latest" ELSE IF op.init # "none" THEN op.init ELSE ""

\* made: contents of the slots of a new state
Start(sl, m, op, made, hint) ==
  LET o == Origin(m, op)
      m0 == [m EXCEPT !.up = TRUE, !.src = o, !.ck = op.dir, !.ctx = {op.ctx[i] : i \in DOMAIN op.ctx}]
  IN IF o = "" THEN {<<[m0 EXCEPT !.val = made, !.un = {}, !.step = 0], TRUE, {}>>}
     ELSE LET d == GetD(m.dirs, o)
              stored == {i \in Slots(sl) : d.val[i] # <<>>}
              m1 == [m0 EXCEPT !.val = d.val, !.un = stored, !.step = d.step]
              now == IF m.lazy THEN {i \in stored : ~sl[i].top} ELSE stored
          IN {IF r[2] THEN r ELSE <<[r[1] EXCEPT !.up = FALSE], FALSE, r[3]>> : r \in ReadAll(sl, m1, now, hint)}

\* The state is written to the snapshot nm
Write(sl, m, nm, hint) ==
  {IF r[2] THEN <<[r[1] EXCEPT !.dirs = PutD(@, nm, [val |-> m.val, leg |-> [i \in Slots(sl) |-> "msgpack"], gone |-> {}, step |-> m.step])], TRUE, r[3]>>
   ELSE r : r \in ReadAll(sl, m, m.un, hint)}

StepOp(sl, m, op, hint) ==
  LET m1 == [m EXCEPT !.step = @ + op.d] IN
  IF ~m.ck \/ (m1.step = m1.auto /\ HasD(m.dirs, "latest")) THEN {<<m1, TRUE, {}>>}
  ELSE {IF r[2] THEN <<[r[1] EXCEPT !.auto = m1.step], TRUE, r[3]>> ELSE r : r \in Write(sl, m1, "latest", hint)}

Assign(sl, m, i, v) == [m EXCEPT !.val[i] = v, !.un = @ \ {i}]

Do(sl, m, op, made, hint) ==
  CASE op.op = "start" -> Start(sl, m, op, made, hint)
    [] op.op = "stop" -> {<<[m EXCEPT !.up = FALSE], TRUE, {}>>}
    [] op.op = "env" -> {<<[m EXCEPT !.env = op.on], TRUE, {}>>}
    [] op.op = "legacy" -> {<<[m EXCEPT !.dirs = PutD(@, op.name, [GetD(@, op.name) EXCEPT !.leg[op.slot] = op.how])], TRUE, {}>>}
    [] op.op = "rm" -> {<<[m EXCEPT !.dirs = PutD(@, op.name, [GetD(@, op.name) EXCEPT !.gone = @ \union {op.slot}])], TRUE, {}>>}
    [] op.op = "unrm" -> {<<[m EXCEPT !.dirs = PutD(@, op.name, [GetD(@, op.name) EXCEPT !.gone = @ \ {op.slot}])], TRUE, {}>>}
    [] op.op = "get" -> IF op.way = "other" THEN {<<m, TRUE, {}>>}
                        ELSE IF op.way \in {"repr", "all"} THEN ReadAll(sl, m, m.un, hint)
                        ELSE ReadAll(sl, m, {op.slot} \intersect m.un, hint)
    [] op.op = "set" -> {<<Assign(sl, m, op.slot, made[op.slot]), TRUE, {}>>}
    [] op.op = "poke" -> {IF r[2] THEN <<Assign(sl, r[1], op.slot, made[op.slot]), TRUE, r[3]>> ELSE r : r \in ReadAll(sl, m, {op.slot} \intersect m.un, hint)}
    [] op.op = "ctx" -> {<<[m EXCEPT !.ctx = {p \in @ : p[1] # op.k} \union {<<op.k, op.v>>}], TRUE, {}>>}
    [] op.op = "step" -> StepOp(sl, m, op, hint)
    [] op.op \in {"save", "dump"} -> Write(sl, m, op.name, hint)
=============================================================================
