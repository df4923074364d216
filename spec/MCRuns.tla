------------------------------- MODULE MCRuns -------------------------------
(* All short histories of training runs. A system that behaves as intended  *)
(* (one checkpoint operation is one step here, see Checkpoint for its file  *)
(* operations) produces observations; the properties are stated directly    *)
(* about it. Every observation must be acceptable to History, and every     *)
(* damaged one must be rejected. Prints the histories for replay.           *)
EXTENDS History, Json, FiniteSets

CONSTANTS MaxOps, Menu

T == <<"st", "R", <<<<"k", <<"int">>, "no", None>>, <<"lr", <<"float">>, "val", Flt(8)>>>>, -1, <<>>>>
Sched == <<"sched", "step", <<<<Flt(80), 0>>, <<Flt(40), 4>>, <<Flt(8), 8>>>>, <<"step", "step">>, 0>>
File(k) == <<"dict", <<<<"k", I(k)>>, <<"lr", Sched>>>>>>
R0 == [t |-> T, sk |-> "plain", ckey |-> "step"]

StartAt(dir, init, ovs) == [op |-> "start", dir |-> dir, init |-> init, ovs |-> ovs, as |-> "path", via |-> "api"]
First == StartAt(TRUE, "file", <<>>)
Lr == <<<<<<"lr">>, Flt(16)>>>>
Op(k, d) == [op |-> k, d |-> d]

Ops ==
  {First, Op("step", 1)} \union
  CASE Menu = "crash" -> {Op("kill", 1), [op |-> "litter", what |-> <<"copy", "latest-+.tmp">>]}
    [] Menu = "fail" -> {Op("fail", 1), Op("full", 1), Op("serfail", 1), Op("step", 0), Op("kill", 1)}
    [] Menu = "restart" -> {Op("step", 0), Op("step", 3), Op("train", 1), [op |-> "edit", file |-> File(3)], StartAt(TRUE, "none", <<>>), [op |-> "stop"]}
    [] Menu = "start" -> {[op |-> "save", name |-> "other/keep1"], StartAt(FALSE, "other/keep1", <<>>), StartAt(TRUE, "other/keep1", <<>>), StartAt(FALSE, "file", Lr),
                          StartAt(TRUE, "file", Lr), [op |-> "edit", file |-> File(3)], [op |-> "litter", what |-> <<"copy", "latest-step-best-one">>]}
    [] Menu = "retain" -> {Op("step", 0), Op("step", 2), [op |-> "save", name |-> "ck/keep-@"], [op |-> "save", name |-> "ck/latest-@"], Op("train", 1), StartAt(TRUE, "none", <<>>),
                           [op |-> "litter", what |-> <<"copy", "latest-@.bak">>]}

VARIABLES
  proc,     \* the running manager: [up, cfg, at, st, dir, last]
  store,    \* everything on disk: sequence of [name, id, key, cfg, st]
  file,
  model,    \* state of the model that follows the observations
  seen,     \* the last observation
  fresh, hist,
  best,     \* greatest key whose step returned
  wrote,    \* keys written by the running manager
  faulty    \* whether a step of the running manager has failed
vars == <<proc, store, file, model, seen, fresh, hist, best, wrote, faulty>>

Evaluate(cfg, st) == [cfg EXCEPT ![3] = [i \in DOMAIN @ |-> IF @[i][2][1] = "sched" THEN <<@[i][1], EvalAt(@[i][2], st[SField(@[i][2])])[2]>> ELSE @[i]]]
Listing(s) == [i \in DOMAIN s |-> <<s[i].name, s[i].id, IF s[i].cfg = None THEN <<"other">> ELSE <<"ok", Evaluate(s[i].cfg, s[i].st), s[i].st.step, s[i].st>>, s[i].key>>]
Obs(r, p, s) == [r |-> r, cfg |-> IF p.up THEN <<"ok", Evaluate(p.cfg, p.at)>> ELSE <<"down">>, st |-> IF p.up THEN <<"ok", p.st>> ELSE <<"down">>,
                 ls |-> Listing(s), tmp |-> 0]

Autos(s) == {i \in DOMAIN s : s[i].key >= 0}
HasKey(s, k) == \E i \in Autos(s) : s[i].key = k
NewestIn(s) == s[CHOOSE i \in Autos(s) : \A j \in Autos(s) : s[j].key <= s[i].key]
AutoName(k) == "ck/latest-step" \o ToString(k)
Without(s, k) == SelectSeq(s, LAMBDA e : e.key # k)
Named(s, nm) == \E i \in DOMAIN s : s[i].name = nm
TheEntry(s, nm) == s[CHOOSE i \in DOMAIN s : s[i].name = nm]
KOf(p) == Get(p.cfg[3], "k")[2]

\* The ways in which a checkpoint operation for state st can end, as pairs of the store and whether it is complete
Persisted(s, p, st) ==
  LET key == st.step
      with == IF HasKey(s, key) THEN s ELSE Append(s, [name |-> AutoName(key), id |-> fresh, key |-> key, cfg |-> p.cfg, st |-> st])
      without == IF p.last \in {-1, key} THEN with ELSE Without(with, p.last)
  IN [before |-> s, between |-> with, after |-> without]

\* Everything that the operation may lead to: [p, s, r]
Outcomes(o) ==
  CASE o.op = "start" ->
         LET found == o.dir /\ Autos(store) # {}
             e == IF found THEN NewestIn(store) ELSE IF Named(store, o.init) THEN TheEntry(store, o.init) ELSE [name |-> "", id |-> 0, key |-> -1, cfg |-> None, st |-> NewState]
             cfg == Load(T, IF e.cfg # None THEN ToTree(T, e.cfg) ELSE IF o.init = "file" THEN file ELSE <<"dict", <<>>>>, o.ovs, Env(FALSE, FALSE))
         IN IF IsOk(cfg) THEN {[p |-> [up |-> TRUE, cfg |-> cfg[2], at |-> e.st, st |-> e.st, dir |-> o.dir, last |-> IF found THEN e.key ELSE -1], s |-> store, r |-> <<"ok">>]}
            ELSE {[p |-> [proc EXCEPT !.up = FALSE], s |-> store, r |-> <<"err", "E", "">>]}
    [] o.op = "stop" -> {[p |-> [proc EXCEPT !.up = FALSE], s |-> store, r |-> <<"ok">>]}
    [] o.op = "edit" -> {[p |-> proc, s |-> store, r |-> <<"ok">>]}
    [] o.op = "litter" -> {[p |-> proc, s |-> IF Named(store, o.what[2]) THEN store ELSE Append(store, [name |-> o.what[2], id |-> fresh, key |-> -1, cfg |-> None, st |-> NewState]), r |-> <<"ok">>]}
    [] o.op = "train" -> {[p |-> [proc EXCEPT !.st = Train("plain", @, KOf(proc), o.d)], s |-> store, r |-> <<"ok">>]}
    [] o.op = "save" ->
         LET auto == o.name = "ck/latest-@"
             nm == IF auto THEN AutoName(proc.st.step) ELSE IF o.name = "ck/keep-@" THEN "ck/keep" \o ToString(proc.st.step) ELSE o.name IN
         IF Named(store, nm) THEN {[p |-> proc, s |-> store, r |-> <<"err", "E", "", nm>>]}
         ELSE {[p |-> proc, s |-> Append(store, [name |-> nm, id |-> fresh, key |-> IF auto THEN proc.st.step ELSE -1, cfg |-> proc.cfg, st |-> proc.st]), r |-> <<"ok", nm>>]}
    [] OTHER ->
         LET st == IF o.d = 0 THEN proc.st ELSE Train("plain", proc.st, KOf(proc), o.d)
             w == Persisted(store, proc, st)
             done == [proc EXCEPT !.st = st, !.at = st, !.last = IF proc.dir THEN st.step ELSE @]
             stuck == [proc EXCEPT !.st = st, !.at = st]
         IN CASE o.op = "step" -> {[p |-> done, s |-> IF proc.dir THEN w.after ELSE store, r |-> <<"ok">>]}
              [] o.op = "kill" -> IF ~proc.dir THEN {[p |-> [done EXCEPT !.up = FALSE], s |-> store, r |-> <<"completed", 0, "">>]}
                                  ELSE {[p |-> [done EXCEPT !.up = FALSE], s |-> x, r |-> <<"killed", 1, 9>>] : x \in {w.before, w.between, w.after}}
              [] o.op \in {"fail", "full"} ->
                   IF ~proc.dir \/ w.before = w.after THEN {[p |-> done, s |-> store, r |-> <<"ok", 0, 0>>]}
                   ELSE {[p |-> stuck, s |-> w.before, r |-> <<"err", "E", "", 5, 1>>], [p |-> done, s |-> w.between, r |-> <<"err", "E", "", 5, 1>>]}
              [] o.op = "serfail" -> IF proc.dir THEN {[p |-> stuck, s |-> w.before, r |-> <<"err", "E", "">>]} ELSE {[p |-> done, s |-> store, r |-> <<"ok">>]}

---------------------------------------------------------------------------
(* Damaged observations *)

Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
OtherState == [NewState EXCEPT !.acc = 12345]
OtherCfg(ob) == [ob EXCEPT !.cfg = <<"ok", [@[2] EXCEPT ![3] = [@ EXCEPT ![1] = <<"k", I(77)>>]]>>]
StaleLr(ob) == [ob EXCEPT !.cfg = <<"ok", [@[2] EXCEPT ![3] = [@ EXCEPT ![2] = <<"lr", Flt(33)>>]]>>]
\* What a step that was interrupted, or that follows a failed one, may leave or not
Excused(o, i, ob) ==
  ob.ls[i][4] >= 0 /\ ( (model.loose /\ ob.ls[i][4] \in model.own \union {model.last})
                        \/ (o.op \in {"kill", "fail", "full"} /\ ob.ls[i][4] = model.last)
                        \/ (o.op \in {"kill", "fail", "full"} /\ ob.ls[i][4] = proc'.st.step /\ ~HasKey(store, ob.ls[i][4])) )
Damaged(o, ob) ==
  IF o.op \notin {"start", "step", "save", "kill", "fail", "full", "serfail"} THEN {}
  ELSE {[ob EXCEPT !.ls = Drop(@, i)] : i \in {j \in DOMAIN ob.ls : ~Excused(o, j, ob)}}
       \union {[ob EXCEPT !.ls[i][2] = 0] : i \in {j \in DOMAIN ob.ls : ~Excused(o, j, ob) /\ Named(store, ob.ls[j][1])}}
       \* a new checkpoint with something else in it
       \union {[ob EXCEPT !.ls[i][3] = x] : i \in {j \in DOMAIN ob.ls : ~Named(store, ob.ls[j][1])},
                                            x \in {<<"err", "E", "">>, <<"ok", Evaluate(proc'.cfg, proc'.at), 0, OtherState>>}}
       \union {[ob EXCEPT !.ls = Append(@, <<"ck/latest-step999", 0, <<"ok", Evaluate(proc'.cfg, proc'.at), 0, OtherState>>, 999>>)] : i \in IF o.op \in {"step", "kill", "fail", "full", "serfail"} /\ proc.dir THEN {1} ELSE {}}
       \union (IF o.op \in {"start", "step"} /\ proc'.up THEN {[ob EXCEPT !.st = <<"ok", OtherState>>], OtherCfg(ob), StaleLr(ob), [ob EXCEPT !.r = <<"err", "E", "">>]} ELSE {})
       \union (IF o.op = "step" /\ proc.dir
               THEN {[ob EXCEPT !.tmp = 1], [ob EXCEPT !.ls = Append(@, <<"ck/latest-step1.tmp", 0, <<"other">>, -1>>)]}
                    \* the superseded checkpoint stays
                    \union (IF proc.last \in wrote /\ proc.last # proc'.last /\ ~faulty THEN {[ob EXCEPT !.ls = @ \o SelectSeq(Listing(store), LAMBDA e : e[4] = proc.last)]} ELSE {})
               ELSE {})
       \union (IF o.op \in {"fail", "full", "serfail"} /\ proc.dir /\ ob.r[1] = "err" /\ ~HasKey(store', proc'.st.step) THEN {[ob EXCEPT !.r = <<"ok", 5, 1>>]} ELSE {})

---------------------------------------------------------------------------

Down1 == [up |-> FALSE, cfg |-> Absent, at |-> NewState, st |-> NewState, dir |-> FALSE, last |-> -1]
Init == /\ proc = Down1 /\ store = <<>> /\ file = File(2) /\ model = [Down EXCEPT !.file = File(2)] /\ seen = Nothing
        /\ fresh = 1 /\ hist = <<>> /\ best = -1 /\ wrote = {} /\ faulty = FALSE

Apply(o) ==
  \E x \in Outcomes(o) :
    /\ proc' = x.p /\ store' = x.s
    /\ file' = IF o.op = "edit" THEN o.file ELSE file
    /\ seen' = Obs(x.r, x.p, x.s)
    /\ fresh' = fresh + 1
    /\ hist' = Append(hist, o)
    /\ LET also == [also |-> <<>>] @@ o
           v == One(R0, model, also, seen', seen) IN
       /\ Assert(v[2] = {}, <<"rejected", o, v[2], hist>>)
       /\ model' = v[1]
       /\ \A bad \in Damaged(o, seen') : Assert(One(R0, model, also, bad, seen)[2] # {}, <<"accepted", o, bad, hist>>)
    /\ best' = IF o.op = "step" /\ proc.dir /\ x.p.st.step > best THEN x.p.st.step ELSE best
    /\ wrote' = IF o.op = "start" THEN {} ELSE IF x.p.up /\ o.op \in {"step", "fail", "full"} THEN wrote \union ({x.s[i].key : i \in Autos(x.s)} \ {store[i].key : i \in Autos(store)}) ELSE wrote
    /\ faulty' = IF o.op = "start" THEN FALSE ELSE (faulty \/ o.op \in {"fail", "full", "serfail"})

Enabled1(o) == o.op \in {"start", "litter", "edit"} \/ proc.up
Next == Len(hist) <= MaxOps /\ IF hist = <<>> THEN Apply(First) ELSE \E o \in Ops : Enabled1(o) /\ Apply(o)

\* The state of an uninterrupted run after n iterations
RECURSIVE Ideal(_, _)
Ideal(k, n) == IF n = 0 THEN NewState ELSE Train("plain", Ideal(k, n - 1), k, 1)
Plain1(o) == o.op \in {"step", "train", "kill", "fail", "full", "serfail"} => o.d \in {0, 1}

\* C01, C02: what a step that returned has persisted is there, and is resumed by a start with the directory
Durable == best >= 0 => Autos(store) # {} /\ NewestIn(store).key >= best
Resumed == hist # <<>> /\ hist[Len(hist)].op = "start" /\ hist[Len(hist)].dir /\ proc.up /\ best >= 0 => proc.st.step >= best
\* C03: a run that is interrupted in any way is in a state of the uninterrupted run
Transparent == proc.up /\ (\A i \in DOMAIN hist : Plain1(hist[i])) => proc.st = Ideal(KOf(proc), proc.st.step)
\* C05: of what is written, one checkpoint remains; other things stay
Single == ~faulty => Cardinality({i \in Autos(store) : store[i].key \in wrote}) <= 1
Inv == Durable /\ Resumed /\ Transparent /\ Single

Kept == [][\A i \in DOMAIN store : store[i].key = -1 => \E j \in DOMAIN store' : store'[j] = store[i]]_vars

Emit == Len(hist) = MaxOps + 1 => PrintT("@" \o ToJson(hist))
=============================================================================
