-------------------------------- MODULE Runs --------------------------------
(* Training runs: a manager is started, the loop trains and steps, the      *)
(* process is stopped, killed or hits an error, and is started again.       *)
(*                                                                          *)
(* Model state                                                              *)
(*   up      whether a manager is running                                   *)
(*   cfg     its config, schedules unevaluated                              *)
(*   at      state for which the schedules were last applied                *)
(*   st      the training state                                             *)
(*   dir     whether it has a checkpoint directory                          *)
(*   last    key of the automatic checkpoint that the next one replaces, -1 *)
(*   own     keys of automatic checkpoints written by this manager          *)
(*   loose   a step has failed: the manager may leave its checkpoints behind *)
(*   autos   automatic checkpoints: set of [key, cfg, st]                   *)
(*   keeps   checkpoints saved by name: pairs                               *)
(*   file    what the config file says                                      *)
(*   cls     which of the classes of the run is current: classes evolve     *)
EXTENDS Serde, Schedule

NewState == [step |-> 0, tok |-> 0, acc |-> 0, hist |-> <<>>, w |-> 0, aux |-> 0]

Last3(s) == SubSeq(s, (IF Len(s) > 3 THEN Len(s) - 2 ELSE 1), Len(s))
\* One iteration of the training loop. It reads the field k of the config.
Train(kind, st, k, d) ==
  LET step == st.step + d
      acc == (3 * st.acc + step + k) % 997
  IN [step |-> step, tok |-> st.tok + 3 * d, acc |-> acc, hist |-> Last3(Append(st.hist, acc)),
      w |-> (st.w + acc) % 997,
      aux |-> IF kind \in {"lazy", "lazymoved"} /\ step % 3 = 0 THEN st.aux ELSE acc]

\* Whether the observed config o is the config v when its schedules are evaluated for state st
RECURSIVE Matches(_, _, _, _)
Matches(T, v, o, st) ==
  IF v[1] = "sched" THEN IsValueAt(Unopt(T), v, st[SField(v)], o)
  ELSE IF T[1] = "opt" THEN IF v = None THEN o = None ELSE Matches(T[2], v, o, st)
  ELSE IF v[1] # o[1] THEN FALSE
  ELSE CASE v[1] \in {"flit", "ilit"} -> v[2] = o[2]
         [] v[1] = "list" -> Len(v[2]) = Len(o[2]) /\ \A i \in DOMAIN v[2] : Matches(T[2], v[2][i], o[2][i], st)
         [] v[1] = "tup" -> Len(v[2]) = Len(o[2]) /\ \A i \in DOMAIN v[2] : Matches(T[2][i], v[2][i], o[2][i], st)
         [] v[1] = "dict" -> Keys(v[2]) = Keys(o[2]) /\ \A i \in DOMAIN v[2] : Matches(T[2], v[2][i][2], Get(o[2], v[2][i][1]), st)
         [] v[1] = "obj" -> /\ v[2] = o[2] /\ Keys(v[3]) = Keys(o[3])
                            /\ LET S == IF T[1] = "union" THEN T[2][CHOOSE i \in DOMAIN T[2] : T[2][i][2] = v[2]] ELSE T IN
                               \A i \in DOMAIN v[3] : Matches(FType(Field(S, v[3][i][1])), v[3][i][2], Get(o[3], v[3][i][1]), st)
         [] OTHER -> v = o

---------------------------------------------------------------------------
(* What a start resumes *)

Newest(autos) == CHOOSE c \in autos : \A d \in autos : d.key <= c.key

\* The checkpoint that a start resumes from: <<>> if none
Source(m, dir, init) ==
  IF dir /\ m.autos # {} THEN <<Newest(m.autos)>>
  ELSE IF Has(m.keeps, init) THEN <<Get(m.keeps, init)>>
  ELSE <<>>

\* The classes of a run, in the order of their versions: one, unless the config class evolves
Class(r, i) == IF "ts" \in DOMAIN r THEN r.ts[i] ELSE r.t
Ign(op) == IF "ign" \in DOMAIN op THEN op.ign ELSE FALSE
ClsOf(m, op) == IF "cls" \in DOMAIN op THEN op.cls ELSE m.cls

RECURSIVE HasOdd(_)
HasOdd(v) == CASE v[1] \in {"flit", "ilit", "inf", "sched"} \/ v = Str("nan") -> TRUE
               [] v[1] \in {"list", "tup"} -> \E i \in DOMAIN v[2] : HasOdd(v[2][i])
               [] v[1] = "dict" -> \E i \in DOMAIN v[2] : HasOdd(v[2][i][2])
               [] v[1] = "obj" -> \E i \in DOMAIN v[3] : HasOdd(v[3][i][2])
               [] OTHER -> FALSE

\* Schedules, and numbers that RON cannot write, are dumped as strings, which another class may take them for
Unclear(r, cfg, v) == IF cfg = Err /\ "ts" \in DOMAIN r /\ Len(r.ts) > 1 /\ HasOdd(v) THEN Open ELSE cfg

\* The config of a checkpoint as class i has it
As(r, c, i, ovs, env) ==
  IF c.foreign /\ ~env.ign THEN Err
  ELSE LET cfg == Load(Class(r, i), ToTree(Class(r, c.cls), c.cfg), ovs, env) IN
       Unclear(r, cfg, c.cfg)

StartConfig(r, m, op) ==
  LET src == Source(m, op.dir, op.init)  i == ClsOf(m, op) IN
  IF src # <<>> THEN As(r, src[1], i, op.ovs, Env(Ign(op), FALSE))
  ELSE IF op.init = "file" THEN Unclear(r, Load(Class(r, i), m.file, op.ovs, Env(Ign(op), FALSE)), m.file)
  ELSE IF op.init = "none" THEN Load(Class(r, i), <<"dict", <<>>>>, op.ovs, Env(Ign(op), TRUE))
  ELSE Err
StartState(m, op) == LET src == Source(m, op.dir, op.init) IN IF src = <<>> THEN NewState ELSE src[1].st

Down == [up |-> FALSE, cfg |-> Absent, at |-> NewState, st |-> NewState, dir |-> FALSE, last |-> -1, own |-> {}, loose |-> FALSE, open |-> FALSE,
         autos |-> {}, keeps |-> <<>>, file |-> None, cls |-> 1]
=============================================================================
