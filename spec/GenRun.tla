------------------------------- MODULE GenRun -------------------------------
(* Prints random histories of training runs for the run driver.             *)
EXTENDS Gen, Runs, Json

CONSTANT Mode   \* "crash", "fail", "restart", "start", "retain", "schedule", "cli" (start from the command line)

Errnos == <<"EIO", "ENOSPC", "EACCES", "EMFILE", "EDQUOT", "EPERM", "EXDEV", "ENOTEMPTY", "EEXIST", "EINTR", "EROFS", "EBUSY", "ENOTSUP">>

\* Distances between points: powers of two, multiples of 24 (for cosines), others
Dists == <<2, 4, 8, 16, 1, 32, 24, 48, 12, 6, 10, 14, 22, 200, 64, 4, 8, 0, 20000002>>
Heights == <<Flt(0), Flt(8), Flt(16), Flt(80), Flt(-8), Flt(12), Flt(1), Flt(800), Flt(-100), Flt(41), Flt(27), Flt(8), Flt(0),
             <<"flit", "0.0003">>, <<"flit", "0.1">>, <<"flit", "1e-05">>, <<"flit", "0.1234567">>, <<"flit", "1234567.8901234">>, <<"flit", "0.30000000000000004">>>>

RECURSIVE GenPoints(_, _)
GenPoints(x, n) == IF n = 0 THEN <<>> ELSE <<<<Pick(Heights), x>>>> \o TLCEval(GenPoints(x + Pick(Dists), n - 1))
GenSched(i) ==
  LET n == TLCEval(RandomElement(1..5)) IN
  <<"sched", Pick(<<"step", "step", "tok">>), TLCEval(GenPoints(Pick(<<0, 0, 0, 2, 4, 7, 20>>), n)),
    Seq1(LAMBDA j : Pick(<<"lin", "lin", "cos", "step">>), n - 1), RandomElement(0..7)>>

\* Some schedules start at the default value of their field
Anchor(f, n) ==
  IF n[1] # "sched" \/ ~HasDefault(f) \/ Default(f)[1] \notin {"int", "float"} \/ Chance(1, 2) THEN n
  ELSE LET d == Default(f) IN
       IF d[2] < -1000 \/ d[2] > 1000 THEN n ELSE [n EXCEPT ![3] = [@ EXCEPT ![1] = <<IF d[1] = "int" THEN Flt(8 * d[2]) ELSE d, @[2]>>]]

\* Replaces numbers in the tree by schedules, p in 10
RECURSIVE Sprinkle(_, _, _)
Sprinkle(T, n, p) ==
  CASE T[1] \in {"int", "float"} -> IF n # None /\ Chance(p, 10) THEN GenSched(0) ELSE n
    [] T[1] = "opt" -> IF n = None THEN n ELSE Sprinkle(T[2], n, p)
    [] T[1] = "list" -> <<"list", Seq1(LAMBDA i : Sprinkle(T[2], n[2][i], p), Len(n[2]))>>
    [] T[1] = "tup" -> <<"tup", Seq1(LAMBDA i : Sprinkle(T[2][i], n[2][i], p), Len(n[2]))>>
    [] T[1] = "dict" -> LET ps == SecPairs(n) IN <<"dict", Seq1(LAMBDA i : <<ps[i][1], TLCEval(Sprinkle(T[2], ps[i][2], p))>>, Len(ps))>>
    [] T[1] = "union" -> IF n[1] = "obj" THEN Sprinkle(T[2][CHOOSE i \in DOMAIN T[2] : T[2][i][2] = n[2]], n, p) ELSE n
    [] T[1] = "st" -> IF ~IsSec(n) THEN n
                      ELSE LET ps == SecPairs(n) IN
                           WithPairs(n, Seq1(LAMBDA i : <<ps[i][1], IF HasField(T, ps[i][1]) THEN TLCEval(Anchor(Field(T, ps[i][1]), TLCEval(Sprinkle(FType(Field(T, ps[i][1])), ps[i][2], p)))) ELSE ps[i][2]>>, Len(ps)))
    [] OTHER -> n

\* Field names that clash with nothing
KField == <<"k", <<"int">>, "no", None>>
GenConfig(i) ==
  LET S == TLCEval(GenStruct(IF Mode = "schedule" THEN 3 ELSE 2, "R", Mode = "schedule", RandomElement(1..3)))
  IN [S EXCEPT ![3] = <<KField>> \o SelectSeq(S[3], LAMBDA f : TRUE)]

Small(T, v) == [v EXCEPT ![3] = Put(v[3], "k", I(RandomElement(0..5)))]

GenSchedOv(T) ==
  LET p == TLCEval(GenPath(T))  F == FType(FindField(T, p)) IN
  IF Unopt(F)[1] \in {"int", "float"} THEN <<<<p, IF Chance(1, 2) THEN GenSched(0) ELSE IF F[1] = "opt" THEN Flt(16) ELSE I(RandomElement(0..9))>>>>
  ELSE TLCEval(GenOv(T, 0))

RECURSIVE SchedOvs(_, _)
SchedOvs(T, n) == IF n = 0 THEN <<>> ELSE TLCEval(GenSchedOv(T)) \o SchedOvs(T, n - 1)

Litters == <<<<"file", "latest-step000000000900">>, <<"copy", "latest-step000000000950.123e4567-e89b-12d3-a456-426614174000.tmp">>, <<"empty", "latest-">>,
             <<"partial", "tmpabcd">>, <<"file", "config.ron">>, <<"partial", "latest-step">>, <<"empty", "000000000999">>,
             <<"copy", "latest-step-best-one">>, <<"copy", "saved">>, <<"partial", "latest-stepfinished">>, <<"file", "notes.txt">>,
             <<"partial", "latest-step000000000951.0.tmp">>, <<"copy", "best-step000000000960">>,
             <<"copy", "latest-@-before-decay">>, <<"copy", "latest-+.tmp">>, <<"copy", "old-latest-@">>, <<"file", "latest-@.txt">>, <<"partial", "latest-+.0a1b2c3d.tmp">>,
             <<"copy", "latest-@.bak">>, <<"partial", "Latest-+">>, <<"copy", ".latest-+">>>>
SaveNames == <<"other/keep1", "ck/keep2", "other/keep3", "ck/latest-keep-this", "ck/keep-latest-step000000000970",
               "ck/latest-@-before-decay", "ck/latest-@", "ck/keep-@", "ck/latest-@.keep", "ck/keep-+.tmp">>

Static == {"other/keep1", "ck/keep2", "other/keep3", "ck/latest-keep-this", "ck/keep-latest-step000000000970"}

TreeFor(T) == TLCEval(Sprinkle(T, TLCEval(GenTree(T, TLCEval(Small(T, GenVal(T))), 0, 2)), IF Mode = "schedule" THEN 6 ELSE 3))

StartOp(T, saved, first) ==
  LET init == TLCEval(IF first THEN Pick(<<"file", "file", "file", "file", "none">>)
                      ELSE IF saved # <<>> /\ Chance(1, IF Mode \in {"start", "cli"} THEN 2 ELSE 5) THEN Pick(saved)
                      ELSE IF Mode \in {"start", "cli"} THEN Pick(<<"file", "file", "none">>) ELSE "file")
      ovs == TLCEval(IF Mode = "schedule" /\ Chance(1, 2) THEN SchedOvs(T, RandomElement(1..2))
                     ELSE IF Mode \in {"start", "restart", "cli"} /\ Chance(1, 3) THEN SchedOvs(T, 1) ELSE <<>>)
      dir == TLCEval(~Chance(1, IF Mode \in {"start", "cli"} THEN 4 ELSE 12))
  IN [op |-> "start", dir |-> dir, init |-> init, ovs |-> ovs, as |-> Pick(<<"path", "path", "str", "str", "rel">>), via |-> IF Mode = "cli" THEN "cli" ELSE "api"]

StepSize == IF Mode = "schedule" THEN Pick(<<1, 1, 1, 2, 3, 4, 7, 12, 12, 5000000>>) ELSE Pick(<<1, 1, 1, 2, 5>>)
Kind1(kind) ==
  CASE kind = "step" -> [op |-> "step", d |-> StepSize]
    [] kind = "again" -> [op |-> "step", d |-> 0]
    [] kind = "train" -> [op |-> "train", d |-> StepSize]
    [] kind = "touch" -> [op |-> "train", d |-> 0]
    [] kind = "kill" -> LET a == TLCEval(RandomElement(1..70)) IN
                        [op |-> "kill", d |-> StepSize, at |-> a, also |-> IF Chance(1, 4) /\ a > 2 THEN <<<<"fail", a - RandomElement(1..2), Pick(Errnos)>>>> ELSE <<>>]
    [] kind = "fail" -> LET a == TLCEval(RandomElement(1..60)) IN
                        [op |-> "fail", d |-> StepSize, at |-> a, errno |-> Pick(Errnos),
                         also |-> IF Chance(1, 3) THEN Pick(<<<<<<"fail", a + RandomElement(1..20), Pick(Errnos)>>>>, <<<<"full", a + RandomElement(1..20), Pick(<<"ENOSPC", "EDQUOT", "EIO">>)>>>>>>) ELSE <<>>]
    [] kind = "full" -> [op |-> "full", d |-> StepSize, at |-> RandomElement(1..40), errno |-> "ENOSPC"]
    [] kind = "serfail" -> [op |-> "serfail", d |-> StepSize, which |-> "net"]
    [] kind = "litter" -> [op |-> "litter", what |-> Pick(Litters)]
    [] kind = "save" -> [op |-> "save", name |-> Pick(SaveNames)]

Menu == CASE Mode = "crash" -> <<"step", "step", "kill", "kill", "kill", "restart", "litter">>
          [] Mode = "fail" -> <<"step", "step", "fail", "fail", "full", "serfail", "restart", "kill", "again">>
          [] Mode = "restart" -> <<"step", "step", "step", "step", "again", "restart", "restart", "train", "touch", "edit">>
          [] Mode \in {"start", "cli"} -> <<"step", "step", "save", "litter", "litter", "restart", "restart", "edit">>
          [] Mode = "retain" -> <<"step", "step", "step", "again", "touch", "train", "save", "save", "litter", "litter", "restart", "adopt">>
          [] Mode = "schedule" -> <<"step", "step", "step", "step", "save", "restart">>

RECURSIVE GenOps(_, _, _, _, _)
\* up: a manager is surely running
GenOps(T, kind, n, saved, up) ==
  IF n = 0 THEN <<>>
  ELSE IF ~up THEN <<TLCEval(StartOp(T, saved, FALSE))>> \o GenOps(T, kind, n - 1, saved, TRUE)
  ELSE LET c == TLCEval(Pick(Menu))
           o == TLCEval(IF c = "restart" THEN StartOp(T, saved, FALSE) ELSE IF c = "edit" THEN [op |-> "edit", file |-> TreeFor(T)] ELSE Kind1(IF c = "serfail" /\ kind = "plain" THEN "fail" ELSE IF c = "adopt" THEN "again" ELSE c))
           \* the checkpoint that the step would write is there already, with something else in it
           os == IF c = "adopt" THEN <<Kind1("train"), [op |-> "save", name |-> "ck/latest-@"], Kind1(Pick(<<"touch", "touch", "litter">>)), Kind1("again")>> ELSE <<o>>
       IN os \o GenOps(T, kind, n - 1, IF o.op = "save" /\ o.name \in Static THEN Append(saved, o.name) ELSE saved, o.op # "kill")

VARIABLE n
Init == n = 0
Case(i) ==
  LET T == TLCEval(GenConfig(0))
      tree == TLCEval(TreeFor(T))
      sk == TLCEval(Pick(<<"plain", "lazy", "eager">>))
  IN [k |-> "run", t |-> T, file |-> tree, sk |-> sk, cross |-> Chance(1, 2), ckey |-> Pick(<<"step", "step", "tok">>), blind |-> Chance(1, 3),
      ops |-> <<TLCEval(StartOp(T, <<>>, TRUE))>> \o TLCEval(GenOps(T, sk, RandomElement(IF Mode = "schedule" THEN 5..14 ELSE 4..10), <<>>, TRUE))]
Next == n' = n + 1 /\ PrintT("@" \o ToJson(Case(n)))
=============================================================================
