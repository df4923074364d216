------------------------------ MODULE GenTool ------------------------------
(* Random uses of the schema evolution tool.                                *)
EXTENDS Gen, Evolve, Json

VARIABLE n
GU == INSTANCE GenUpgrade WITH Mode <- "rules"
GR == INSTANCE GenRun WITH Mode <- "schedule"
GS == INSTANCE GenSchema WITH Mode <- "pair"

Names == <<"a.ron", "b.ron", "sub dir/c.ron", "d-1">>
Broken == <<"", "(", "R(lr: )", "not a config {", "R(version: 0", "[1, 2", "@@">>

\* Rules that do not look at values
Moves(vs) == SelectSeq([i \in DOMAIN vs |-> <<vs[i][1], SelectSeq(vs[i][2], LAMBDA r : r[1] \in {"rename", "delete", "adddef", "chdef"})>>], LAMBDA x : x[2] # <<>>)
Class(sched) ==
  LET S == TLCEval(GenStruct(2, "R", TRUE, RandomElement(1..4)))
      V == [S EXCEPT ![4] = RandomElement(0..3)]
      W == TLCEval(GU!WithRules(V, "rules"))
  IN IF sched THEN [V EXCEPT ![5] = TLCEval(Moves(W[5]))] ELSE W

Content(T, sched) ==
  IF Chance(1, 12) THEN <<"text", Pick(Broken)>>
  ELSE LET v == TLCEval(GenVal(T))
           t == TLCEval(GenTree(T, v, IF sched THEN 0 ELSE Pick(<<0, 0, 0, 0, 0, 1>>), 2))
           s == TLCEval(IF sched /\ IsSec(t) THEN GR!Sprinkle(T, t, 4) ELSE t)
       IN <<"tree", IF t[1] = "unit" THEN t ELSE TLCEval(GU!Age(T, s))>>

\* What the schema file says: the class itself, an earlier class, nonsense, nothing
SchemaFor(T) ==
  LET k == TLCEval(RandomElement(1..12)) IN
  IF k = 1 THEN <<"gone">> ELSE IF k = 2 THEN <<"text", Pick(Broken)>>
  ELSE IF k <= 6 THEN <<"type", [T EXCEPT ![5] = <<>>]>>
  ELSE <<"type", [TLCEval(GS!Edits(T, RandomElement(1..2), 0, FALSE))[1] EXCEPT ![4] = T[4], ![5] = <<>>]>>

Some(s) == SelectSeq(s, LAMBDA x : Chance(1, 2))
Targets == LET s == TLCEval(Some(Names)) IN IF s = <<>> \/ Chance(1, 3) THEN <<Pick(Names)>> ELSE IF Chance(1, 2) THEN Reverse1(s) ELSE s
Fault(i) == IF Chance(1, 4) THEN <<<<Pick(<<"fail", "full">>), RandomElement(1..12), Pick(<<"ENOSPC", "EIO", "EDQUOT">>)>>>> ELSE <<>>
RECURSIVE Ops(_, _, _, _)
Ops(T, sched, m, last) ==
  IF m = 0 THEN <<>>
  ELSE LET k == TLCEval(Pick(<<"upgrade", "upgrade", "upgrade", "upgrade", "again", "check", "upschema", "dump", "edit", "stale">>))
           o == TLCEval(CASE k = "upgrade" -> [op |-> "upgrade", files |-> TLCEval(Targets), inc |-> Chance(1, 3), dry |-> Chance(1, 4), fault |-> TLCEval(Fault(m))]
                  [] k = "again" -> IF last = <<>> THEN [op |-> "check"] ELSE last[1]
                  [] k = "check" -> [op |-> "check"]
                  [] k = "upschema" -> [op |-> "upschema", fault |-> TLCEval(Fault(m))]
                  [] k = "dump" -> [op |-> "dump", fault |-> TLCEval(Fault(m))]
                  [] k = "edit" -> [op |-> "edit", file |-> Pick(Names), content |-> TLCEval(Content(T, sched))]
                  [] OTHER -> [op |-> "stale", schema |-> TLCEval(SchemaFor(T))])
       IN <<o>> \o Ops(T, sched, m - 1, IF k = "upgrade" THEN <<o>> ELSE last)

Init == n = 0
Case(i) ==
  LET sched == TLCEval(Chance(1, 3))  T == TLCEval(Class(sched)) IN
  [k |-> "tool", t |-> T, sched |-> sched,
   files |-> SelectSeq(Seq1(LAMBDA j : <<Names[j], TLCEval(Content(T, sched))>>, Len(Names)), LAMBDA x : Chance(7, 8)),
   schema |-> TLCEval(SchemaFor(T)), ops |-> TLCEval(Ops(T, sched, RandomElement(2..6), <<>>))]
Next == n' = n + 1 /\ PrintT("@" \o ToJson(Case(n)))
=============================================================================
