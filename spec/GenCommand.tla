----------------------------- MODULE GenCommand -----------------------------
(* Random starts of programs.                                               *)
EXTENDS Gen, Command, Json

VARIABLE n
GU == INSTANCE GenUpgrade WITH Mode <- "rules"
Broken == <<"(", "R(lr: )", "not a config {", "R(version: 0", "[1, 2", "@@">>

Init == n = 0
Case(i) ==
  LET S == TLCEval(GenStruct(2, "R", TRUE, RandomElement(1..4)))
      T == TLCEval(IF Chance(1, 3) THEN GU!WithRules([S EXCEPT ![4] = RandomElement(0..2)], "rules") ELSE S)
      t == TLCEval(GenTree(T, TLCEval(GenVal(T)), Pick(<<0, 0, 0, 0, 1>>), 2))
      k == TLCEval(RandomElement(1..12))
      st == TLCEval(Chance(1, 3))
  IN [k |-> "cmd", t |-> T, stateful |-> st, verbose |-> Chance(1, 4),
      file |-> IF k = 1 THEN <<"missing">> ELSE IF k = 2 THEN <<"text", Pick(Broken)>> ELSE IF k <= 4 THEN <<"none">>
               ELSE <<"tree", IF t[1] = "unit" THEN t ELSE TLCEval(GU!Age(T, t))>>,
      resume |-> (st /\ Chance(1, 6)), style |-> RandomElement(0..3),
      ovs |-> TLCEval(GenOvs(T, Pick(<<0, 0, 0, 2>>), RandomElement(0..3))),
      info |-> IF Chance(11, 12) THEN <<"none">> ELSE IF Chance(1, 2) THEN <<"all">> ELSE <<"query", Pick(<<"lr", "zeta", "nothing like it", "a">>)>>]
Next == n' = n + 1 /\ PrintT("@" \o ToJson(Case(n)))
=============================================================================
