------------------------------ MODULE GenHelp ------------------------------
(* Random config classes with documentation.                                *)
EXTENDS Gen, Help, Json

VARIABLE n

Texts == <<"learning rate", "loss function (\"kl\" or \"mse\")", "whether to use W&B", "one of: a, b", "size in steps", "x", "weight of the loss, default 3", "see a.b">>
Maybe == IF Chance(1, 2) THEN "" ELSE Pick(Texts)

\* All classes of sections in the type
RECURSIVE Classes(_)
Classes(T) ==
  CASE T[1] \in {"opt", "list", "dict"} -> Classes(T[2])
    [] T[1] \in {"tup", "union"} -> Concat([i \in DOMAIN T[2] |-> Classes(T[2][i])])
    [] T[1] = "st" -> <<T>> \o Concat([i \in DOMAIN T[3] |-> Classes(T[3][i][2])])
    [] OTHER -> <<>>

\* How many of the fields are inherited
Case(i) ==
  LET T == TLCEval(GenStruct(RandomElement(1..3), "R", TRUE, RandomElement(1..5)))
      cs == TLCEval(Classes(T))
      inh == TLCEval(Seq1(LAMBDA j : IF Chance(1, 2) THEN 0 ELSE RandomElement(0..Len(cs[j][3])), Len(cs)))
      doc(j, k) == LET f == Ordered(cs[j])[k] IN <<f[1], IF k <= inh[j] THEN Maybe ELSE "", Maybe>>
  IN [k |-> "help", t |-> T, style |-> RandomElement(0..2),
      docs |-> TLCEval(Seq1(LAMBDA j : <<cs[j][2], TLCEval(Seq1(LAMBDA k : doc(j, k), Len(cs[j][3])))>>, Len(cs))),
      inherit |-> Seq1(LAMBDA j : <<cs[j][2], inh[j]>>, Len(cs))]
Next == n' = n + 1 /\ PrintT("@" \o ToJson(Case(n)))
Init == n = 0
=============================================================================
