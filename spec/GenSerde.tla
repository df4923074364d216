------------------------------ MODULE GenSerde ------------------------------
(* Prints random cases for the serialization driver. *)
EXTENDS Gen, Json

CONSTANT Mode      \* "dump", "load", "override"

VARIABLE n
Init == n = 0

Case(i) ==
  LET T == TLCEval(GenStruct(3, "R", TRUE, RandomElement(1..4)))
      v == TLCEval(GenVal(T))
  IN CASE Mode = "dump" -> [k |-> "dump", t |-> T, v |-> v, elide |-> Chance(1, 2), via |-> Pick(<<"dumps", "dump">>)]
       [] Mode = "load" ->
            LET ign == TLCEval(Chance(1, 4))  via == Pick(<<"loads", "load", "sm">>)
                e == Pick(<<0, 0, 1, 2, 4>>)
                v2 == TLCEval(via) IN
            [k |-> "load", t |-> T, tree |-> TLCEval(GenTree(T, v, e, 3)), ovs |-> <<>>, via |-> v2, ign |-> ign /\ v2 # "load"]
       [] Mode = "override" ->
            [k |-> "load", t |-> T, tree |-> TLCEval(GenTree(T, v, Pick(<<0, 0, 0, 1>>), 3)), ovs |-> TLCEval(GenOvs(T, Pick(<<0, 0, 0, 1, 3>>), RandomElement(0..5))),
             via |-> Pick(<<"loads", "load", "sm">>), ign |-> FALSE]

Next == n' = n + 1 /\ PrintT("@" \o ToJson(Case(n)))
=============================================================================
