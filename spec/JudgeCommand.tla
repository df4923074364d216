---------------------------- MODULE JudgeCommand ----------------------------
(* Verdicts on observed starts of programs.                                 *)
(*   calls    configs that the program was called with                      *)
(*   end      <<"returned", whether it was the value of the program>>,      *)
(*            <<"exit", status>> or <<"raised">>                            *)
(*   said     whether anything was printed or is part of the error          *)
(*   names    for each override: whether it, its path or value was named    *)
(*   fields   for each field of the config: whether it was named            *)
EXTENDS Command, Json, IOUtils

If(c, s) == IF c THEN {s} ELSE {}
Failed(r) == r.end[1] = "raised" \/ (r.end[1] = "exit" /\ r.end[2] # 0)

Verdict(r) ==
  LET e == Ends(r) IN
  CASE e = "informed" -> If(r.calls # <<>>, "called-for-information") \union If(r.end # <<"exit", 0>> /\ r.end # <<"returned", FALSE>>, "information-fails")
                         \union If(~r.said, "no-information")
    [] e = "conflict" -> If(r.calls # <<>>, "called-despite-conflict") \union If(~Failed(r), "conflict-accepted") \union If(~r.said, "no-message")
    [] e = "malformed" -> If(r.calls # <<>>, "called-despite-error") \union If(r.end[1] = "returned", "malformed-accepted")
                          \union If(\A i \in Bad(r) : ~r.names[i], "offender-not-named")
    [] e = "invalid" -> If(r.calls # <<>>, "called-despite-error") \union If(~Failed(r), "error-not-reported") \union If(~r.said, "no-message")
                        \union If(Culprits(r) # {} /\ \A i \in Culprits(r) : ~r.names[i], "offender-not-named")
                         \union If(r.ovs = <<>> /\ BadFields(r) # {} /\ \A i \in BadFields(r) : ~r.fields[i], "offender-not-named")
    [] e = "run" -> IF Len(r.calls) # 1 THEN {"not-called-once"}
                    ELSE If(~Same(r.calls[1], Config(r, r.ovs)[2]), "wrong-config") \union If(r.end # <<"returned", TRUE>>, "result-lost")
    [] OTHER -> If(Len(r.calls) > 1, "not-called-once")

VARIABLE l
INSTANCE Judge
=============================================================================
