------------------------------- MODULE Judge -------------------------------
(* Walks over recorded observations of the implementation and evaluates a   *)
(* total verdict for each: the set of names of violated clauses.            *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT Verdict(_)

\* Parsed once, and kept in a register
Parse == TLCSet(7, ndJsonDeserialize(IOEnv.RECORDS))
Records == TLCGet(7)

VARIABLE l        \* number of records judged so far

JInit == l = 0 /\ Parse

JNext ==
  /\ l < Len(Records)
  /\ l' = l + 1
  /\ LET v == Verdict(Records[l + 1])
     IN  v = {} \/ PrintT("@" \o ToJson([l |-> l + 1, bad |-> v]))

JDone == TLCGet("stats").diameter - 1 = Len(Records)
=============================================================================
