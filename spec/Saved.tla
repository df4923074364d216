------------------------------- MODULE Saved --------------------------------
(* Steps as their caller sees them: each persists the training state in one *)
(* instant, at some time before it returns.                                 *)
EXTENDS Integers

VARIABLES saved,     \* key of the state that a start resumes, 0 if none
          pending,   \* key of a step that has not returned, 0 if none
          running, acked
vars == <<saved, pending, running, acked>>

Init == saved = 0 /\ pending = 0 /\ ~running /\ acked = 0
\* After a step that has failed, or in the next iteration
Begin == running /\ pending' \in 1..100 /\ pending' >= saved /\ UNCHANGED <<saved, running, acked>>
Commit == running /\ pending > saved /\ saved' = pending /\ UNCHANGED <<pending, running, acked>>
Return == running /\ pending = saved /\ pending > 0 /\ acked' = saved /\ pending' = 0 /\ UNCHANGED <<saved, running>>
Fail == running /\ pending > 0 /\ acked' \in {acked, saved} /\ UNCHANGED <<saved, pending, running>>
Down == running /\ ~running' /\ UNCHANGED <<saved, pending, acked>>
Start == ~running /\ running' /\ pending' = 0 /\ acked' \in {acked, saved} /\ UNCHANGED saved
Next == Begin \/ Commit \/ Return \/ Fail \/ Down \/ Start
Spec == Init /\ [][Next]_vars
=============================================================================
