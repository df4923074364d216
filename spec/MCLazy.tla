------------------------------- MODULE MCLazy -------------------------------
(* All short histories of a state with stored objects. Contents are numbers *)
(* that are never used twice. Prints the histories for replay.              *)
EXTENDS Lazy, Json

CONSTANTS MaxOps, Menu    \* Menu: "lazy" | "pickle"

\* Three slots: the second one depends on the first one; the third one sits in a container
Sl == <<[top |-> TRUE, dep |-> 0], [top |-> TRUE, dep |-> 1], [top |-> FALSE, dep |-> 0]>>
AllSlots == {1, 2, 3}

Start1(dir, init) == [op |-> "start", dir |-> dir, init |-> init, ctx |-> <<>>]
Ops ==
  {Start1(TRUE, "none"), [op |-> "step", d |-> 1]}
  \union {[op |-> "get", slot |-> i, way |-> "attr"] : i \in AllSlots}
  \union IF Menu = "lazy"
         THEN {[op |-> "set", slot |-> i, payload |-> <<"int", 5>>] : i \in {1, 2}}
              \union {[op |-> "rm", name |-> "latest", slot |-> i] : i \in AllSlots}
              \union {[op |-> "poke", slot |-> 1], [op |-> "step", d |-> 0], [op |-> "save", name |-> "keep1"], Start1(FALSE, "keep1"),
                      [op |-> "unrm", name |-> "latest", slot |-> 1]}
         ELSE {[op |-> "legacy", name |-> "latest", slot |-> i, how |-> h] : i \in AllSlots, h \in {"BLOB", "pickle", "fake"}}
              \union {[op |-> "env", on |-> b] : b \in BOOLEAN}
              \union {[op |-> "set", slot |-> 1, payload |-> <<"int", 5>>], [op |-> "stop"]}

VARIABLES m, hist, fresh,
          reads,    \* slots read since the last start
          ok,       \* whether the last operation succeeded
          fired,    \* whether pickles have been loaded against the environment
          truth     \* contents of the slots, as the user knows them

Enabled1(o) ==
  CASE o.op \in {"get", "set", "poke", "step"} -> m.up
    [] o.op \in {"save", "dump"} -> m.up /\ ~HasD(m.dirs, o.name)
    [] o.op = "rm" -> HasD(m.dirs, o.name) /\ o.slot \notin GetD(m.dirs, o.name).gone
    [] o.op = "unrm" -> HasD(m.dirs, o.name) /\ o.slot \in GetD(m.dirs, o.name).gone
    [] o.op = "legacy" -> ~m.up /\ HasD(m.dirs, o.name) /\ o.slot \notin GetD(m.dirs, o.name).gone /\ GetD(m.dirs, o.name).leg[o.slot] = "msgpack"
    [] o.op = "start" -> o.init = "none" \/ HasD(m.dirs, o.init)
    [] o.op = "stop" -> m.up
    [] OTHER -> TRUE

Init == /\ m \in {Down0(Sl, lz) : lz \in BOOLEAN}
        /\ hist = <<>> /\ fresh = 0 /\ reads = {} /\ ok = TRUE /\ fired = FALSE /\ truth = [i \in AllSlots |-> <<>>]

Apply(o) ==
  LET made == [i \in AllSlots |-> <<fresh + i>>] IN
  \E r \in Do(Sl, m, o, made, SUBSET AllSlots) :
    /\ m' = r[1]
    /\ ok' = r[2]
    /\ hist' = Append(hist, o)
    /\ fresh' = fresh + 3
    /\ reads' = IF o.op = "start" THEN r[3] ELSE reads \union r[3]
    /\ Assert(o.op = "start" \/ reads \intersect r[3] = {}, "a slot is read twice")
    /\ fired' = (fired \/ \E i \in r[3] : IsPickle(GetD(m.dirs, r[1].src).leg[i]) /\ ~m.env)
    /\ truth' = IF o.op = "start" THEN (IF r[2] THEN r[1].val ELSE truth)
                ELSE IF o.op \in {"set", "poke"} /\ r[2] THEN [truth EXCEPT ![o.slot] = made[o.slot]] ELSE truth

\* Every history starts with a run that writes a checkpoint
Prefix == IF Menu = "lazy" THEN <<Start1(TRUE, "none"), [op |-> "step", d |-> 1], Start1(TRUE, "none")>>
          ELSE <<Start1(TRUE, "none"), [op |-> "step", d |-> 1], [op |-> "stop"]>>
Next == /\ Len(hist) < Len(Prefix) + MaxOps
        /\ IF Len(hist) < Len(Prefix) THEN Apply(Prefix[Len(hist) + 1])
           ELSE \E o \in Ops : Enabled1(o) /\ Apply(o)

\* What the state holds is what was assigned or saved last; nothing else changes it
Sticks == m.up => m.val = truth
\* Snapshots are complete
Complete == \A i \in DOMAIN m.dirs : \A j \in AllSlots : m.dirs[i][2].val[j] # <<>>
\* A failed operation leaves the snapshots as they are, and the state usable
Safe == ~fired
OnlyLazy == m.up /\ ~m.lazy => m.un = {}
Inv == Sticks /\ Complete /\ Safe /\ OnlyLazy

Emit == Len(hist) = Len(Prefix) + MaxOps => PrintT("@" \o ToJson([lazy |-> m.lazy, ops |-> hist]))
=============================================================================
