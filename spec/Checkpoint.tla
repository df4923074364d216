----------------------------- MODULE Checkpoint -----------------------------
(* How a step persists a checkpoint, one action per file system operation,  *)
(* with a crash or an I/O error possible at each of them. Refines Saved,    *)
(* where a step persists its state in one instant.                          *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS
  MaxKey,      \* number of steps
  MaxFaults,   \* number of crashes and errors
  Cross,       \* whether temporary directories are on another file system
  Variant      \* "good", or a design that must be rejected

Parts == 1..3                       \* config, state, stored objects
Empty == [i \in Parts |-> 0]        \* 0: missing, -1: incomplete, k: of step k
Full(k) == [i \in Parts |-> k]

VARIABLES
  dirs,     \* directories: function from names to contents
  pc, i,    \* the next operation of the running manager, and the file it concerns
  cur,      \* key of the training state
  last,     \* key of the checkpoint to supersede, 0 if none
  first,    \* directories that were there when the manager started
  promised, \* key of the newest state whose step has returned, or has failed after it was persisted
  attempt,  \* key of a step in progress, or of the last one that did not return; 0 if none
  clean,    \* whether the manager has seen no error
  ret,      \* how the last step ended
  full,     \* the disk is full
  faults
vars == <<dirs, pc, i, cur, last, first, promised, attempt, clean, ret, full, faults>>

Auto(k) == <<"auto", k>>
Tmp == <<"tmp", 0>>
Trash == <<"trash", 0>>
Copy(k) == <<"copy", k>>
Keep == <<"keep", 0>>
Exists(d) == d \in DOMAIN dirs
Put1(f, d, c) == (d :> c) @@ f
Del(f, d) == [x \in DOMAIN f \ {d} |-> f[x]]
Autos == {k \in 1..MaxKey : Exists(Auto(k))}
Max(S) == CHOOSE k \in S : \A j \in S : j <= k
\* What a start finds: key and content, <<0>> if nothing
Find ==
  LET cs == IF Variant = "finds-copies" THEN {k \in 1..MaxKey : Exists(Copy(k))} ELSE {} IN
  IF Autos \union cs = {} THEN <<0>>
  ELSE LET k == Max(Autos \union cs) IN IF k \in cs THEN <<k, dirs[Copy(k)]>> ELSE <<k, dirs[Auto(k)]>>

Init == /\ dirs = (Keep :> Full(99)) /\ pc = "down" /\ i = 1 /\ cur = 0 /\ last = 0 /\ first = {} /\ promised = 0 /\ attempt = 0
        /\ clean = TRUE /\ ret = "ok" /\ full = FALSE /\ faults = 0

Start ==
  /\ pc = "down"
  /\ LET f == Find IN
     /\ (IF f[1] = 0 THEN TRUE ELSE f[2] = Full(f[2][2]))         \* otherwise it cannot be loaded
     /\ cur' = (IF f[1] = 0 THEN 0 ELSE f[2][2]) /\ last' = f[1]
  /\ pc' = "idle" /\ i' = 1 /\ first' = DOMAIN dirs /\ clean' = TRUE /\ ret' = "ok" /\ full' = FALSE
  /\ attempt' = 0 /\ promised' = IF attempt > promised /\ Find[1] = attempt THEN attempt ELSE promised
  /\ UNCHANGED <<dirs, faults>>

Goto(p) == pc' = p /\ i' = 1
Same == UNCHANGED <<cur, first, promised, clean, ret, full, faults>>

\* A step at the next key, or again at the current one
Begin ==
  /\ pc = "idle"
  /\ \E k \in {cur, cur + 1} \ {0} :
       /\ k <= MaxKey
       /\ cur' = k /\ attempt' = k
       /\ IF Exists(Auto(k)) THEN Goto("done")
          ELSE Goto(CASE Variant = "delete-first" /\ last > 0 -> "supersede" [] Variant = "in-place" -> "write" [] OTHER -> "mktemp")
  /\ last' = IF Variant = "last-early" THEN cur' ELSE last
  /\ UNCHANGED <<dirs, first, promised, clean, ret, full, faults>>

MkTemp == /\ pc = "mktemp" /\ ~full /\ dirs' = Put1(dirs, Tmp, Empty) /\ Goto("write") /\ Same /\ UNCHANGED <<last, attempt>>

\* Where the files are written
Dest == IF Variant = "in-place" THEN Auto(cur) ELSE Tmp
\* A file is incomplete after it has been opened, and until it has been closed
Advance(n, p) == IF i < n THEN i' = i + 1 /\ UNCHANGED pc ELSE Goto(p)
FileOp(d, k, j) == Put1(dirs, d, [(IF Exists(d) THEN dirs[d] ELSE Empty) EXCEPT ![(j + 1) \div 2] = IF j % 2 = 1 THEN -1 ELSE k])
Write == /\ pc = "write" /\ ~full
         /\ dirs' = FileOp(Dest, cur, i)
         /\ IF Variant = "state-late" /\ i = 2 THEN Goto("move") ELSE IF Variant = "state-late" /\ i = 6 THEN Goto("done")
            ELSE Advance(6, IF Variant = "in-place" THEN "done" ELSE "move")
         /\ Same /\ UNCHANGED <<last, attempt>>

Move == /\ pc = "move"
        /\ IF Cross THEN Goto("copy") /\ UNCHANGED dirs
           ELSE /\ dirs' = Put1(Del(dirs, Tmp), Auto(cur), dirs[Tmp])
                /\ IF Variant = "state-late" THEN pc' = "late" /\ i' = 3 ELSE Goto("done")
        /\ Same /\ UNCHANGED <<last, attempt>>
Late == /\ pc = "late" /\ ~full /\ dirs' = FileOp(Auto(cur), cur, i) /\ Advance(6, "done") /\ Same /\ UNCHANGED <<last, attempt>>

CopyTo == IF Variant = "copy-in-place" THEN Auto(cur) ELSE Copy(cur)
CopyFile == /\ pc = "copy" /\ ~full /\ dirs' = FileOp(CopyTo, cur, i) /\ Advance(6, "rmsrc") /\ Same /\ UNCHANGED <<last, attempt>>
RmSrc == /\ pc = "rmsrc"
         /\ IF i <= 3 THEN dirs' = [dirs EXCEPT ![Tmp][i] = 0] /\ i' = i + 1 /\ UNCHANGED pc
            ELSE dirs' = Del(dirs, Tmp) /\ Goto(IF Variant = "copy-in-place" THEN "done" ELSE "rename")
         /\ Same /\ UNCHANGED <<last, attempt>>
Rename == /\ pc = "rename" /\ dirs' = Put1(Del(dirs, Copy(cur)), Auto(cur), dirs[Copy(cur)]) /\ Goto("done") /\ Same /\ UNCHANGED <<last, attempt>>

\* The checkpoint is in place: its predecessor goes
Old == IF Variant = "delete-first" THEN (IF pc = "supersede" THEN last ELSE 0) ELSE last
Done == /\ pc = "done"
        /\ Goto(IF last \in {0, cur} /\ Variant # "drops-current" THEN "return"
                ELSE IF Variant = "delete-first" \/ last = 0 THEN "return" ELSE "supersede")
        /\ i' = 1 /\ UNCHANGED <<dirs, last, attempt>> /\ Same
\* last is the superseded one until it has gone; the manager has already noted the new one
After == IF Variant = "delete-first" THEN "mktemp" ELSE "return"
Supersede ==
  /\ pc = "supersede"
  /\ IF ~Exists(Auto(last)) THEN Goto(After) /\ UNCHANGED dirs
     ELSE IF Cross THEN Goto("copyold") /\ UNCHANGED dirs
     ELSE dirs' = Put1(Del(dirs, Auto(last)), Trash, dirs[Auto(last)]) /\ Goto("rmtrash")
  /\ UNCHANGED <<last, attempt>> /\ Same
CopyOld == /\ pc = "copyold" /\ ~full /\ dirs' = FileOp(Trash, last, i) /\ Advance(6, "rmold") /\ Same /\ UNCHANGED <<last, attempt>>
RmOld == /\ pc = "rmold"
         /\ IF i <= 3 THEN dirs' = [dirs EXCEPT ![Auto(last)][i] = 0] /\ i' = i + 1 /\ UNCHANGED pc ELSE dirs' = Del(dirs, Auto(last)) /\ Goto("rmtrash")
         /\ UNCHANGED <<last, attempt>> /\ Same
RmTrash == /\ pc = "rmtrash"
           /\ IF i <= 3 THEN dirs' = [dirs EXCEPT ![Trash][i] = 0] /\ i' = i + 1 /\ UNCHANGED pc ELSE dirs' = Del(dirs, Trash) /\ Goto(After)
           /\ UNCHANGED <<last, attempt>> /\ Same
Return == /\ pc = "return" /\ pc' = "idle" /\ i' = 1 /\ last' = cur /\ promised' = cur /\ attempt' = 0 /\ ret' = "ok"
          /\ UNCHANGED <<dirs, cur, first, clean, full, faults>>

\* An error is raised: temporary directories are removed, and it reaches the caller
Working == pc \notin {"down", "idle", "unwind", "done", "return"}
Error ==
  /\ Working /\ (faults < MaxFaults \/ full)
  /\ \E f \in IF pc \in {"mktemp", "write", "copy", "copyold", "late"} THEN BOOLEAN ELSE {full} :
       /\ full => f
       /\ full' = f
       /\ faults' = IF full THEN faults ELSE faults + 1
  /\ IF Variant = "swallows" /\ pc = "move" THEN Goto("done") /\ UNCHANGED <<last, clean>>
     ELSE /\ Goto("unwind") /\ clean' = FALSE
          \* once the checkpoint is in place the manager goes on from it
          /\ last' = IF Exists(Auto(cur)) /\ pc \in {"supersede", "copyold", "rmold", "rmtrash"} THEN cur ELSE last
  /\ UNCHANGED <<dirs, cur, first, promised, attempt, ret>>
Unwind ==
  /\ pc = "unwind" /\ Goto("idle") /\ ret' = "error"
  /\ dirs' = [d \in DOMAIN dirs \ ({Tmp, Trash} \union IF Variant = "cleans-all" THEN {Auto(last)} ELSE {}) |-> dirs[d]]
  /\ promised' = IF Exists(Auto(cur)) /\ dirs[Auto(cur)] = Full(cur) THEN cur ELSE promised      \* it is the newest checkpoint from now on
  /\ UNCHANGED <<cur, last, first, attempt, clean, full, faults>>
Relieved == full /\ pc = "idle" /\ full' = FALSE /\ UNCHANGED <<dirs, pc, i, cur, last, first, promised, attempt, clean, ret, faults>>

Crash == /\ pc # "down" /\ faults < MaxFaults /\ faults' = faults + 1 /\ Goto("down") /\ full' = FALSE
         /\ UNCHANGED <<dirs, cur, last, first, promised, attempt, clean, ret>>
Stop == pc = "idle" /\ Goto("down") /\ UNCHANGED <<dirs, cur, last, first, promised, attempt, clean, ret, full, faults>>

Process == MkTemp \/ Write \/ Move \/ Late \/ CopyFile \/ RmSrc \/ Rename \/ Done \/ Supersede \/ CopyOld \/ RmOld \/ RmTrash \/ Return \/ Unwind
Next == Start \/ Begin \/ Process \/ Error \/ Relieved \/ Crash \/ Stop
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Process \/ (full /\ Error)) /\ WF_vars(Start)

---------------------------------------------------------------------------
\* C01, C02: at every instant, what a start would find is the state persisted last or the one in progress, complete
Recoverable == promised > 0 => Find[1] \in {promised, attempt} \ {0} /\ Find[2] = Full(Find[1])
\* No checkpoint that a start would resume is incomplete
Visible == Find[1] > 0 => Find[2] = Full(Find[1])
\* C02: a step that returns has persisted its state
Honest == pc = "idle" /\ ret = "ok" /\ promised > 0 => Exists(Auto(promised)) /\ dirs[Auto(promised)] = Full(promised)
\* C05: of its own checkpoints one remains, nothing else comes or goes
Lost == {d \in first \ DOMAIN dirs : d[1] \in {"auto", "keep"}}      \* names of temporary directories are not used again in fact
Tidy == pc = "idle" /\ clean /\ ret = "ok" => /\ DOMAIN dirs \ first \subseteq {Auto(cur)}
                                              /\ Cardinality(Lost) <= 1 /\ Lost \subseteq {Auto(k) : k \in 1..MaxKey}
Untouched == Exists(Keep) /\ dirs[Keep] = Full(99)
\* A manager can always be started
Startable == pc = "down" => ENABLED Start
Inv == Recoverable /\ Visible /\ Honest /\ Tidy /\ Untouched /\ Startable

\* A step comes to an end
Ends == pc \notin {"idle", "down"} ~> pc \in {"idle", "down"}
Restarts == pc = "down" ~> pc = "idle"

\* Refinement: the newest complete checkpoint, as one value
Found == IF Find[1] > 0 /\ Find[2] = Full(Find[1]) THEN Find[1] ELSE IF Find[1] = 0 THEN 0 ELSE -1
Abs == INSTANCE Saved WITH saved <- Found, pending <- attempt, running <- pc # "down", acked <- promised
Refines == Abs!Spec
=============================================================================
