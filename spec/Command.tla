------------------------------ MODULE Command ------------------------------
(* Programs started from the command line.                                  *)
(*                                                                          *)
(* A start a has                                                            *)
(*   stateful  whether the program gets a manager, or just its config       *)
(*   file      <<"none">>, <<"missing">>, <<"text", s>> or <<"tree", t>>    *)
(*   resume    whether a checkpoint to resume from is given as well         *)
(*   ovs       overrides                                                    *)
(*   info      <<"none">>, <<"all">> or <<"query", s>>                      *)
EXTENDS Serde

Malformed(ov) == ov[2][1] = "noval"
Bad(a) == {i \in DOMAIN a.ovs : Malformed(a.ovs[i])}

\* What the program's config is
Config(a, ovs) ==
  CASE a.file[1] = "tree" -> LET c == Load(a.t, a.file[2], ovs, Env(FALSE, FALSE)) IN
         \* whether a run may be started from a file that does not tell its version is left open
         IF a.stateful /\ Load(a.t, a.file[2], ovs, Env(FALSE, TRUE)) # c THEN Open ELSE c
    [] a.file[1] = "none" -> Load(a.t, <<"dict", <<>>>>, ovs, Env(FALSE, TRUE))
    [] OTHER -> Err

\* How the start ends
Ends(a) ==
  IF a.info[1] # "none" THEN "informed"
  ELSE IF a.resume /\ a.file[1] # "none" THEN "conflict"
  ELSE IF Bad(a) # {} THEN "malformed"
  ELSE IF a.resume THEN "invalid"     \* there is no such checkpoint
  ELSE LET c == Config(a, a.ovs) IN IF c = Open THEN "open" ELSE IF IsOk(c) THEN "run" ELSE "invalid"

\* Overrides that are invalid by themselves. If the config is fine without them, they are to blame.
Culprits(a) ==
  LET c == Config(a, <<>>) IN
  IF a.resume \/ ~IsOk(c) THEN {} ELSE {i \in DOMAIN a.ovs : Config(a, <<a.ovs[i]>>) = Err}

\* The fields and names of a file that are invalid by themselves
Part(T, tree, ks) == LET keep(ps) == SelectSeq(ps, LAMBDA p : p[1] \in ks) IN WithPairs(tree, keep(SecPairs(tree)))
BadFields(a) ==
  LET T == a.t IN
  IF a.file[1] # "tree" \/ ~IsSec(a.file[2]) \/ T[5] # <<>> \/ T[4] >= 0 THEN {}
  ELSE {i \in DOMAIN T[3] : Load([T EXCEPT ![3] = <<T[3][i]>>], Part(T, a.file[2], {T[3][i][1]}), <<>>, Env(FALSE, FALSE)) = Err}
=============================================================================
