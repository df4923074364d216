----------------------------- MODULE GenEvolve -----------------------------
(* Random histories of runs whose config class evolves between restarts:    *)
(* config files and checkpoints of older classes are resumed by newer ones. *)
EXTENDS Gen, Evolve, Json

CONSTANT Mode   \* "evolve", "foreign" (fields that the class does not know)

VARIABLE n
GR == INSTANCE GenRun WITH Mode <- "restart"
GS == INSTANCE GenSchema WITH Mode <- "chain"

\* Edits that schedules survive and that reject nothing
Harmless(rs) == \A i \in DOMAIN rs : rs[i][1] \in {"rename", "delete", "chdef", "adddef"}
KeepsK(U) == HasField(U, "k") /\ FType(Field(U, "k")) = <<"int">>

\* Only the config itself has a version
RECURSIVE Bare(_)
Bare(T) ==
  CASE T[1] \in {"opt", "list", "dict"} -> <<T[1], TLCEval(Bare(T[2]))>>
    [] T[1] \in {"tup", "union"} -> <<T[1], [i \in DOMAIN T[2] |-> TLCEval(Bare(T[2][i]))]>>
    [] T[1] = "st" -> <<"st", T[2], [i \in DOMAIN T[3] |-> [T[3][i] EXCEPT ![2] = TLCEval(Bare(@))]], -1, <<>>>>
    [] OTHER -> T

Next1(T) ==
  LET e == TLCEval(GS!Edits([T EXCEPT ![5] = <<>>], Pick(<<1, 1, 2, 3>>), 4, FALSE))
      ok == Harmless(e[2]) /\ KeepsK(e[1])
      U == IF ok THEN TLCEval(Bare(e[1])) ELSE T
      rs == IF ok THEN e[2] ELSE <<>>
  IN [U EXCEPT ![4] = Version(T) + 1, ![5] = T[5] \o (IF rs = <<>> THEN <<>> ELSE <<<<Version(T), rs>>>>)]
RECURSIVE Classes(_, _)
Classes(T, m) == IF m = 0 THEN <<T>> ELSE <<T>> \o TLCEval(Classes(TLCEval(Next1(T)), m - 1))

\* A field that no class has
Strange == <<<<"zz_new", I(5)>>, <<"zz_new", None>>, <<"zz_new", <<"obj", "Zz", <<<<"a", I(1)>>>>>>>>, <<"zz_list", <<"list", <<I(1), Str("x")>>>>>>,
             <<"zz_tup", <<"tup", <<I(1), I(2)>>>>>>, <<"step", I(7)>>>>
RECURSIVE Extra(_, _)
\* Some sections get one
Extra(T, x) ==
  CASE T[1] = "opt" -> Extra(T[2], x)
    [] T[1] = "list" /\ x[1] = "list" -> <<"list", Seq1(LAMBDA i : Extra(T[2], x[2][i]), Len(x[2]))>>
    [] T[1] = "dict" /\ x[1] = "dict" -> <<"dict", Seq1(LAMBDA i : <<x[2][i][1], TLCEval(Extra(T[2], x[2][i][2]))>>, Len(x[2]))>>
    [] T[1] = "st" /\ IsSec(x) ->
         LET ps == Seq1(LAMBDA i : LET q == SecPairs(x)[i] IN <<q[1], IF HasField(T, q[1]) THEN TLCEval(Extra(FType(Field(T, q[1])), q[2])) ELSE q[2]>>, Len(SecPairs(x)))
             e == TLCEval(Pick(Strange))
         IN WithPairs(x, IF Chance(1, 2) \/ Has(ps, e[1]) \/ HasField(T, e[1]) THEN ps ELSE IF Chance(1, 2) THEN Append(ps, e) ELSE <<e>> \o ps)
    [] OTHER -> x

RECURSIVE Ops(_, _, _, _)
\* c: the class of the running program
Ops(ts, c, m, saved) ==
  IF m = 0 THEN <<>>
  ELSE LET k == TLCEval(Pick(IF Mode = "evolve" THEN <<"step", "step", "step", "start", "start", "edit", "save">>
                             ELSE <<"step", "step", "start", "start", "start", "edit", "save", "foreign">>))
           c2 == TLCEval(IF k = "start" /\ c < Len(ts) THEN c + RandomElement(0..(Len(ts) - c)) ELSE c)
           e == TLCEval(RandomElement(1..c))
           st == TLCEval(GR!StartOp(ts[c2], saved, FALSE))
           o == TLCEval(CASE k = "start" -> [op |-> "start", dir |-> st.dir, init |-> st.init, ovs |-> st.ovs, as |-> st.as, via |-> "api", cls |-> c2,
                                             ign |-> IF Mode = "foreign" THEN Chance(3, 4) ELSE Chance(1, 8)]
                          [] k = "edit" -> [op |-> "edit", file |-> IF Mode = "foreign" THEN TLCEval(Extra(ts[e], GR!TreeFor(ts[e]))) ELSE GR!TreeFor(ts[e])]
                          [] k = "foreign" -> [op |-> "foreign"]
                          [] k = "save" -> [op |-> "save", name |-> "other/keep" \o ToString(m)]
                          [] OTHER -> GR!Kind1("step"))
       IN <<o>> \o Ops(ts, c2, m - 1, IF k = "save" THEN Append(saved, o.name) ELSE saved)

Init == n = 0
Case(i) ==
  LET G == TLCEval(GR!GenConfig(0))  T == TLCEval(IF Mode = "evolve" THEN Bare(G) ELSE G)
      ts == TLCEval(IF Mode = "foreign" THEN <<T>> ELSE Classes([T EXCEPT ![4] = RandomElement(0..1)], RandomElement(1..3)))
      tree == TLCEval(GR!TreeFor(ts[1]))
  IN [k |-> "run", ts |-> ts, t |-> ts[1], file |-> IF Mode = "foreign" THEN TLCEval(Extra(T, tree)) ELSE tree,
      sk |-> IF Mode = "foreign" THEN Pick(<<"plain", "lazy", "eager">>) ELSE Pick(<<"moved", "lazymoved", "lazy", "plain">>),
      cross |-> FALSE, ckey |-> Pick(<<"step", "tok">>), blind |-> Chance(1, 4),
      ops |-> <<[op |-> "start", dir |-> TRUE, init |-> "file", ovs |-> <<>>, as |-> Pick(<<"path", "str", "rel">>), via |-> "api", cls |-> 1,
                 ign |-> Mode = "foreign" /\ Chance(3, 4)], GR!Kind1("step")>>
              \o TLCEval(Ops(ts, 1, RandomElement(4..9), <<>>))]
Next == n' = n + 1 /\ PrintT("@" \o ToJson(Case(n)))
=============================================================================
