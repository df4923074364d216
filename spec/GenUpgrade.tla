----------------------------- MODULE GenUpgrade -----------------------------
(* Random classes with upgrade rules, and old configs for them. Rule lists  *)
(* are built backwards from the current class, so that fields have plausible *)
(* histories: renamed and moved, mapped, deleted, with changed defaults.    *)
EXTENDS Gen, Json

CONSTANT Mode      \* "rules" (all kinds of rules), "order" (many custom rules, gaps), "override" (with overrides)

---------------------------------------------------------------------------
(* Rule lists *)

RECURSIVE HasVersioned(_)
HasVersioned(T) == CASE T[1] \in {"opt", "list", "dict"} -> HasVersioned(T[2])
                     [] T[1] \in {"tup", "union"} -> \E i \in DOMAIN T[2] : HasVersioned(T[2][i])
                     [] T[1] = "st" -> Version(T) >= 0 \/ \E i \in DOMAIN Fields(T) : HasVersioned(FType(Fields(T)[i]))
                     [] OTHER -> FALSE

\* entries: <<current path, type>> of every field that data may have at some point of the history
RECURSIVE Entries(_, _)
Entries(S, pre) ==
  LET one(i) == LET f == Fields(S)[i]  p == pre \o <<f[1]>>  F == Unopt(FType(f)) IN
                <<<<p, FType(f)>>>> \o (IF IsStruct(F) /\ Version(F) < 0 THEN Entries(F, p) ELSE <<>>)
      RECURSIVE Cat(_)
      Cat(i) == IF i > Len(Fields(S)) THEN <<>> ELSE one(i) \o Cat(i + 1)
  IN Cat(1)

Leafish(T) == Unopt(T)[1] \in {"int", "str", "enum", "lit"}
Scalars(T) == LET U == IF T[1] = "list" THEN T[2] ELSE Unopt(T) IN
              IF U[1] = "enum" THEN [i \in DOMAIN U[3] |-> U[3][i][2]]
              ELSE IF U[1] = "lit" THEN U[2]
              ELSE IF U[1] = "int" THEN <<I(0), I(1), I(-7), I(3), I(42)>>
              ELSE <<Str("x"), Str("True"), Str("3"), Str(""), Str("it's")>>
MapsFor(T) == LET U == Unopt(T) IN
              CASE U[1] \in {"int", "float"} -> <<<<"inc">>, <<"dbl">>, <<"inc">>, <<"dbl">>, <<"seven">>>>
                [] U[1] \in {"enum", "lit", "str"} -> LET s == Scalars(U) IN <<<<"swap", Pick(s), Pick(s)>>, <<"swap", Str("old"), Pick(s)>>>>
                [] U[1] = "list" -> <<<<"wrap">>>>
                [] OTHER -> <<<<"swap", Str("old"), I(1)>>>>

Subset1(s) == LET k == TLCEval(Seq1(LAMBDA i : Chance(2, 3), Len(s))) IN
              LET RECURSIVE Cat(_) Cat(i) == IF i > Len(s) THEN <<>> ELSE (IF k[i] THEN <<s[i]>> ELSE <<>>) \o Cat(i + 1) IN Cat(1)

OldNames == <<"old", "was", "a_b", "oldKey", "prev">>
\* Where a field may have been before
OldPath(p, k) ==
  LET nm == Pick(OldNames) \o ToString(k)  par == SubSeq(p, 1, Len(p) - 1) IN
  Pick(<<par \o <<nm>>, par \o <<nm>>, <<nm>>, <<"sec", nm>>, <<"sec", "sub" \o ToString(k), nm>> >>)

Moved(es, p, q) == [i \in DOMAIN es |-> IF IsPrefix(p, es[i][1]) THEN <<q \o SubSeq(es[i][1], Len(p) + 1, Len(es[i][1])), es[i][2]>> ELSE es[i]]

Ghosts == <<<<"rename", <<"ghost">>, <<"ghost2">>>>, <<"delete", <<"ghost", "x">>>>, <<"map", <<"nothing", "here">>, <<"inc">>>>,
            <<"check", <<"ghost">>, <<I(1)>>>>, <<"reject", <<"ghost", "y">>, <<I(1)>>>>, <<"rename", <<"ghost", "a">>, <<"ghost", "b">>>>,
            <<"delete", <<"ghost">>>>>>

\* One step back in history: <<rule, entries before it>>
StepBack(cls, es, k, mode) ==
  LET e == TLCEval(Pick(es))  p == e[1]  T == e[2]
      kind == TLCEval(Pick(IF mode = "order" THEN <<"custom", "custom", "custom", "map", "rename">>
                           ELSE <<"rename", "rename", "rename", "delete", "map", "chdef", "chdef", "adddef", "check", "reject", "custom", "ghost">>))
      id == cls \o ":" \o ToString(k)
  IN CASE kind = "rename" -> LET q == TLCEval(OldPath(p, k)) IN
                             IF \E i \in DOMAIN es : es[i][1] = q \/ (IsPrefix(p, q)) THEN <<Pick(Ghosts), es>>
                             ELSE <<<<"rename", q, p>>, Moved(es, p, q)>>
       [] kind = "delete" -> LET q == TLCEval(OldPath(p, k)) IN
                             IF \E i \in DOMAIN es : IsPrefix(es[i][1], q) /\ ~IsStruct(Unopt(es[i][2])) THEN <<Pick(Ghosts), es>>
                             ELSE <<<<"delete", q>>, Append(es, <<q, <<"int">>>>)>>
       [] kind = "map" -> <<<<"map", p, Pick(MapsFor(T))>>, es>>
       [] kind = "custom" -> <<<<"custom", p, Pick(MapsFor(T)), id, Pick(<<"mut", "new">>)>>, es>>
       [] kind \in {"chdef", "adddef"} ->
            IF HasVersioned(T) \/ (IsStruct(Unopt(T)) /\ T[1] # "opt") THEN <<Pick(Ghosts), es>>
            ELSE LET d == IF IsStruct(Unopt(T)) THEN None ELSE ToTree(T, TLCEval(GenVal(T))) IN
                 <<IF kind = "chdef" THEN <<"chdef", p, d, None>> ELSE <<"adddef", p, d>>, es>>
       [] kind \in {"check", "reject"} ->
            IF Leafish(T) \/ (T[1] = "list" /\ Leafish(T[2]) /\ T[2][1] # "opt") THEN <<<<kind, p, TLCEval(Subset1(Scalars(T)))>>, es>> ELSE <<Pick(Ghosts), es>>
       [] OTHER -> <<Pick(Ghosts), es>>

RECURSIVE History(_, _, _, _, _)
\* Rules of one version, built from the last to the first
History(cls, es, k, m, mode) ==
  IF m = 0 THEN <<<<>>, es>>
  ELSE LET s == TLCEval(StepBack(cls, es, k, mode))
           h == TLCEval(History(cls, s[2], k + 1, m - 1, mode))
       IN <<Append(h[1], s[1]), h[2]>>

RECURSIVE Versions(_, _, _, _, _)
\* <<v, rules>> for versions v, v - 1, ..., 0
Versions(cls, es, k, v, mode) ==
  IF v < 0 THEN <<>>
  ELSE LET m == TLCEval(RandomElement(0..3))  h == TLCEval(History(cls, es, k, m, mode))
       IN Versions(cls, h[2], k + m, v - 1, mode) \o (IF m = 0 /\ Chance(1, 2) THEN <<>> ELSE <<<<v, h[1]>>>>)

\* Gives every versioned class in T a history
RECURSIVE WithRules(_, _)
WithRules(T, mode) ==
  CASE T[1] \in {"opt", "list", "dict"} -> <<T[1], TLCEval(WithRules(T[2], mode))>>
    [] T[1] \in {"tup", "union"} -> <<T[1], Seq1(LAMBDA i : WithRules(T[2][i], mode), Len(T[2]))>>
    [] T[1] = "st" ->
         LET S == <<"st", T[2], Seq1(LAMBDA i : [Fields(T)[i] EXCEPT ![2] = TLCEval(WithRules(FType(Fields(T)[i]), mode))], Len(Fields(T))), T[4], <<>>>>
         IN IF Version(T) < 0 THEN S ELSE [S EXCEPT ![5] = LET vs == TLCEval(Versions(T[2], Entries(S, <<>>), 1, Version(T) - 1, mode)) IN
                           \* stated in any order
                           CASE Chance(1, 4) -> Reverse1(vs) [] Chance(1, 3) /\ vs # <<>> -> Append(Tail(vs), Head(vs)) [] OTHER -> vs]
    [] OTHER -> T

---------------------------------------------------------------------------
(* Old configs *)

Undo(ps, r) ==
  CASE r[1] = "rename" -> LET n == Look(ps, r[3]) IN
                          IF n = Absent \/ ~CanHold(ps, r[2]) \/ Chance(1, 8) THEN ps ELSE Insert(Remove(ps, r[3]), r[2], n)
    [] r[1] = "delete" -> IF Chance(2, 3) /\ CanHold(ps, r[2]) THEN Insert(ps, r[2], Pick(<<I(1), Str("x"), None, <<"list", <<>>>>>>)) ELSE ps
    [] r[1] \in {"chdef", "adddef"} -> IF Chance(1, 2) THEN Remove(ps, r[2]) ELSE ps
    [] OTHER -> ps

RECURSIVE UndoAll(_, _)
UndoAll(ps, rs) == IF rs = <<>> THEN ps ELSE UndoAll(TLCEval(Undo(ps, rs[Len(rs)])), SubSeq(rs, 1, Len(rs) - 1))

RECURSIVE Age(_, _)
Age(T, n) ==
  CASE T[1] = "opt" -> Age(T[2], n)
    [] T[1] = "list" /\ n[1] = "list" -> <<"list", Seq1(LAMBDA i : Age(T[2], n[2][i]), Len(n[2]))>>
    [] T[1] = "tup" /\ n[1] = "tup" /\ Len(n[2]) = Len(T[2]) -> <<"tup", Seq1(LAMBDA i : Age(T[2][i], n[2][i]), Len(n[2]))>>
    [] T[1] = "dict" /\ n[1] = "dict" -> <<"dict", Seq1(LAMBDA i : <<n[2][i][1], TLCEval(Age(T[2], n[2][i][2]))>>, Len(n[2]))>>
    [] T[1] = "union" /\ n[1] = "obj" /\ (\E i \in DOMAIN T[2] : T[2][i][2] = n[2]) -> Age(T[2][CHOOSE i \in DOMAIN T[2] : T[2][i][2] = n[2]], n)
    [] T[1] = "st" /\ IsSec(n) ->
         LET ps == Seq1(LAMBDA i : LET q == SecPairs(n)[i] IN
                          <<q[1], IF HasField(T, q[1]) THEN TLCEval(Age(FType(Field(T, q[1])), q[2])) ELSE q[2]>>, Len(SecPairs(n)))
         IN IF Version(T) < 0 \/ ~Has(ps, "version") THEN WithPairs(n, ps)
            ELSE LET v == TLCEval(RandomElement(0..Version(T)))
                     old == TLCEval(UndoAll(Del(ps, "version"), Pending(T, v)))
                 IN WithPairs(n, IF Chance(5, 6) THEN <<<<"version", I(v)>>>> \o old ELSE Append(old, <<"version", I(v)>>))
    [] OTHER -> n

---------------------------------------------------------------------------
VARIABLE n
Init == n = 0

Case(i) ==
  LET S == TLCEval(GenStruct(3, "R", Mode = "order", RandomElement(2..4)))
      ver == TLCEval(RandomElement(1..(IF Mode = "order" THEN 5 ELSE 3)))
      T == TLCEval(WithRules([S EXCEPT ![4] = ver], Mode))
      v == TLCEval(GenVal(T))
      new == TLCEval(GenTree(T, v, 0, 2))
  IN [k |-> "load", t |-> T, tree |-> TLCEval(Age(T, new)), via |-> Pick(<<"loads", "load", "sm">>), ign |-> FALSE,
      ovs |-> IF Mode = "override" THEN TLCEval(GenOvs(T, Pick(<<0, 0, 0, 1>>), RandomElement(1..3))) ELSE <<>>]

Next == n' = n + 1 /\ PrintT("@" \o ToJson(Case(n)))
=============================================================================
