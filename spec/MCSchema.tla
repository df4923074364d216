------------------------------ MODULE MCSchema ------------------------------
(* Model checking of the evolution relation: every pair of classes that      *)
(* differ in one field (its type, its default, whether it is there), at       *)
(* every kind of place, with every way to write a config for the older one.   *)
EXTENDS Evolve, Json

CONSTANT Size      \* 1: quick, 2: thorough

FN(n, T) == <<n, T, "no", None>>
FD(n, T, d) == <<n, T, "fac", d>>
St(n, fs) == <<"st", n, fs, -1, <<>>>>
INT == <<"int">>
STR == <<"str">>
OPT(T) == <<"opt", T>>
P == <<"P", Str("p")>>
Q == <<"Q", I(2)>>
A == St("A", <<FN("i", INT)>>)
AF == St("A", <<FN("i", <<"float">>)>>)
AD == St("A", <<FD("i", INT, I(3))>>)
AN == St("A", <<FN("i", INT), FN("more", STR)>>)
AO == St("A", <<FN("i", INT), FD("more", OPT(STR), None)>>)
B == St("B", <<FD("s", STR, Str("b"))>>)
C == St("C", <<FN("c", STR)>>)

Types == <<
  INT, <<"float">>, <<"bool">>, STR, OPT(INT), OPT(STR),
  <<"lit", <<Str("x"), Str("p")>>>>, <<"lit", <<Str("x")>>>>, <<"lit", <<I(0), Str("x"), Str("p")>>>>,
  <<"enum", "E", <<P, Q>>>>, <<"enum", "E", <<P>>>>, <<"enum", "E", <<P, Q, <<"Z", Str("x")>>>>>>, <<"enum", "E", <<P, <<"Q", I(3)>>>>>>,
  <<"enum", "E", <<<<"P", Q[2]>>, <<"Q", P[2]>>>>>>, <<"enum", "F", <<P, Q>>>>,
  <<"lit", <<I(0), I(1)>>>>, <<"lit", <<I(1)>>>>, <<"enum", "E", <<P, <<"Q2", I(2)>>>>>>, <<"enum", "E", <<P, <<"Q2", Str("2")>>>>>>, OPT(<<"lit", <<Str("x"), I(1)>>>>),
  <<"enum", "E", <<<<"P", Flt(4)>>, Q>>>>,
  <<"list", INT>>, <<"list", <<"float">>>>, <<"list", OPT(INT)>>, <<"dict", INT>>, <<"dict", <<"float">>>>,
  <<"tup", <<INT, STR>>>>, <<"tup", <<<<"float">>, STR>>>>, <<"tup", <<INT>>>>, <<"tup", <<STR, INT>>>>,
  A, AF, AD, AN, AO, B, OPT(A), OPT(AF), <<"list", A>>, <<"list", AN>>, <<"list", AO>>,
  <<"union", <<A, B>>>>, <<"union", <<B, A>>>>, <<"union", <<AF, B>>>>, <<"union", <<A, C>>>>, <<"union", <<A, B, C>>>>,
  [A EXCEPT ![4] = 0], <<"dict", A>>, <<"dict", AN>>, <<"tup", <<A, INT>>>>, <<"tup", <<AF, INT>>>> >>

RECURSIVE Two(_)
\* Two values
Two(T) ==
  CASE T[1] = "int" -> <<I(0), I(7)>> [] T[1] = "float" -> <<Flt(4), Flt(16)>> [] T[1] = "bool" -> <<Bool(TRUE), Bool(FALSE)>>
    [] T[1] = "str" -> <<Str("x"), Str("zz")>>
    [] T[1] = "lit" -> <<T[2][1], T[2][Len(T[2])]>>
    [] T[1] = "enum" -> <<<<"enum", T[2], T[3][1][1]>>, <<"enum", T[2], T[3][IF Len(T[3]) > 1 THEN 2 ELSE 1][1]>>>>
    [] T[1] = "opt" -> <<None, Two(T[2])[2]>>
    [] T[1] = "list" -> <<<<"list", <<>>>>, <<"list", Two(T[2])>>>>
    [] T[1] = "dict" -> <<<<"dict", <<>>>>, <<"dict", <<<<"k", Two(T[2])[1]>>, <<"l", Two(T[2])[2]>>>>>>>>
    [] T[1] = "tup" -> <<<<"tup", [i \in DOMAIN T[2] |-> Two(T[2][i])[1]]>>, <<"tup", [i \in DOMAIN T[2] |-> Two(T[2][i])[2]]>>>>
    [] T[1] = "union" -> <<Two(T[2][1])[1], Two(T[2][2])[2]>>
    [] T[1] = "st" -> <<<<"obj", T[2], [i \in DOMAIN T[3] |-> <<T[3][i][1], Two(T[3][i][2])[1]>>]>>,
                        <<"obj", T[2], [i \in DOMAIN T[3] |-> <<T[3][i][1], Two(T[3][i][2])[2]>>]>>>>

Kept == FN("keep", INT)
\* d: 0 no default, 1, 2: one of two
Sec(T, d) == St("S", IF d = 0 THEN <<Kept, FN("k", T)>> ELSE <<Kept, FD("k", T, Two(T)[d])>>)
Soft(S) == IF Len(S[3]) = 1 THEN <<"obj", "S", <<<<"keep", I(1)>>>>>> ELSE IF HasDefault(S[3][2]) THEN <<"obj", "S", <<<<"keep", I(1)>>, <<"k", Default(S[3][2])>>>>>> ELSE <<"obj", "S", <<<<"keep", I(1)>>, <<"k", Two(S[3][2][2])[1]>>>>>>

Places == <<"top", "sec", "opt", "def", "list", "dict", "tup", "union">>
Root(pl, S) ==
  LET r(F) == <<"st", "Root", <<F>>, 0, <<>>>> IN
  CASE pl = "top" -> <<"st", "Root", S[3], 0, <<>>>>
    [] pl = "sec" -> r(FN("s", S))
    [] pl = "opt" -> r(FD("s", OPT(S), None))
    [] pl = "def" -> r(FD("s", S, Soft(S)))
    [] pl = "list" -> r(FN("s", <<"list", S>>))
    [] pl = "dict" -> r(FN("s", <<"dict", S>>))
    [] pl = "tup" -> r(FN("s", <<"tup", <<INT, S>>>>))
    [] pl = "union" -> r(FN("s", <<"union", <<S, C>>>>))

\* The ways to write the section, and a config with it
Ways(S) == (IF Len(S[3]) = 1 \/ HasDefault(S[3][2]) THEN <<<<"obj", "S", <<<<"keep", I(1)>>>>>>>> ELSE <<>>)
           \o (IF Len(S[3]) = 1 THEN <<>> ELSE [i \in {1, 2} |-> <<"obj", "S", <<<<"keep", I(1)>>, <<"k", ToTree(S[3][2][2], Two(S[3][2][2])[i])>>>>>>])
Configs(pl, S) ==
  LET ws == Ways(S)  V == <<"version", I(0)>>
      all(mk(_)) == [i \in DOMAIN ws |-> <<"dict", <<V, <<"s", mk(ws[i])>>>>>>] IN
  CASE pl = "top" -> [i \in DOMAIN ws |-> <<"dict", <<V>> \o ws[i][3]>>]
    [] pl \in {"opt", "def"} -> LET m(x) == x IN <<<<"dict", <<V>>>>>> \o all(m)
    [] pl \in {"sec", "union"} -> LET m(x) == x IN all(m)
    [] pl = "list" -> LET m(x) == <<"list", <<ws[1], x>>>> IN all(m)
    [] pl = "dict" -> LET m(x) == <<"dict", <<<<"q", ws[1]>>, <<"r", x>>>>>> IN all(m)
    [] pl = "tup" -> LET m(x) == <<"tup", <<I(1), x>>>> IN all(m)

---------------------------------------------------------------------------
VARIABLES place, kind, old, new
vars == <<place, kind, old, new>>

Scalars == 22    \* how many of the types, the first, have no parts
\* The pairs worth checking in the quick tier: those of related types
Related(i, j) == Size > 1 \/ i = j \/ Types[i][1] = Types[j][1] \/ Types[j] = OPT(Types[i]) \/ (i + j) % 7 = 0 \/ (i < Scalars /\ j < Scalars /\ Types[j][1] # "enum")
Without == St("S", <<Kept>>)
Init == /\ place \in Range(Places)
        /\ kind \in 0..Len(Types)
        /\ old = <<>> /\ new = <<>>
Evolves == /\ old = <<>>
           /\ IF kind = 0 THEN old' = Without /\ \E i \in DOMAIN Types : \E d \in {0, 1} : new' = Sec(Types[i], d)
              ELSE \E d \in {0, 1} :
                     /\ old' = Sec(Types[kind], d)
                     /\ \/ \E j \in DOMAIN Types : \E e \in IF d = 0 THEN {0, 1} ELSE {0, 1, 2} : Related(kind, j) /\ new' = Sec(Types[j], e)
                        \/ new' = Without
           /\ UNCHANGED <<place, kind>>
Next == Evolves

T0 == Root(place, old)
U0 == Root(place, new)

\* What the specification calls compatible is compatible
Compat == old # <<>> /\ Widens(T0, U0) =>
  LET cs == Configs(place, old) IN
  \A i \in DOMAIN cs : LET v == Load(T0, cs[i], <<>>, Env(FALSE, FALSE))  w == Load(U0, cs[i], <<>>, Env(FALSE, FALSE)) IN
     IsOk(v) => IsOk(w) /\ Keeps(T0, v[2], <<>>, U0, w[2])

\* All configs are valid for the old class
Valid == old # <<>> => LET cs == Configs(place, old) IN \A i \in DOMAIN cs : IsOk(Load(T0, cs[i], <<>>, Env(FALSE, FALSE)))

\* A class is compatible with itself
Reflexive == old # <<>> /\ old = new => Widens(T0, U0)

Emit == old # <<>> => PrintT("@" \o ToJson([k |-> "pair", t |-> T0, u |-> U0, trees |-> Configs(place, old)]))
\* Changes that the proposed rules are known not to cover (known_findings.jsonl)
Swapped(T, U) == T[1] = "enum" /\ U[1] = "enum" /\ \E i \in DOMAIN T[3] : \E j \in DOMAIN U[3] : T[3][i][2] = U[3][j][2] /\ T[3][i][1] # U[3][j][1]
                                                       /\ (HasVariant(U, T[3][i][1]) \/ HasVariant(T, U[3][j][1]))
Beyond == \/ place = "list"
          \/ /\ Len(old[3]) = 2 /\ Len(new[3]) = 2
             /\ LET T == old[3][2][2]  U == new[3][2][2] IN
                \/ IsStruct(Unopt(T)) /\ T[1] # U[1]
                \/ T[1] = "list" /\ IsStruct(T[2]) /\ T # U
                \/ Swapped(T, U)
EmitChain == old # <<>> /\ ~Beyond => PrintT("@" \o ToJson([k |-> "chain", text |-> FALSE, ts |-> <<T0, U0>>, trees |-> <<Configs(place, old)>>]))
EmitSame == old # <<>> /\ new = Without => PrintT("@" \o ToJson([k |-> "same", t |-> T0]))
=============================================================================
