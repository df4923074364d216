------------------------------- MODULE Evolve -------------------------------
(* What it means for a config to keep its meaning while its class evolves.  *)
EXTENDS Serde

---------------------------------------------------------------------------
(* Values under another type *)

WholeOf(n) == IF n >= 0 THEN n \div 8 ELSE -((-n) \div 8)
HasVariant(T, nm) == \E i \in DOMAIN T[3] : T[3][i][1] = nm

\* b of type U says the same as a of type T
RECURSIVE Means(_, _, _, _)
Means(T, a, U, b) ==
  IF T[1] = "opt" THEN IF a = None THEN b = None ELSE Means(T[2], a, U, b)
  ELSE IF U[1] = "opt" THEN b # None /\ Means(T, a, U[2], b)
  ELSE CASE U[1] = "list" /\ T[1] # "list" -> b[1] = "list" /\ Len(b[2]) = 1 /\ Means(T, a, U[2], b[2][1])
    [] T[1] = "enum" /\ U[1] = "enum" ->
         /\ b[1] = "enum"
         /\ IF HasVariant(U, a[3]) THEN b[3] = a[3] ELSE Get(U[3], b[3]) = Get(T[3], a[3])
    [] T[1] = "float" /\ U[1] = "int" -> IF a[1] = "float" THEN b = I(WholeOf(a[2])) ELSE TRUE
    [] T[1] = "list" /\ U[1] = "list" /\ T = U[2] -> b = <<"list", <<a>>>>
    [] T[1] = "list" /\ U[1] = "list" -> b[1] = "list" /\ Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : Means(T[2], a[2][i], U[2], b[2][i])
    [] T[1] = "tup" /\ U[1] = "tup" -> b[1] = "tup" /\ Len(a[2]) = Len(b[2]) /\ Len(b[2]) = Len(U[2]) /\ \A i \in DOMAIN a[2] : Means(T[2][i], a[2][i], U[2][i], b[2][i])
    [] T[1] = "dict" /\ U[1] = "dict" -> b[1] = "dict" /\ Len(a[2]) = Len(b[2])
                                         /\ \A i \in DOMAIN a[2] : Has(b[2], a[2][i][1]) /\ Means(T[2], a[2][i][2], U[2], Get(b[2], a[2][i][1]))
    [] T[1] = "union" /\ U[1] = "union" ->
         /\ b[1] = "obj" /\ b[2] = a[2]
         /\ \E i \in DOMAIN T[2] : T[2][i][2] = a[2] /\ \E j \in DOMAIN U[2] : U[2][j][2] = b[2] /\ Means(T[2][i], a, U[2][j], b)
    [] T[1] = "st" /\ U[1] = "st" ->
         /\ b[1] = "obj"
         /\ \A i \in DOMAIN Fields(T) : LET f == Fields(T)[i][1] IN
              HasField(U, f) => Means(FType(Fields(T)[i]), Get(a[3], f), FType(Field(U, f)), Get(b[3], f))
    [] OTHER -> LET c == Coerce(U, ToTree(T, a), <<>>, Env(FALSE, FALSE)) IN IsOk(c) => Same(c[2], b)

---------------------------------------------------------------------------
(* The claims that a config makes: <<path, type, value, node, mapped>>. The *)
(* node is the value as the rules see it.                                   *)

RECURSIVE Claims(_, _, _)
Claims(T, v, p) ==
  IF v # None /\ IsStruct(Unopt(T))
  THEN LET S == Unopt(T)
           RECURSIVE Cat(_)
           Cat(i) == IF i > Len(Fields(S)) THEN <<>>
                     ELSE Claims(FType(Fields(S)[i]), Get(v[3], Fields(S)[i][1]), Append(p, Fields(S)[i][1])) \o Cat(i + 1)
       IN Cat(1)
  ELSE <<[path |-> p, t |-> T, v |-> v, node |-> ToTree(T, v), mapped |-> FALSE]>>

\* Rules as they apply to claims. Deleted claims become <<>>.
Carry(c, r) ==
  IF c = <<>> THEN c
  ELSE CASE r[1] = "rename" -> IF IsPrefix(r[2], c[1].path)
                               THEN <<[c[1] EXCEPT !.path = r[3] \o SubSeq(@, Len(r[2]) + 1, Len(@))]>>
                               ELSE IF IsPrefix(r[3], c[1].path) THEN <<>> ELSE c
         [] r[1] = "delete" -> IF IsPrefix(r[2], c[1].path) THEN <<>> ELSE c
         [] r[1] \in {"map", "custom"} -> IF r[2] = c[1].path THEN <<[c[1] EXCEPT !.node = MapVal(r[3], @), !.mapped = TRUE]>>
                              ELSE IF IsPrefix(r[2], c[1].path) THEN <<>> ELSE c
         [] OTHER -> c

RECURSIVE CarryAll(_, _)
CarryAll(c, rs) == IF rs = <<>> THEN c ELSE CarryAll(Carry(c, rs[1]), Tail(rs))

\* Whether w, of class T, upholds a claim
Upholds(T, w, c) ==
  IF c = <<>> THEN TRUE
  ELSE LET f == FindField(T, c[1].path)  b == At(w, c[1].path) IN
       IF f = <<>> \/ b = Absent THEN TRUE
       ELSE IF c[1].mapped THEN LET e == Coerce(FType(f), c[1].node, <<>>, Env(FALSE, FALSE)) IN IsOk(e) => Same(e[2], b)
       ELSE Means(c[1].t, c[1].v, FType(f), b)

\* w of class U keeps what v of class T says, after the rules rs
Keeps(T, v, rs, U, w) ==
  LET cs == Claims(T, v, <<>>) IN \A i \in DOMAIN cs : Upholds(U, w, CarryAll(<<cs[i]>>, rs))

---------------------------------------------------------------------------
(* Rules that a tool proposes may delete only what the new class does not   *)
(* have any more.                                                           *)

Shape(T) == IsStruct(Unopt(T))
StillThere(T, U, p) == LET f == FindField(T, p)  g == FindField(U, p) IN g # <<>> /\ f # <<>> /\ Shape(FType(f)) = Shape(FType(g))

\* Where the claim at path p ends up: <<path>>, or <<>> if it is gone
RECURSIVE Follow(_, _)
Follow(p, rs) ==
  IF rs = <<>> THEN <<p>>
  ELSE CASE rs[1][1] = "rename" /\ IsPrefix(rs[1][2], p) -> Follow(rs[1][3] \o SubSeq(p, Len(rs[1][2]) + 1, Len(p)), Tail(rs))
         [] rs[1][1] = "delete" /\ IsPrefix(rs[1][2], p) -> <<>>
         [] OTHER -> Follow(p, Tail(rs))

\* One step of evolution from T to U with proposed rules rs
FollowStep(T, U, p, rs) == IF StillThere(T, U, p) THEN <<p>> ELSE Follow(p, rs)

\* w of class U keeps what v of class T says, when the proposed rules rs have been registered
KeepsStep(T, v, rs, U, w) ==
  LET cs == Claims(T, v, <<>>) IN
  \A i \in DOMAIN cs :
     LET q == FollowStep(T, U, cs[i].path, rs) IN
     IF q = <<>> THEN TRUE
     ELSE LET f == FindField(U, q[1])  b == At(w, q[1]) IN
          \/ f = <<>> \/ b = Absent \/ Means(cs[i].t, cs[i].v, FType(f), b)
          \* a variant that is renamed and gets another value
          \/ \E j \in DOMAIN rs : /\ rs[j][1] = "map" /\ rs[j][2] = cs[i].path /\ rs[j][3][1] = "swap"
                                /\ Unopt(cs[i].t)[1] = "enum" /\ MapVal(rs[j][3], cs[i].node) = ToTree(FType(f), b)

---------------------------------------------------------------------------
(* The relation that a checker may call compatible: every tree of T is a    *)
(* tree of U that means the same.                                           *)

RECURSIVE Widens(_, _), WidensStruct(_, _)
Widens(T, U) ==
  CASE T[1] = "opt" -> U[1] = "opt" /\ Widens(T[2], U[2])
    [] U[1] = "opt" -> Widens(T, U[2])
    [] T = U -> TRUE
    [] T[1] = "int" -> U[1] = "float"
    [] T[1] = "lit" -> \/ U[1] = "lit" /\ Range(T[2]) \subseteq Range(U[2])
                       \/ U[1] = "str" /\ \A i \in DOMAIN T[2] : T[2][i][1] = "str"
                       \/ U[1] = "int" /\ \A i \in DOMAIN T[2] : T[2][i][1] = "int"
    [] T[1] = "enum" -> /\ U[1] = "enum"
                        /\ \A i \in DOMAIN T[3] : \E j \in DOMAIN U[3] : U[3][j][2] = T[3][i][2] /\ (HasVariant(U, T[3][i][1]) => U[3][j][1] = T[3][i][1])
    [] T[1] \in {"list", "dict"} -> U[1] = T[1] /\ Widens(T[2], U[2])
    [] T[1] = "tup" -> U[1] = "tup" /\ Len(T[2]) = Len(U[2]) /\ \A i \in DOMAIN T[2] : Widens(T[2][i], U[2][i])
    [] T[1] = "union" -> U[1] = "union" /\ \A i \in DOMAIN T[2] : \E j \in DOMAIN U[2] : U[2][j][2] = T[2][i][2] /\ Widens(T[2][i], U[2][j])
    [] T[1] = "st" -> U[1] = "st" /\ WidensStruct(T, U)
    [] OTHER -> FALSE

\* What leaving the field out stands for, as a tree of its type
Implied(f) == LET o == Omitted(f, Absent) IN IF IsOk(o) THEN <<o[2]>> ELSE <<>>

WidensStruct(T, U) ==
  /\ (Version(T) >= 0) = (Version(U) >= 0)
  /\ \A i \in DOMAIN Fields(T) :
       LET f == Fields(T)[i] IN
       /\ HasField(U, f[1])
       /\ LET g == Field(U, f[1])  d == Implied(f) IN
          /\ Widens(FType(f), FType(g))
          /\ d = <<>> \/ (Implied(g) # <<>> /\ Means(FType(f), d[1], FType(g), Implied(g)[1]))
  /\ \A j \in DOMAIN Fields(U) : HasField(T, Fields(U)[j][1]) \/ Implied(Fields(U)[j]) # <<>>

---------------------------------------------------------------------------
(* The schema of a class *)

\* n: a default as the schema has it; v: the default value
RECURSIVE Written(_, _, _)
Written(T, v, n) ==
  CASE T[1] = "opt" -> IF v = None THEN n = None ELSE Written(T[2], v, n)
    [] T[1] = "enum" -> n = Get(T[3], v[3])
    [] T[1] \in {"list", "tup"} -> n[1] = T[1] /\ Len(n[2]) = Len(v[2]) /\ \A i \in DOMAIN v[2] : Written(IF T[1] = "list" THEN T[2] ELSE T[2][i], v[2][i], n[2][i])
    [] T[1] = "dict" -> n[1] = "dict" /\ Len(n[2]) = Len(v[2]) /\ \A i \in DOMAIN v[2] : Has(n[2], v[2][i][1]) /\ Written(T[2], v[2][i][2], Get(n[2], v[2][i][1]))
    [] T[1] = "union" -> \E i \in DOMAIN T[2] : T[2][i][2] = v[2] /\ Written(T[2][i], v, n)
    [] T[1] = "st" -> /\ n[1] \in {"obj", "dict"}
                      /\ LET ps == Del(IF n[1] = "obj" THEN n[3] ELSE n[2], "version") IN
                         /\ Keys(ps) = {Fields(T)[i][1] : i \in DOMAIN Fields(T)}
                         /\ \A i \in DOMAIN Fields(T) : Written(FType(Fields(T)[i]), v[3][i][2], Get(ps, Fields(T)[i][1]))
    [] OTHER -> n = v \/ (n[1] = "str" /\ v[1] \in {"inf", "flit", "ilit", "float", "int"} /\ Spelled(n[2]) = v)

\* s: the schema that was observed for the class T
RECURSIVE Schema(_, _)
Schema(T, s) ==
  /\ s[1] = T[1]
  /\ CASE T[1] \in {"opt", "list", "dict"} -> Schema(T[2], s[2])
       [] T[1] \in {"tup", "union"} -> Len(s[2]) = Len(T[2]) /\ \A i \in DOMAIN T[2] : Schema(T[2][i], s[2][i])
       [] T[1] = "enum" -> s[2] = T[2] /\ Range(s[3]) = Range(T[3]) /\ Len(s[3]) = Len(T[3])
       [] T[1] = "lit" -> Range(s[2]) = Range(T[2]) /\ Len(s[2]) = Len(T[2])
       [] T[1] = "st" ->
            /\ s[2] = T[2] /\ s[4] = T[4] /\ Len(s[3]) = Len(T[3])
            /\ \A i \in DOMAIN T[3] : \E j \in DOMAIN s[3] :
                 /\ s[3][j][1] = T[3][i][1]
                 /\ Schema(T[3][i][2], s[3][j][2])
                 /\ s[3][j][3] = HasDefault(T[3][i])
                 /\ HasDefault(T[3][i]) => Written(T[3][i][2], T[3][i][4], s[3][j][4])
       [] OTHER -> TRUE
=============================================================================
