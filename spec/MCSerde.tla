------------------------------ MODULE MCSerde ------------------------------
(* Model checking of the serialization specification: a config file is      *)
(* written, loaded, overridden, dumped with any admissible elision, and      *)
(* loaded again, over all values, spellings and mistakes of small classes.   *)
EXTENDS Serde, Json

CONSTANT Size     \* 1: quick, 2: thorough

FI(n, T) == <<n, T, "no", None>>
FD(n, T, d) == <<n, T, "fac", d>>
St(n, fs) == <<"st", n, fs, -1, <<>>>>
Ver(n, fs, v) == <<"st", n, fs, v, <<>>>>
INT == <<"int">>
OBJ(T, vs) == <<"obj", T[2], [i \in DOMAIN vs |-> <<Fields(T)[i][1], vs[i]>>]>>

Leaf == St("Leaf", <<FI("i", INT), FD("f", <<"float">>, Flt(4))>>)
Deflt == St("Deflt", <<FD("b", <<"bool">>, Bool(TRUE)), FD("s", <<"str">>, Str("d"))>>)
Enum == <<"enum", "E", <<<<"P", Str("p")>>, <<"Q", I(2)>>>>>>
Classes == <<
  Leaf,
  St("Nest", <<FI("l", Leaf), FI("d", Deflt), FD("o", <<"opt", Deflt>>, None)>>),
  Ver("Vers", <<FI("n", Ver("Inner", <<FD("i", INT, I(1)), FI("e", Enum)>>, 2)), FD("k", <<"lit", <<Str("x"), I(0)>>>>, Str("x"))>>, 1),
  St("Cont", <<FI("ls", <<"list", INT>>), FD("di", <<"dict", <<"bool">>>>, <<"dict", <<>>>>), FI("t", <<"tup", <<INT, <<"str">>>>>>)>>),
  St("Alt", <<FI("u", <<"union", <<Leaf, Deflt>>>>), FD("m", Deflt, OBJ(Deflt, <<Bool(FALSE), Str("e")>>))>>),
  St("Deep", <<FI("a", St("Mid", <<FI("d", Deflt), FD("x", <<"opt", INT>>, I(1))>>)), FD("c", <<"opt", St("Mid2", <<FI("d2", Leaf)>>)>>, None)>>)
>>

---------------------------------------------------------------------------
RECURSIVE Prod(_)
Prod(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<x>> \o r : x \in Head(ss), r \in Prod(Tail(ss))}

RECURSIVE Vals1(_)
Vals1(T) ==
  CASE T[1] = "int" -> {I(0), I(1)}
    [] T[1] = "float" -> {Flt(4), Flt(8)}
    [] T[1] = "bool" -> {Bool(TRUE), Bool(FALSE)}
    [] T[1] = "str" -> {Str("d"), Str("3")}
    [] T[1] = "enum" -> {<<"enum", T[2], T[3][i][1]>> : i \in DOMAIN T[3]}
    [] T[1] = "lit" -> Range(T[2])
    [] T[1] = "opt" -> {None} \union Vals1(T[2])
    [] T[1] = "list" -> {<<"list", <<>>>>, <<"list", <<I(1), I(0)>>>>} \union {<<"list", <<x>>>> : x \in Vals1(T[2])}
    [] T[1] = "tup" -> {<<"tup", s>> : s \in Prod([i \in DOMAIN T[2] |-> Vals1(T[2][i])])}
    [] T[1] = "dict" -> {<<"dict", <<>>>>} \union {<<"dict", <<<<"k", x>>>>>> : x \in Vals1(T[2])}
    [] T[1] = "union" -> UNION {Vals1(T[2][i]) : i \in DOMAIN T[2]}
    [] T[1] = "st" -> {OBJ(T, s) : s \in Prod([i \in DOMAIN Fields(T) |-> Vals1(FType(Fields(T)[i]))])}

\* All ways to write v that leave out fields which have their default
RECURSIVE Elisions(_, _)
Elisions(T, v) ==
  CASE T[1] = "opt" -> IF v = None THEN {None} ELSE Elisions(T[2], v)
    [] T[1] = "list" -> {<<"list", s>> : s \in Prod([i \in DOMAIN v[2] |-> Elisions(T[2], v[2][i])])}
    [] T[1] = "union" -> LET S == T[2][CHOOSE i \in DOMAIN T[2] : T[2][i][2] = v[2]] IN Elisions(S, v)
    [] T[1] = "st" ->
         LET ver == IF Version(T) >= 0 THEN <<<<"version", I(Version(T))>>>> ELSE <<>>
             opts(i) == {<<<<v[3][i][1], t>>>> : t \in Elisions(FType(Fields(T)[i]), v[3][i][2])}
                        \union (IF MayElide(T, v[3][i][1], v[3][i][2]) THEN {<<>>} ELSE {})
             Flat(s) == LET RECURSIVE C(_) C(i) == IF i > Len(s) THEN <<>> ELSE s[i] \o C(i + 1) IN C(1)
         IN {<<"obj", T[2], ver \o Flat(s)>> : s \in Prod([i \in DOMAIN v[3] |-> opts(i)])}
    [] OTHER -> {ToTree(T, v)}

\* Trees with mistakes and unusual spellings: one node of a correct tree replaced, added or removed
Junk == {I(1), Flt(4), Flt(8), Str("3"), Str("zz"), Bool(TRUE), None, <<"list", <<>>>>, <<"tup", <<I(1), Str("a")>>>>, <<"dict", <<<<"k", Bool(TRUE)>>>>>>, <<"dict", <<>>>>}
RECURSIVE Edits(_)
Edits(t) ==
  Junk \union
  CASE t[1] \in {"list", "tup"} -> UNION {{<<t[1], [t[2] EXCEPT ![i] = e]>> : e \in Edits(t[2][i])} : i \in DOMAIN t[2]} \union {<<t[1], Append(t[2], I(1))>>}
    [] IsSec(t) -> LET ps == SecPairs(t) IN
         UNION {{WithPairs(t, [ps EXCEPT ![i] = <<ps[i][1], e>>]) : e \in Edits(ps[i][2])} : i \in DOMAIN ps}
         \union {WithPairs(t, Del(ps, k)) : k \in Keys(ps)}
         \union {WithPairs(t, Append(ps, <<"extra", I(1)>>))}
         \union {<<"dict", ps>>, <<"obj", "", ps>>}
    [] OTHER -> {}

\* Paths of fields
RECURSIVE Paths(_)
Paths(T) == UNION {LET f == Fields(T)[i]  S == Unopt(FType(f)) IN
                   {<<f[1]>>} \union (IF IsStruct(S) THEN {<<f[1]>> \o p : p \in Paths(S)} ELSE {}) : i \in DOMAIN Fields(T)}

---------------------------------------------------------------------------
VARIABLES cls, val, file, obj, ov, step
vars == <<cls, val, file, obj, ov, step>>

Strict == Env(FALSE, FALSE)
Lenient == Env(TRUE, FALSE)

Init == /\ cls \in DOMAIN Classes
        /\ val \in Vals1(Classes[cls])
        /\ file = <<"absent">> /\ obj = Err /\ ov = <<>> /\ step = "new"

T0 == Classes[cls]
Write == step = "new" /\ step' = "written" /\ file' \in Elisions(T0, val) /\ UNCHANGED <<cls, val, obj, ov>>
Spoil == step = "written" /\ (Size > 1 \/ cls \in {1, 3, 4}) /\ step' = "spoilt" /\ file' \in Edits(file) /\ UNCHANGED <<cls, val, obj, ov>>
LoadFile == step \in {"written", "spoilt"} /\ step' = (IF step = "written" THEN "loaded" ELSE "loaded-spoilt")
            /\ obj' = Load(T0, file, <<>>, Strict) /\ UNCHANGED <<cls, val, file, ov>>
\* One override of any field, or two where the second is of a prefix or the same field
Override1 == /\ step = "loaded"
             /\ step' = "overridden"
             /\ \E p \in Paths(T0) : \E x \in Vals1(FType(FindField(T0, p))) :
                  ov' = <<<<p, x>>>>
             /\ obj' = Coerce(T0, file, [i \in DOMAIN ov' |-> <<ov'[i][1], ToTree(FType(FindField(T0, ov'[i][1])), ov'[i][2])>>], Strict)
             /\ UNCHANGED <<cls, val, file>>
Next == Write \/ Spoil \/ LoadFile \/ Override1

---------------------------------------------------------------------------
\* C08: whatever is elided, the file means the value that was dumped
RoundTrip == step = "loaded" => obj = Ok(val)

\* C09: a load yields a value of the class or an error; ignoring extra fields changes nothing else
Typed == step \in {"loaded", "loaded-spoilt"} =>
           /\ IsOk(obj) => Conforms(T0, obj[2])
           /\ IsOk(obj) => Load(T0, file, <<>>, Lenient) = obj
           /\ LET o == Load(T0, file, <<>>, Lenient) IN IsOk(o) => Conforms(T0, o[2])

\* The value of the class with the field at p replaced. Sections on the way must exist.
RECURSIVE SetAt(_, _, _)
SetAt(v, p, x) == IF p = <<>> THEN x
                  ELSE <<"obj", v[2], [i \in DOMAIN v[3] |-> IF v[3][i][1] = p[1] THEN <<p[1], SetAt(v[3][i][2], Tail(p), x)>> ELSE v[3][i]]>>

\* C10: an override sets the field and nothing else; a section that was None comes into being
RECURSIVE NoneOnWay(_, _)
NoneOnWay(v, p) == Len(p) > 1 /\ LET w == Get(v[3], p[1]) IN w = None \/ NoneOnWay(w, Tail(p))
OverrideSets ==
  step = "overridden" =>
    LET p == ov[1][1]  x == ov[1][2] IN
    IF ~NoneOnWay(val, p) THEN obj = Ok(SetAt(val, p, x))
    ELSE IsOk(obj) => /\ At(obj[2], p) = x
                      /\ \A q \in Paths(T0) : q[1] # p[1] => At(obj[2], q) = At(val, q)
---------------------------------------------------------------------------
\* Prints the behaviours for replay against the implementation
EmitDump == step = "new" => \A e \in {TRUE, FALSE} :
              PrintT("@" \o ToJson([k |-> "dump", t |-> T0, v |-> val, elide |-> e, via |-> "dumps"]))
EmitLoad == step \in {"loaded", "loaded-spoilt"} =>
              PrintT("@" \o ToJson([k |-> "load", t |-> T0, tree |-> file, ovs |-> <<>>, via |-> "loads", ign |-> FALSE]))
Spelt(p, x) == LET F == FType(FindField(T0, p)) IN
               IF F = <<"str">> THEN <<"txt", x[2]>> ELSE IF F = <<"bool">> THEN <<"txt", IF x[2] THEN "true" ELSE "False">> ELSE ToTree(F, x)
EmitOverride == step = "overridden" =>
              PrintT("@" \o ToJson([k |-> "load", t |-> T0, tree |-> file, ovs |-> <<<<ov[1][1], Spelt(ov[1][1], ov[1][2])>>>>, via |-> "loads", ign |-> FALSE]))
=============================================================================
