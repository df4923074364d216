-------------------------------- MODULE Gen --------------------------------
(* Random generators of types, values, config trees and overrides.          *)
EXTENDS Serde

Pick(s) == s[RandomElement(1..Len(s))]
Chance(p, q) == RandomElement(1..q) <= p

RECURSIVE Map1(_, _, _)
Map1(f(_), n, acc) == IF Len(acc) = n THEN acc ELSE Map1(f, n, Append(acc, TLCEval(f(Len(acc) + 1))))
\* <<f(1), ..., f(n)>>, each evaluated once
Seq1(f(_), n) == Map1(f, n, <<>>)

Strings == <<"", "x", "hello world", "say \"hi\"", "back\\slash \\n", "True", "3", "None", "lr: 1, b",
             "tab\tnew\nline", "it's", "(a: 1)", "# no comment", "a=b", "inf", "{[", "lin: 1@0 2@5", "U+e9;t", "U+1;", "1.5", "<blob:msgpack>",
             "\"quoted\"", "\"half", "trailing ", " leading", "'single'", "a == b", "=", "x=", "5@", "3 ", "true", "null", "()", "[1]",
             "U+1f600;U+300;", "U+85;U+2028;U+7f;", "U+0;", "a\\", "\\U+e9;", "U+d;\n", "//x", "/*x*/", "r#\"x\"#", "lr: 1@0", "-", "nan", "1_000", "0x10">>
Numerals == <<I(0), I(1), I(-7), I(3), I(42), I(1000000), I(-2), <<"ilit", "9007199254740993">>, <<"ilit", "-9223372036854775808">>,
              <<"ilit", "18446744073709551616">>>>
Floats == <<Flt(0), Flt(8), Flt(12), Flt(-2), Flt(32), Flt(800), Flt(-25), <<"inf", 1>>, <<"inf", -1>>, <<"flit", "0.1">>,
            <<"flit", "1e+300">>, <<"flit", "-2.5e-05">>, <<"flit", "5e-324">>, <<"flit", "123456789012.25">>, <<"flit", "1e-300">>>>
FieldNames == <<"a", "bb", "c_d", "lr", "x9", "zeta", "steps", "Key">>
EnumVariants == << <<<<"RED", Str("red")>>, <<"GREEN", Str("green")>>>>,
                   <<<<"ONE", I(1)>>, <<"TWO", I(2)>>, <<"TEN", I(10)>>>>,
                   <<<<"A", Str("a b")>>, <<"B", I(5)>>>>,
                   <<<<"X", Str("Y")>>, <<"Y", Str("X")>>>> >>
Literals == << <<Str("adam"), Str("sgd")>>, <<I(1), I(2), I(4)>>, <<Str("on"), I(7)>>, <<Str("a b"), Str("\"q\""), Str("x")>> >>
DictKeys == <<"k", "other key", "a", "1", "U+e9;", "", "\"q\"", "a-b", "True", "!x", "K", "None", "a\\b", "lr", "3", "a.b", "a/b", "k.", "x[0]", "%2e", "a]b", "0", ".">>

\* Names of the members of a union, after a common prefix
UnionNames == <<<<"1", "2", "3">>, <<"", "X", "XY">>, <<"XY", "X", "">>, <<"Xy", "xy", "XY">>, <<"X", "Y_X", "X_Y">>>>

\* Which kinds of types to produce. u: may contain unions
Kinds(n, u) == IF n <= 0 THEN <<"int", "float", "bool", "str", "enum", "lit">>
               ELSE <<"int", "float", "bool", "str", "enum", "lit", "opt", "opt", "list", "list", "tup", "dict", "st", "st", "st">>
                    \o (IF u THEN <<"union">> ELSE <<>>)

RECURSIVE GenType(_, _, _), GenStruct(_, _, _, _), GenVal(_), GenFields(_, _, _, _)

GenType(n, nm, u) ==
  LET k == TLCEval(Pick(Kinds(n, u))) IN
  CASE k \in {"int", "float", "bool", "str"} -> <<k>>
    [] k = "enum" -> <<"enum", nm \o "E", Pick(EnumVariants)>>
    [] k = "lit" -> <<"lit", Pick(Literals)>>
    [] k = "opt" -> LET T == TLCEval(GenType(n - 1, nm, FALSE)) IN IF T[1] = "opt" THEN T ELSE <<"opt", T>>
    [] k = "list" -> <<"list", TLCEval(GenType(n - 1, nm \o "L", u))>>
    [] k = "tup" -> <<"tup", Seq1(LAMBDA i : GenType(n - 1, nm \o "T" \o ToString(i), u), RandomElement(1..3))>>
    [] k = "dict" -> <<"dict", TLCEval(GenType(n - 1, nm \o "D", u))>>
    [] k = "union" -> LET sfx == TLCEval(Pick(UnionNames)) IN <<"union", Seq1(LAMBDA i : GenStruct(n - 1, nm \o sfx[i], u, RandomElement(1..2)), RandomElement(2..3))>>
    [] k = "st" -> GenStruct(n - 1, nm, u, RandomElement(1..3))

\* n fields whose names start at offset o
GenFields(n, nm, u, cnt) ==
  LET o == TLCEval(RandomElement(0..7))
      one(i) == LET f == FieldNames[((o + i) % Len(FieldNames)) + 1]
                    T == TLCEval(GenType(n, nm \o "_" \o f, u))
                    k == TLCEval(Pick(<<"no", "no", "val", "fac">>))
                IN IF k = "no" THEN <<f, T, k, None>>
                   ELSE LET d == TLCEval(GenVal(T)) IN
                        <<f, T, IF k = "val" /\ d[1] \notin {"list", "dict", "obj"} THEN "val" ELSE "fac", d>>
      fs == Seq1(one, cnt)
  IN SelectSeq(fs, LAMBDA f : ~HasDefault(f)) \o SelectSeq(fs, HasDefault)

GenStruct(n, nm, u, cnt) == <<"st", nm, GenFields(n, nm, u, cnt), IF Chance(1, 4) THEN RandomElement(0..3) ELSE -1, <<>>>>

GenVal(T) ==
  CASE T[1] = "int" -> Pick(Numerals)
    [] T[1] = "float" -> Pick(Floats)
    [] T[1] = "bool" -> Bool(Chance(1, 2))
    [] T[1] = "str" -> Str(Pick(Strings))
    [] T[1] = "enum" -> <<"enum", T[2], Pick(T[3])[1]>>
    [] T[1] = "lit" -> Pick(T[2])
    [] T[1] = "opt" -> IF Chance(1, 3) THEN None ELSE GenVal(T[2])
    [] T[1] = "list" -> <<"list", Seq1(LAMBDA i : GenVal(T[2]), RandomElement(0..3))>>
    [] T[1] = "tup" -> <<"tup", Seq1(LAMBDA i : GenVal(T[2][i]), Len(T[2]))>>
    [] T[1] = "dict" -> LET o == TLCEval(IF Chance(1, 2) THEN 0 ELSE RandomElement(0..27)) IN
                         <<"dict", Seq1(LAMBDA i : <<DictKeys[((o + i - 1) % Len(DictKeys)) + 1], TLCEval(GenVal(T[2]))>>, RandomElement(0..3))>>
    [] T[1] = "union" -> GenVal(Pick(T[2]))
    [] T[1] = "st" -> <<"obj", T[2], Seq1(LAMBDA i : LET f == Fields(T)[i] IN
                           <<f[1], TLCEval(IF HasDefault(f) /\ Chance(1, 2) THEN Default(f) ELSE GenVal(FType(f)))>>, Len(Fields(T)))>>

---------------------------------------------------------------------------
(* Trees *)

Spells == <<"3", "-2", "0", "1.5", "4.0", "1e2", "-0.25", "inf", "-inf", "9007199254740993">>
SpellsOf(S) == SelectSeq(Spells, LAMBDA s : Spelled(s) \in S)

\* A node that is certainly not acceptable for T
Wrong(T) ==
  CASE T[1] = "int" -> Pick(<<Str("abc"), Flt(4), <<"list", <<>>>>, None, Str("1.5"), Str("inf"), Str(""), <<"dict", <<>>>>, <<"flit", "1000000000.5">>,
                           <<"flit", "2.0000000001">>, <<"flit", "0.1">>, <<"flit", "-3.999999999">>, Str("0.1"), Str("1000000000.5"), Str("3 apples"), Str("5@"), Str("0x10"), Str("True")>>)
    [] T[1] = "float" -> Pick(<<Str("abc"), <<"list", <<I(1)>>>>, None, Str(""), <<"tup", <<I(1), I(2)>>>>, Str("1,5"), Str("1.5x"), Str("0x10"), <<"dict", <<>>>>>>)
    [] T[1] = "bool" -> Pick(<<I(1), I(0), Str("true"), None, Flt(8), Str("True"), Str(""), <<"list", <<>>>>, Flt(0), Str("1")>>)
    [] T[1] = "str" -> Pick(<<I(3), Bool(TRUE), None, <<"list", <<>>>>, Flt(4), <<"list", <<Str("x")>>>>, <<"dict", <<>>>>, <<"flit", "0.1">>, <<"tup", <<Str("a"), Str("b")>>>>>>)
    [] T[1] \in {"enum", "lit"} -> Pick(<<Str("zzz"), I(77), None, Str(""), <<"list", <<>>>>, Bool(TRUE), Str("Red"), Str("RED "), Flt(12), Str("77")>>)
    [] T[1] = "opt" -> IF T[2][1] \in {"int", "float"} THEN Pick(<<Str("abc"), Str("None"), Str("")>>) ELSE IF T[2][1] = "bool" THEN I(1)
                       ELSE IF T[2][1] \in {"enum", "lit"} THEN Str("zzz") ELSE I(13)
    [] T[1] = "list" -> Pick(<<I(1), Str("x"), None, <<"tup", <<I(1), I(2)>>>>, <<"dict", <<>>>>>>)
    [] T[1] = "tup" -> Pick(<<I(1), None, <<"list", <<I(1), I(2)>>>>, <<"tup", <<I(1), I(1), I(1), I(1)>>>>, <<"list", <<I(1)>>>>, Str("ab"), <<"dict", <<>>>>>>)
    [] T[1] = "dict" -> Pick(<<I(1), None, <<"list", <<>>>>, Str("x")>>)
    [] T[1] = "union" -> Pick(<<I(1), None, <<"obj", "Nope", <<<<"a", I(1)>>>>>>, <<"dict", <<>>>>, Str("x"),
                           <<"obj", T[2][1][2] \o "Z", <<>>>>, <<"obj", "R", <<>>>>, <<"list", <<>>>>, Str(T[2][1][2])>>)
    [] T[1] = "st" -> Pick(<<I(1), None, <<"list", <<>>>>, Str("x"), <<"tup", <<I(1), I(2)>>>>>>)

Reverse1(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

\* A way to write v. e > 0: with mistakes, about e in 40 nodes. r > 0: leaves out fields that default anyway, r in 4.
RECURSIVE GenTree(_, _, _, _)
GenTree(T, v, e, r) ==
  IF e > 0 /\ Chance(e, 40) THEN Wrong(T)
  ELSE CASE T[1] = "opt" -> IF v = None THEN None ELSE GenTree(T[2], v, e, r)
    [] T[1] = "int" -> IF v[1] = "int" /\ Chance(1, 4) /\ v[2] \in -1000000..1000000
                       THEN LET sp == SpellsOf({v, Flt(8 * v[2])}) IN
                            IF sp # <<>> /\ Chance(2, 3) THEN Str(Pick(sp)) ELSE Flt(8 * v[2])
                       ELSE IF v[1] = "ilit" /\ (v[2] = "18446744073709551616" \/ Chance(1, 3)) THEN Str(v[2])
                       ELSE v
    [] T[1] = "float" -> IF v[1] = "inf" THEN Str(IF v[2] = 1 THEN "inf" ELSE "-inf")
                         ELSE IF v[1] = "flit" THEN (IF v[2] \in {"5e-324", "1e-300"} THEN Str(v[2]) ELSE v)
                         ELSE IF Chance(1, 4)
                         THEN LET sp == SpellsOf({v} \union (IF v[2] % 8 = 0 THEN {I(v[2] \div 8)} ELSE {})) IN
                              IF sp # <<>> /\ Chance(1, 2) THEN Str(Pick(sp)) ELSE IF v[2] % 8 = 0 THEN I(v[2] \div 8) ELSE v
                         ELSE v
    [] T[1] = "enum" -> Get(T[3], v[3])
    [] T[1] = "list" -> <<"list", Seq1(LAMBDA i : GenTree(T[2], v[2][i], e, r), Len(v[2]))>>
    [] T[1] = "tup" -> <<"tup", Seq1(LAMBDA i : GenTree(T[2][i], v[2][i], e, r), Len(v[2]))>>
    [] T[1] = "dict" -> <<"dict", Seq1(LAMBDA i : <<v[2][i][1], TLCEval(GenTree(T[2], v[2][i][2], e, r))>>, Len(v[2]))>>
    [] T[1] = "union" -> LET S == T[2][CHOOSE i \in DOMAIN T[2] : T[2][i][2] = v[2]]
                             t == TLCEval(GenTree(S, v, e, r))
                         IN IF IsSec(t) THEN <<"obj", v[2], SecPairs(t)>> ELSE t
    [] T[1] = "st" ->
         LET skip(i) == LET f == Fields(T)[i]  o == Omitted(f, Absent) IN
                        \/ r > 0 /\ IsOk(o) /\ Same(o[2], v[3][i][2]) /\ Chance(r, 4)
                        \/ e > 0 /\ Chance(e, 60)
             one(i) == IF skip(i) THEN <<>>
                       ELSE <<<<Fields(T)[i][1], TLCEval(GenTree(FType(Fields(T)[i]), v[3][i][2], e, r))>>>>
             parts == Seq1(one, Len(v[3]))
             extra == IF e > 0 /\ Chance(e, 20) THEN <<<<Pick(<<"unknown", "A", "lr2">>), Pick(<<I(1), None, <<"dict", <<<<"q", I(1)>>>>>>>>)>>>> ELSE <<>>
             ver == IF Version(T) < 0 THEN <<>>
                    ELSE IF e > 0 /\ Chance(e, 20) THEN Pick(<< <<>>, <<<<"version", None>>>> >>)
                    ELSE <<<<"version", I(Version(T))>>>>
             RECURSIVE Cat(_)
             Cat(i) == IF i > Len(parts) THEN <<>> ELSE parts[i] \o Cat(i + 1)
             body == TLCEval(Cat(1))
             ps == ver \o (IF Chance(1, 4) THEN Reverse1(body) ELSE body) \o extra
         IN IF ps = <<>> /\ Chance(1, 2) THEN <<"unit", T[2]>>
            ELSE IF Chance(1, 2) THEN <<"obj", IF ps = <<>> THEN "" ELSE Pick(<<T[2], T[2], "">>), ps>> ELSE <<"dict", ps>>
    [] OTHER -> v

---------------------------------------------------------------------------
(* Overrides *)

RECURSIVE GenPath(_)
GenPath(T) == LET f == TLCEval(Pick(Fields(T)))  S == Unopt(FType(f)) IN
              IF IsStruct(S) /\ Chance(4, 5) THEN <<f[1]>> \o TLCEval(GenPath(S)) ELSE <<f[1]>>

\* e > 0: overrides that are mistakes, about e in 10
GenOv(T, e) ==
  LET p == TLCEval(GenPath(T))  f == FindField(T, p)  F == FType(f)
      good == IF F = <<"str">> THEN <<"txt", Pick(Strings)>>
              ELSE IF F = <<"bool">> THEN <<"txt", Pick(<<"true", "false", "True", "False", "1", "0", "t", "f", "T", "F">>)>>
              ELSE LET v == TLCEval(GenVal(F)) IN
                   IF F[1] \in {"opt", "lit"} /\ v[1] = "str" /\ v[2] \in {"adam", "x", "sgd", "on"} /\ Chance(2, 3)
                   THEN <<"unit", v[2]>> ELSE GenTree(F, v, 0, 2)
      bad == CASE F = <<"str">> -> <<"noval">>
               [] F = <<"bool">> -> Pick(<< <<"txt", "yes">>, <<"txt", "">>, <<"noval">>, <<"txt", "2">>, <<"txt", "TRUE">> >>)
               [] OTHER -> Pick(<<Wrong(F), <<"noval">>, <<"bad", "[1,">>, <<"bad", "(((">>, <<"bad", "">>, Wrong(F), GenTree(F, GenVal(F), 20, 2)>>)
      k == TLCEval(RandomElement(1..10))
  IN IF k <= e
     THEN IF k = 1 THEN <<<<Pick(<<p \o <<"nope">>, <<"nope">> \o p, SubSeq(p, 1, Len(p) - 1) \o <<"a_b">> >>), I(1)>>>>
          ELSE <<<<p, bad>>>>
     ELSE <<<<p, good>>>>

RECURSIVE GenOvs(_, _, _)
GenOvs(T, e, n) == IF n = 0 THEN <<>> ELSE TLCEval(GenOv(T, e)) \o GenOvs(T, e, n - 1)
=============================================================================
