------------------------------- MODULE Serde -------------------------------
(* Loading (typed, with defaults, versions, upgrade rules and overrides)    *)
(* and dumping of configs.                                                  *)
EXTENDS Values

\* env.ign: unknown fields are ignored; env.amv: a missing version means the current one
Env(ign, amv) == [ign |-> ign, amv |-> amv]

---------------------------------------------------------------------------
(* Sections of a tree *)

\* A bare word can be a section whose fields are all omitted
IsSec(n) == n[1] \in {"obj", "dict", "weak", "unit"}
SecPairs(n) == IF n[1] = "obj" THEN n[3] ELSE IF n[1] = "unit" THEN <<>> ELSE n[2]
WithPairs(n, ps) == IF n[1] = "obj" \/ (n[1] = "unit" /\ ps # <<>>) THEN <<"obj", n[2], ps>> ELSE IF n[1] = "unit" THEN n ELSE <<n[1], ps>>

RECURSIVE Look(_, _)
Look(ps, p) ==
  LET n == Get(ps, p[1]) IN
  IF Len(p) = 1 THEN n ELSE IF IsSec(n) THEN Look(SecPairs(n), Tail(p)) ELSE Absent

RECURSIVE Remove(_, _)
Remove(ps, p) ==
  IF Len(p) = 1 THEN Del(ps, p[1])
  ELSE LET n == Get(ps, p[1]) IN
       IF IsSec(n) THEN Put(ps, p[1], WithPairs(n, Remove(SecPairs(n), Tail(p)))) ELSE ps

\* Whether the path lies in a section that is omitted from the config
RECURSIVE InWeak(_, _)
InWeak(ps, p) ==
  IF Len(p) = 1 THEN FALSE
  ELSE LET n == Get(ps, p[1]) IN
       IF ~IsSec(n) THEN FALSE ELSE n[1] = "weak" \/ InWeak(SecPairs(n), Tail(p))

\* States a value. Sections on the way come into being.
RECURSIVE Insert(_, _, _)
Insert(ps, p, v) ==
  IF Len(p) = 1 THEN Put(ps, p[1], v)
  ELSE LET n == Get(ps, p[1]) IN
       IF n = Absent THEN Put(ps, p[1], <<"obj", "", Insert(<<>>, Tail(p), v)>>)
       ELSE IF n[1] = "weak" THEN Put(ps, p[1], <<"obj", "", Insert(n[2], Tail(p), v)>>)
       ELSE IF IsSec(n) THEN Put(ps, p[1], WithPairs(n, Insert(SecPairs(n), Tail(p), v)))
       ELSE ps

\* Records the value to assume for a field which the config does not state.
\* Omitted sections stay omitted.
RECURSIVE Assume(_, _, _)
Assume(ps, p, v) ==
  IF Len(p) = 1 THEN Put(ps, p[1], v)
  ELSE LET n == Get(ps, p[1]) IN
       IF n = Absent THEN Put(ps, p[1], <<"weak", Assume(<<>>, Tail(p), v)>>)
       ELSE IF IsSec(n) THEN Put(ps, p[1], WithPairs(n, Assume(SecPairs(n), Tail(p), v)))
       ELSE ps

---------------------------------------------------------------------------
(* Upgrade rules. Pairs in, <<"ok", pairs>> or an error out.                *)

MapFn(fn, x) ==
  CASE fn = "inc"  -> IF x[1] = "int" THEN I(x[2] + 1) ELSE IF x[1] = "float" THEN Flt(x[2] + 8) ELSE x
    [] fn = "dbl"  -> IF x[1] \in {"int", "float"} THEN <<x[1], 2 * x[2]>> ELSE x
    [] fn = "wrap" -> <<"list", <<x>>>>
    [] fn = "seven" -> I(7)
    [] OTHER -> x

\* Replaces one value by another: <<"swap", old, new>>
MapVal(fn, x) == IF fn[1] = "swap" THEN (IF x = fn[2] THEN fn[3] ELSE x) ELSE MapFn(fn[1], x)

Move(ps, p, q, v) == IF InWeak(ps, p) THEN Assume(Remove(ps, p), q, v) ELSE Insert(Remove(ps, p), q, v)

\* Equality of written values: 1 and 1.0 are equal
PyEq(a, b) == \/ a = b
              \/ a[1] = "int" /\ b[1] = "float" /\ b[2] % 8 = 0 /\ b[2] \div 8 = a[2]
              \/ b[1] = "int" /\ a[1] = "float" /\ a[2] % 8 = 0 /\ a[2] \div 8 = b[2]
OneOf(x, S) == \E y \in S : PyEq(x, y)

\* Whether a value can be put at p: nothing on the way is other than a section
RECURSIVE CanHold(_, _)
CanHold(ps, p) ==
  IF Len(p) = 1 THEN TRUE
  ELSE LET n == Get(ps, p[1]) IN n = Absent \/ (IsSec(n) /\ CanHold(SecPairs(n), Tail(p)))

Values1(n) == IF n[1] \in {"absent", "none"} THEN {} ELSE IF n[1] = "list" THEN Range(n[2]) ELSE {n}

ApplyRule(ps, r) ==
  LET k == r[1]  p == r[2]  n == Look(ps, p) IN
  CASE k = "rename" -> IF n = Absent THEN Ok(ps)
                       ELSE IF ~CanHold(ps, r[3]) THEN Open ELSE Ok(Move(ps, p, r[3], n))
    [] k = "delete" -> Ok(Remove(ps, p))
    [] k \in {"map", "custom", "check", "reject"} /\ n[1] = "unit" -> Open
    [] k \in {"map", "custom"} -> Ok(IF n = Absent THEN ps ELSE Move(ps, p, p, MapVal(r[3], n)))
    [] k \in {"chdef", "adddef"} -> Ok(IF n = Absent \/ n[1] = "weak" THEN Assume(Remove(ps, p), p, r[3]) ELSE ps)
    [] k = "check" -> IF \A x \in Values1(n) : OneOf(x, Range(r[3])) THEN Ok(ps) ELSE Err
    [] k = "reject" -> IF \E x \in Values1(n) : x[1] \in {"list", "tup", "dict", "obj", "weak"} THEN Open
                       ELSE IF \A x \in Values1(n) : ~OneOf(x, Range(r[3])) THEN Ok(ps) ELSE Err
    [] OTHER -> Ok(ps)

RECURSIVE ApplyRules(_, _)
ApplyRules(ps, rs) ==
  IF rs = <<>> THEN Ok(ps)
  ELSE LET r == ApplyRule(ps, rs[1]) IN IF IsOk(r) THEN ApplyRules(r[2], Tail(rs)) ELSE r

\* The rules to apply to data recorded at version v, in order
RECURSIVE RulesFrom(_, _, _)
RulesFrom(rules, v, n) ==
  IF v >= n THEN <<>>
  ELSE (IF Has(rules, v) THEN Get(rules, v) ELSE <<>>) \o RulesFrom(rules, v + 1, n)
Pending(T, v) == RulesFrom(Rules(T), v, Version(T))

\* Sections that lost all their fields and are unknown to the class are dropped, other than
\* those that were empty before.
RECURSIVE Mark(_, _)
Mark(ps, p) == IF Len(p) = 1 THEN Put(ps, p[1], None)
               ELSE LET n == Get(ps, p[1]) IN Put(ps, p[1], <<"obj", "", Mark(IF IsSec(n) THEN SecPairs(n) ELSE <<>>, Tail(p))>>)
\* Rules that take a field out of a section say that it had one.
RECURSIVE Marked(_, _)
Marked(ps, rs) ==
  IF rs = <<>> THEN ps
  ELSE LET r == rs[1]  p == r[2] IN
       Marked(IF r[1] \in {"rename", "delete"} /\ Len(p) > 1 /\ Look(ps, p) = Absent THEN Mark(ps, p) ELSE ps, Tail(rs))
WasEmpty(n) == IsSec(n) /\ Keys(SecPairs(n)) \ {"version"} = {}
PairsIn(n) == IF IsSec(n) THEN SecPairs(n) ELSE <<>>
RECURSIVE Prune(_, _, _)
Prune(T, before, after) ==
  LET drop(k, n) == LET ps == Prune(<<"any">>, PairsIn(Get(before, k)), SecPairs(n)) IN
                    IF Keys(ps) \ {"version"} = {} THEN Absent ELSE WithPairs(n, ps)
      keep(k, n) ==
        IF n[1] \notin {"obj", "dict"} \/ ~IsSec(Get(before, k)) \/ WasEmpty(Get(before, k)) THEN n
        ELSE IF IsStruct(T) /\ HasField(T, k)
        THEN LET S == Unopt(FType(Field(T, k))) IN
             IF IsStruct(S) THEN WithPairs(n, Prune(S, PairsIn(Get(before, k)), SecPairs(n)))
             ELSE IF S[1] = "dict" THEN n ELSE drop(k, n)
        ELSE drop(k, n)
      kept == [i \in DOMAIN after |-> <<after[i][1], keep(after[i][1], after[i][2])>>]
  IN SelectSeq(kept, LAMBDA p : p[2] # Absent)

\* Versioned sections that rules brought into being are of the current version.
RECURSIVE Stamp(_, _, _)
Stamp(T, before, after) ==
  LET one(k, n) ==
        IF n[1] \notin {"obj", "dict"} \/ ~HasField(T, k) THEN n
        ELSE LET S == Unopt(FType(Field(T, k)))  b == Get(before, k) IN
             IF ~IsStruct(S) THEN n
             ELSE LET m == WithPairs(n, Stamp(S, PairsIn(b), SecPairs(n))) IN
                  IF ~IsSec(b) /\ Version(S) >= 0 /\ ~Has(SecPairs(m), "version")
                  THEN WithPairs(m, Append(SecPairs(m), <<"version", I(Version(S))>>)) ELSE m
  IN [i \in DOMAIN after |-> <<after[i][1], one(after[i][1], after[i][2])>>]

\* Pairs of a section of class T as written -> pairs at the current version
Upgrade(T, ps, env) ==
  IF Version(T) < 0 THEN Ok(ps)
  ELSE LET v == Get(ps, "version")  rest == Del(ps, "version") IN
       IF v \in {Absent, None} THEN IF env.amv THEN Ok(rest) ELSE Err
       ELSE IF v[1] = "bool" THEN Open
       ELSE IF v[1] # "int" THEN Err
       ELSE LET r == ApplyRules(rest, Pending(T, v[2])) IN
            IF IsOk(r) THEN Ok(Stamp(T, rest, Prune(T, Marked(rest, Pending(T, v[2])), r[2]))) ELSE r

---------------------------------------------------------------------------
(* Objects as trees *)

RECURSIVE ToTree(_, _)
ToTree(T, v) ==
  CASE T[1] = "opt" -> IF v = None THEN v ELSE ToTree(T[2], v)
    [] T[1] = "enum" -> Get(T[3], v[3])
    [] T[1] = "list" -> <<"list", [i \in DOMAIN v[2] |-> ToTree(T[2], v[2][i])]>>
    [] T[1] = "tup" -> <<"tup", [i \in DOMAIN v[2] |-> ToTree(T[2][i], v[2][i])]>>
    [] T[1] = "dict" -> <<"dict", [i \in DOMAIN v[2] |-> <<v[2][i][1], ToTree(T[2], v[2][i][2])>>]>>
    [] T[1] = "union" -> ToTree(T[2][CHOOSE i \in DOMAIN T[2] : T[2][i][2] = v[2]], v)
    [] T[1] = "st" -> <<"obj", v[2],
          (IF Version(T) >= 0 THEN <<<<"version", I(Version(T))>>>> ELSE <<>>)
          \o [i \in DOMAIN v[3] |-> <<v[3][i][1], ToTree(FType(Field(T, v[3][i][1])), v[3][i][2])>>]>>
    [] OTHER -> v

---------------------------------------------------------------------------
(* Overrides: <<path, tree>>, or <<path, <<"txt", s>>>> for str and bool    *)
(* fields, <<path, <<"bad", s>>>> for text that is no value, and            *)
(* <<path, <<"noval">>>> if the "=" is missing.                             *)

BoolText(s) == CASE s \in {"True", "true", "1", "t", "T"} -> Bool(TRUE)
                 [] s \in {"False", "false", "0", "f", "F"} -> Bool(FALSE)
                 [] OTHER -> Absent

OvValue(T, ov) ==
  LET f == FindField(T, ov[1])  x == ov[2] IN
  IF f = <<>> \/ x[1] \in {"noval", "bad"} THEN Absent
  ELSE IF x[1] = "txt" THEN (IF FType(f) = <<"str">> THEN Str(x[2]) ELSE IF FType(f) = <<"bool">> THEN BoolText(x[2]) ELSE Absent)
  ELSE x

\* Overriding a whole section supersedes earlier overrides inside of it.
Effective(ovs) == LET late(i) == \E j \in (i + 1)..Len(ovs) : IsPrefix(ovs[j][1], ovs[i][1])
                      idx == {i \in DOMAIN ovs : ~late(i)}
                      RECURSIVE Collect(_)
                      Collect(i) == IF i > Len(ovs) THEN <<>> ELSE (IF i \in idx THEN <<ovs[i]>> ELSE <<>>) \o Collect(i + 1)
                  IN Collect(1)

Below(ovs, f) == LET deep == SelectSeq(ovs, LAMBDA o : Len(o[1]) > 1 /\ o[1][1] = f)
                 IN [i \in DOMAIN deep |-> <<Tail(deep[i][1]), deep[i][2]>>]

\* The section that an omitted field stands for when something inside of it is overridden
NewSection(fld, n) ==
  LET S == Unopt(FType(fld))
      withVersion(ps) == IF Version(S) >= 0 THEN Put(ps, "version", I(Version(S))) ELSE ps
  IN IF HasDefault(fld) /\ Default(fld) # None THEN ToTree(S, Default(fld))
     ELSE <<"obj", "", withVersion(IF n[1] = "weak" THEN n[2] ELSE <<>>)>>

RECURSIVE Override(_, _, _)
Override(T, ps, ovs) ==
  IF ovs = <<>> THEN ps
  ELSE LET p == ovs[1][1]  n == Get(ps, p[1])
           ps2 == IF Len(p) = 1 THEN Put(ps, p[1], ovs[1][2])
                  ELSE IF n[1] \in {"absent", "none", "weak"} THEN Put(ps, p[1], NewSection(Field(T, p[1]), n))
                  ELSE ps
       IN Override(T, ps2, Tail(ovs))

---------------------------------------------------------------------------
(* Loading *)

AllOk(rs) == \A i \in DOMAIN rs : IsOk(rs[i])
Failure(rs) == IF \E i \in DOMAIN rs : rs[i] = Open THEN Open ELSE Err
Vals(rs) == [i \in DOMAIN rs |-> rs[i][2]]

RECURSIVE Coerce(_, _, _, _), LoadStruct(_, _, _, _), Build(_, _), Omitted(_, _)

\* Fields that a config leaves out
Omitted(fld, w) ==
  IF w[1] \notin {"absent", "weak"} THEN Coerce(FType(fld), w, <<>>, Env(FALSE, TRUE))
  ELSE IF HasDefault(fld) THEN Ok(Default(fld))
  ELSE IF IsStruct(FType(fld)) THEN Build(FType(fld), IF w = Absent THEN <<>> ELSE w[2])
  ELSE Err

Build(T, weak) ==
  LET rs == [i \in DOMAIN Fields(T) |-> Omitted(Fields(T)[i], Get(weak, Fields(T)[i][1]))]
  IN IF AllOk(rs) THEN Ok(<<"obj", T[2], [i \in DOMAIN rs |-> <<Fields(T)[i][1], rs[i][2]>>]>>) ELSE Failure(rs)

LoadStruct(T, written, ovs, env) ==
  LET up == Upgrade(T, written, env) IN
  IF ~IsOk(up) THEN up
  ELSE LET ps == Override(T, up[2], ovs)
           unknown == {i \in DOMAIN ps : ~HasField(T, ps[i][1]) /\ ps[i][2][1] # "weak"}
           one(i) == LET fld == Fields(T)[i]  n == Get(ps, fld[1]) IN
                     IF n[1] \in {"absent", "weak"} THEN Omitted(fld, n)
                     ELSE Coerce(FType(fld), n, Below(ovs, fld[1]), env)
           rs == [i \in DOMAIN Fields(T) |-> one(i)]
       IN IF \E i \in DOMAIN rs : rs[i] = Open THEN Open
          ELSE IF unknown # {} /\ ~env.ign THEN Err
          ELSE IF AllOk(rs) THEN Ok(<<"obj", T[2], [i \in DOMAIN rs |-> <<Fields(T)[i][1], rs[i][2]>>]>>)
          ELSE Err

\* Python holds true, 1 and 1.0 for equal: whether one stands for the other as
\* the value of an enum or a literal is left open.
Eighths(x) == CASE x[1] = "int" -> <<8 * x[2]>> [] x[1] = "float" -> <<x[2]>>
                [] x[1] = "bool" -> <<IF x[2] THEN 8 ELSE 0>> [] OTHER -> <<>>
Lookalike(a, b) == Eighths(a) # <<>> /\ Eighths(a) = Eighths(b)

Coerce(T, x, ovs, env) ==
  CASE T[1] = "opt" -> IF x = None THEN Ok(None) ELSE Coerce(T[2], x, ovs, env)
    [] T[1] = "int" -> IF x[1] \in {"int", "ilit", "sched"} THEN Ok(x)
                       ELSE IF x[1] = "float" /\ x[2] % 8 = 0 THEN Ok(I(x[2] \div 8))
                       ELSE IF x[1] = "str"
                       THEN LET y == Spelled(x[2]) IN
                            IF y[1] \in {"int", "ilit"} THEN Ok(y)
                            ELSE IF y[1] = "float" /\ y[2] % 8 = 0 THEN Ok(I(y[2] \div 8)) ELSE Err
                       ELSE IF x[1] = "bool" THEN Open   \* True is an int to Python
                       ELSE Err
    [] T[1] = "float" -> IF x[1] \in {"float", "inf", "flit", "sched"} THEN Ok(x)
                         ELSE IF x[1] = "int" THEN Ok(Flt(8 * x[2]))
                         ELSE IF x[1] = "str"
                         THEN LET y == Spelled(x[2]) IN
                              IF y[1] \in {"float", "inf", "flit"} THEN Ok(y)
                              ELSE IF y[1] = "int" THEN Ok(Flt(8 * y[2])) ELSE IF y[1] = "ilit" THEN Open ELSE Err
                         ELSE IF x[1] \in {"bool", "ilit"} THEN Open   \* True, and integers too large to compute with here
                         ELSE Err
    [] T[1] = "bool" -> IF x[1] = "bool" THEN Ok(x) ELSE Err
    [] T[1] = "str" -> IF x[1] = "str" THEN Ok(x) ELSE IF x[1] = "unit" THEN Ok(Str(x[2])) ELSE Err
    [] T[1] = "lit" -> LET y == IF x[1] = "unit" THEN Str(x[2]) ELSE x IN
                       IF \E i \in DOMAIN T[2] : T[2][i] = y THEN Ok(y)
                       ELSE IF \E i \in DOMAIN T[2] : Lookalike(T[2][i], y) THEN Open ELSE Err
    [] T[1] = "enum" -> LET y == x IN
                        IF x[1] = "unit" THEN Open    \* whether bare words can stand for the values of enums
                        ELSE IF \E i \in DOMAIN T[3] : T[3][i][2] = y
                        THEN Ok(<<"enum", T[2], T[3][CHOOSE i \in DOMAIN T[3] : T[3][i][2] = y][1]>>)
                        ELSE IF \E i \in DOMAIN T[3] : Lookalike(T[3][i][2], y) THEN Open ELSE Err
    [] T[1] = "list" -> IF x[1] # "list" THEN Err
                        ELSE LET rs == [i \in DOMAIN x[2] |-> Coerce(T[2], x[2][i], <<>>, env)]
                             IN IF AllOk(rs) THEN Ok(<<"list", Vals(rs)>>) ELSE Failure(rs)
    [] T[1] = "tup" -> IF x[1] # "tup" \/ Len(x[2]) # Len(T[2]) THEN Err
                       ELSE LET rs == [i \in DOMAIN x[2] |-> Coerce(T[2][i], x[2][i], <<>>, env)]
                            IN IF AllOk(rs) THEN Ok(<<"tup", Vals(rs)>>) ELSE Failure(rs)
    [] T[1] = "dict" -> IF x[1] \in {"obj", "unit"} /\ x[2] # "" THEN Open
                        ELSE IF ~IsSec(x) THEN Err
                        ELSE LET rs == [i \in DOMAIN SecPairs(x) |-> Coerce(T[2], SecPairs(x)[i][2], <<>>, env)]
                             IN IF AllOk(rs) THEN Ok(<<"dict", [i \in DOMAIN rs |-> <<SecPairs(x)[i][1], rs[i][2]>>]>>) ELSE Failure(rs)
    [] T[1] = "union" -> LET m == {i \in DOMAIN T[2] : x[1] \in {"obj", "unit"} /\ T[2][i][2] = x[2]} IN
                         IF m = {} THEN Err ELSE Coerce(T[2][CHOOSE i \in m : TRUE], x, ovs, env)
    [] T[1] = "st" -> IF x[1] \in {"obj", "dict"} THEN LoadStruct(T, SecPairs(x), ovs, env)
                      ELSE IF x[1] = "unit" THEN LoadStruct(T, <<>>, ovs, env)
                      ELSE Err
    [] OTHER -> Err

\* Loading a whole config
Load(T, tree, ovs, env) ==
  LET vs == [i \in DOMAIN ovs |-> <<ovs[i][1], OvValue(T, ovs[i])>>] IN
  IF \E i \in DOMAIN vs : vs[i][2] = Absent THEN Err
  ELSE Coerce(T, tree, Effective(vs), env)

---------------------------------------------------------------------------
(* Dumping. Eliding may leave out any field whose value is its default.     *)

MayElide(T, f, v) == LET fld == Field(T, f) IN HasDefault(fld) /\ Same(Default(fld), v)
=============================================================================
