----------------------------- MODULE MCUpgrade -----------------------------
(* Model checking of upgrades: a class evolves step by step, every step      *)
(* recorded as upgrade rule; data written at any version of the history must *)
(* load, at any later version, to the translation of what it meant when it   *)
(* was written. The translation is defined on values, the rules on trees.    *)
EXTENDS Serde, Json

CONSTANT MaxVersion

FI(n, T) == <<n, T, "no", None>>
FD(n, T, d) == <<n, T, "fac", d>>
St(n, fs) == <<"st", n, fs, -1, <<>>>>
INT == <<"int">>
LIT == <<"lit", <<Str("x"), Str("y")>>>>

Bases == <<
  <<FI("a", INT), FD("b", LIT, Str("x")), FI("s", St("S", <<FD("c", INT, I(0)), FD("d", LIT, Str("y"))>>))>>,
  <<FD("a", INT, I(1)), FI("o", <<"opt", St("O", <<FI("c", INT), FD("d", LIT, Str("x"))>>)>>)>>,
  <<FI("s", St("S", <<FI("t", St("U", <<FD("c", INT, I(0))>>)), FD("d", LIT, Str("y"))>>)), FD("z", INT, I(0))>>
>>

---------------------------------------------------------------------------
(* Evolution of classes *)

\* fields of a section with the field f removed / put at the end / replaced
DropF(fs, f) == SelectSeq(fs, LAMBDA x : x[1] # f)
Apply1(fs, f, op) ==
  CASE op[1] = "drop" -> DropF(fs, f)
    [] op[1] = "add"  -> fs \o <<<<f, op[2][2], op[2][3], op[2][4]>>>>
    [] op[1] = "default"    -> [i \in DOMAIN fs |-> IF fs[i][1] = f THEN [fs[i] EXCEPT ![4] = op[2]] ELSE fs[i]]
    [] op[1] = "nodefault"  -> [i \in DOMAIN fs |-> IF fs[i][1] = f THEN <<f, fs[i][2], "no", None>> ELSE fs[i]]
    [] op[1] = "mapdefault" -> [i \in DOMAIN fs |-> IF fs[i][1] = f /\ HasDefault(fs[i])
                                                    THEN [fs[i] EXCEPT ![4] = MapVal(op[2], fs[i][4])] ELSE fs[i]]
RECURSIVE Evolve(_, _, _)
\* Applies op to the field list of the section that holds the path p
Evolve(fs, p, op) ==
  IF Len(p) = 1 THEN Apply1(fs, p[1], op)
  ELSE [i \in DOMAIN fs |-> IF fs[i][1] # p[1] THEN fs[i]
                            ELSE LET U == Unopt(fs[i][2])
                                     V == <<"st", U[2], Evolve(U[3], Tail(p), op), -1, <<>>>>
                                 IN [fs[i] EXCEPT ![2] = IF fs[i][2][1] = "opt" THEN <<"opt", V>> ELSE V]]

RECURSIVE FieldOf(_, _)
FieldOf(fs, p) == LET T == <<"st", "", fs, -1, <<>>>> IN FindField(T, p)

\* Paths of leaf fields, and of sections
RECURSIVE LeafPaths(_), SecPaths(_)
LeafPaths(fs) == UNION {LET U == Unopt(fs[i][2]) IN IF IsStruct(U) THEN {<<fs[i][1]>> \o p : p \in LeafPaths(U[3])} ELSE {<<fs[i][1]>>} : i \in DOMAIN fs}
SecPaths(fs) == {<<>>} \union UNION {LET U == Unopt(fs[i][2]) IN IF IsStruct(U) THEN {<<fs[i][1]>> \o p : p \in SecPaths(U[3])} ELSE {} : i \in DOMAIN fs}
\* Whether the path goes through an optional section
RECURSIVE ViaOpt(_, _)
ViaOpt(fs, p) == Len(p) > 1 /\ LET F == FieldOf(fs, <<p[1]>>)[2] IN F[1] = "opt" \/ ViaOpt(Unopt(F)[3], Tail(p))

---------------------------------------------------------------------------
(* Values *)

RECURSIVE Prod(_)
Prod(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<x>> \o r : x \in Head(ss), r \in Prod(Tail(ss))}

Leaves(T) == IF T = INT THEN {I(0), I(1)} ELSE Range(T[2])

\* Sections as users write them: any subset of the fields that have defaults may be missing, whole sections too
RECURSIVE Texts(_)
Texts(fs) ==
  LET canOmit(f) == HasDefault(f) \/ (IsStruct(f[2]) /\ \A i \in DOMAIN f[2][3] : HasDefault(f[2][3][i]) \/ IsStruct(f[2][3][i][2]))
      node(f) == LET U == Unopt(f[2]) IN
                 (IF IsStruct(U) THEN {<<"obj", "", ps>> : ps \in Texts(U[3])} ELSE Leaves(U)) \union (IF f[2][1] = "opt" THEN {None} ELSE {})
      opts(f) == {<<<<f[1], x>>>> : x \in node(f)} \union (IF canOmit(f) THEN {<<>>} ELSE {})
      Flat(s) == LET RECURSIVE C(_) C(i) == IF i > Len(s) THEN <<>> ELSE s[i] \o C(i + 1) IN C(1)
  IN {Flat(s) : s \in Prod([i \in DOMAIN fs |-> opts(fs[i])])}

\* Objects with a field removed or inserted
RECURSIVE Without(_, _), With(_, _, _)
Without(v, p) == IF v[1] # "obj" THEN v
                 ELSE IF Len(p) = 1 THEN <<"obj", v[2], Del(v[3], p[1])>>
                 ELSE <<"obj", v[2], Put(v[3], p[1], Without(Get(v[3], p[1]), Tail(p)))>>
With(v, p, x) == IF Len(p) = 1 THEN <<"obj", v[2], Put(v[3], p[1], x)>>
                 ELSE <<"obj", v[2], Put(v[3], p[1], With(Get(v[3], p[1]), Tail(p), x))>>
RECURSIVE Reachable(_, _)
Reachable(v, p) == Len(p) = 1 \/ (Get(v[3], p[1])[1] = "obj" /\ Reachable(Get(v[3], p[1]), Tail(p)))

---------------------------------------------------------------------------
VARIABLES
  fs,        \* fields of the class at the current version
  rules,     \* one rule per version
  text,      \* a config, written at version 0
  means      \* what it means at the current version
vars == <<fs, rules, text, means>>

Now == Len(rules)
Cls == <<"st", "R", fs, Now, [i \in DOMAIN rules |-> <<i - 1, <<rules[i]>>>>]>>
Plain(x) == <<"st", "R", x, -1, <<>>>>

Init == \E b \in DOMAIN Bases :
          /\ fs = Bases[b] /\ rules = <<>>
          /\ text \in Texts(fs)
          /\ means = Coerce(Plain(fs), <<"obj", "", text>>, <<>>, Env(FALSE, FALSE))
          /\ IsOk(means)

Fresh(k) == <<"n1", "n2", "n3", "n4">>[k]
Trans(f(_)) == IF IsOk(means) THEN Ok(f(means[2])) ELSE means

\* A leaf is renamed, possibly into another section that all configs have
Rename(p, s) ==
  LET q == s \o <<Fresh(Now + 1)>>  fld == FieldOf(fs, p) IN
  /\ fs' = Evolve(Evolve(fs, p, <<"drop">>), q, <<"add", fld>>)
  /\ rules' = Append(rules, <<"rename", p, q>>)
  /\ means' = Trans(LAMBDA v : IF Reachable(v, p) THEN With(Without(v, p), q, At(v, p)) ELSE v)

Delete(p) ==
  /\ fs' = Evolve(fs, p, <<"drop">>)
  /\ rules' = Append(rules, <<"delete", p>>)
  /\ means' = Trans(LAMBDA v : Without(v, p))

\* The default of a field changes; data keeps the old one
ChangeDefault(p) ==
  LET fld == FieldOf(fs, p)  new == CHOOSE x \in Leaves(fld[2]) : x # fld[4] IN
  /\ HasDefault(fld)
  /\ fs' = Evolve(fs, p, <<"default", new>>)
  /\ rules' = Append(rules, <<"chdef", p, fld[4], new>>)
  /\ means' = means

\* A field loses its default, or appears: data gets the given value
RemoveDefault(p) ==
  LET fld == FieldOf(fs, p) IN
  /\ HasDefault(fld)
  /\ fs' = Evolve(fs, p, <<"nodefault">>)
  /\ rules' = Append(rules, <<"adddef", p, fld[4]>>)
  /\ means' = means
AddField(s, d) ==
  LET q == s \o <<Fresh(Now + 1)>> IN
  /\ fs' = Evolve(fs, q, <<"add", <<"", INT, "no", None>>>>)
  /\ rules' = Append(rules, <<"adddef", q, d>>)
  /\ means' = Trans(LAMBDA v : IF Reachable(v, q) THEN With(v, q, d) ELSE v)

\* Values are translated. Defaults of the class change along.
MapValues(p) ==
  LET fld == FieldOf(fs, p)  fn == IF fld[2] = INT THEN <<"inc">> ELSE <<"swap", Str("x"), Str("y")>> IN
  /\ fs' = Evolve(fs, p, <<"mapdefault", fn>>)
  /\ rules' = Append(rules, <<"map", p, fn>>)
  /\ means' = Trans(LAMBDA v : IF Reachable(v, p) THEN With(v, p, MapVal(fn, At(v, p))) ELSE v)

\* Rules about fields that no config has
Ghost ==
  /\ fs' = fs /\ means' = means
  /\ rules' \in {Append(rules, g) : g \in {<<"delete", <<"ghost", "x">>>>, <<"rename", <<"ghost">>, <<"a">>>>, <<"map", <<"a", "b">>, <<"inc">>>>,
                                            <<"check", <<"ghost">>, <<>>>>, <<"reject", <<"s", "ghost">>, <<I(0)>>>>}}

Next ==
  /\ Now < MaxVersion
  /\ UNCHANGED text
  /\ \/ \E p \in LeafPaths(fs) :
          \/ \E s \in SecPaths(fs) : (s = SubSeq(p, 1, Len(p) - 1) \/ ~(ViaOpt(fs, p) \/ ViaOpt(fs, s \o <<"n">>))) /\ Rename(p, s)
          \/ Delete(p) \/ ChangeDefault(p) \/ RemoveDefault(p) \/ MapValues(p)
     \/ \E s \in SecPaths(fs) : AddField(s, I(1))
     \/ Ghost

---------------------------------------------------------------------------
\* Sections all of whose fields are gone are gone too; equality up to order of fields
Preserved == LET r == Coerce(Cls, <<"obj", "", <<<<"version", I(0)>>>> \o text>>, <<>>, Env(FALSE, FALSE)) IN
             IsOk(r) /\ Same(r[2], means[2])
---------------------------------------------------------------------------
\* Prints the behaviours for replay against the implementation
Emit == rules # <<>> =>
          PrintT("@" \o ToJson([k |-> "load", t |-> Cls, tree |-> <<"obj", "", <<<<"version", I(0)>>>> \o text>>, ovs |-> <<>>, via |-> "loads", ign |-> FALSE]))
=============================================================================
