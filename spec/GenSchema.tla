----------------------------- MODULE GenSchema -----------------------------
(* Random evolutions of classes, and configs for the old classes.           *)
EXTENDS Gen, Evolve, Json

CONSTANT Mode      \* "same", "pair", "chain"

---------------------------------------------------------------------------
(* Sections of a class *)

RECURSIVE SecPaths(_, _, _)
\* <<path, soft>>: soft if a section on the way is optional or has a default of its own
SecPaths(T, p, soft) ==
  LET one(i) == LET f == Fields(T)[i]  F == FType(f) IN
                IF IsStruct(Unopt(F)) THEN SecPaths(Unopt(F), Append(p, f[1]), soft \/ F[1] = "opt" \/ HasDefault(f)) ELSE <<>>
      RECURSIVE Cat(_)
      Cat(i) == IF i > Len(Fields(T)) THEN <<>> ELSE one(i) \o Cat(i + 1)
  IN <<<<p, soft>>>> \o Cat(1)

RECURSIVE SecAt(_, _)
SecAt(T, p) == IF p = <<>> THEN T ELSE SecAt(Unopt(FType(Field(T, p[1]))), Tail(p))

RECURSIVE Adapt(_, _)
\* A value of type T close to v
Adapt(T, v) ==
  IF T[1] = "opt" /\ v # None THEN Adapt(T[2], v)
  ELSE IF Conforms(T, v) THEN v
  ELSE IF T[1] = "st" /\ v[1] = "obj"
  THEN <<"obj", T[2], Seq1(LAMBDA i : LET f == Fields(T)[i] IN
           <<f[1], TLCEval(IF Has(v[3], f[1]) THEN Adapt(FType(f), Get(v[3], f[1])) ELSE IF HasDefault(f) THEN Default(f) ELSE GenVal(FType(f)))>>, Len(Fields(T)))>>
  ELSE IF T[1] = "list" /\ v[1] # "list" /\ Conforms(T[2], v) THEN <<"list", <<v>>>>
  ELSE LET c == Coerce(T, v, <<>>, Env(FALSE, TRUE)) IN IF IsOk(c) THEN c[2] ELSE GenVal(T)

WithType(f, T) == IF HasDefault(f) THEN LET d == TLCEval(Adapt(T, Default(f))) IN
                       <<f[1], T, IF f[3] = "val" /\ d[1] \notin {"list", "dict", "obj"} THEN "val" ELSE "fac", d>>
                  ELSE <<f[1], T, "no", None>>

RECURSIVE SetSec(_, _, _)
SetSec(T, p, S) ==
  IF p = <<>> THEN S
  ELSE LET f == Field(T, p[1])  old == Unopt(FType(f))  sub == TLCEval(SetSec(old, Tail(p), S))
           F == IF FType(f)[1] = "opt" THEN <<"opt", sub>> ELSE sub
       IN [T EXCEPT ![3] = [i \in DOMAIN @ |-> IF @[i][1] = p[1] THEN WithType(f, F) ELSE @[i]]]

\* Fields without defaults come first
Ordered(fs) == SelectSeq(fs, LAMBDA f : ~HasDefault(f)) \o SelectSeq(fs, HasDefault)
SetFields(S, fs) == [S EXCEPT ![3] = Ordered(fs)]

---------------------------------------------------------------------------
(* Edits: <<new section, rules>>; the rules are what a careful developer    *)
(* registers                                                                *)

Similar(f) == CASE f = "lr" -> <<"learning_rate", "l_r", "lr2", "ell">> [] f = "steps" -> <<"n_steps", "step", "Steps", "stps">>
                [] f = "c_d" -> <<"cd", "c_dd", "see_dee">> [] f = "bb" -> <<"bbb", "b_b", "BB">> [] f = "zeta" -> <<"zeta2", "zet", "eta">>
                [] f = "Key" -> <<"key", "keys", "KEY">> [] OTHER -> <<f \o "_new", "new_" \o f, f \o "2">>
NewNames == <<"added", "n_w", "fresh", "opt_in", "q7">>

Drop1(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
RaisedVals(T) == IF T[1] = "enum" THEN [i \in DOMAIN T[3] |-> T[3][i][2]] ELSE T[2]

SomeLit == <<Str("adam"), Str("sgd"), Str("x"), Str("True"), Str("it's"), Str("")>>
\* Another type for a field: <<type, kind of rule>>. safe: none of the changes that mitigations are known not to cover
RECURSIVE Retype(_, _, _)
Retype(T, nm, safe) ==
  LET o(F) == <<F, <<>>>>
      wrap == IF safe THEN <<>> ELSE <<<<<<"list", T>>, <<"map", <<"wrap">>>>>>>>
      opt == IF T[1] = "opt" THEN <<>> ELSE <<o(<<"opt", T>>), o(<<"opt", T>>)>>
  IN CASE T[1] = "int" -> Pick(<<o(<<"float">>), o(<<"float">>), o(<<"str">>), o(<<"bool">>), o(<<"lit", <<I(0), I(1), I(3)>>>>)>> \o opt \o wrap)
       [] T[1] = "float" -> Pick(<<o(<<"int">>), o(<<"str">>)>> \o opt \o wrap)
       [] T[1] = "bool" -> Pick(<<o(<<"int">>), o(<<"str">>)>> \o opt \o wrap)
       [] T[1] = "str" -> LET vs == TLCEval(SubSeq(SomeLit, 1, RandomElement(2..5))) IN
                          Pick(<<<<<<"lit", vs>>, <<"check", vs>>>>, <<<<"lit", vs>>, <<"check", vs>>>>, o(<<"int">>), o(<<"float">>),
                                 o(<<"enum", nm \o "E", EnumVariants[1]>>)>> \o opt \o wrap)
       [] T[1] = "lit" ->
            LET k == RandomElement(1..Len(T[2]))  rest == TLCEval(Drop1(T[2], k)) IN
            Pick((IF Len(T[2]) > 1 THEN <<<<<<"lit", rest>>, <<"reject", <<T[2][k]>>>>>>, <<<<"lit", rest>>, <<"check", rest>>>>>> ELSE <<>>)
                 \o <<o(<<"lit", Append(T[2], Str("newest"))>>), o(<<"lit", <<Str("newest")>> \o T[2]>>), o(<<"lit", Append(rest, I(99))>>),
                      o(<<"str">>), o(<<"int">>)>> \o opt)
       [] T[1] = "enum" ->
            LET k == RandomElement(1..Len(T[3]))  vr == T[3][k]  rest == TLCEval(Drop1(T[3], k))  nv == Pick(<<Str("newval"), I(555)>>) IN
            Pick(<<o(<<"enum", T[2], Append(T[3], <<"EXTRA", Str("extra")>>)>>),
                   o(<<"enum", T[2], Append(rest, <<vr[1] \o "_2", vr[2]>>)>>),
                   <<<<"enum", T[2], [T[3] EXCEPT ![k] = <<vr[1], nv>>]>>, <<"map", <<"swap", vr[2], nv>>>>>>,
                   o(<<"str">>)>>
                 \o (IF safe THEN <<>> ELSE <<o(<<"enum", T[2], [i \in DOMAIN T[3] |-> <<T[3][i][1], T[3][(i % Len(T[3])) + 1][2]>>]>>), wrap[1]>>)
                 \o (IF Len(T[3]) > 1 THEN <<o(<<"enum", T[2], rest>>)>> ELSE <<>>) \o opt)
       [] T[1] = "opt" -> LET r == TLCEval(Retype(T[2], nm, safe)) IN
                          Pick(<<IF safe /\ IsStruct(T[2]) THEN o(T) ELSE o(T[2]), <<IF r[1][1] = "opt" THEN r[1] ELSE <<"opt", r[1]>>, <<>>>>, o(<<"list", T[2]>>)>> \o (IF safe THEN <<>> ELSE <<o(<<"opt", <<"list", T[2]>>>>)>>))
       [] T[1] = "list" -> LET r == TLCEval(Retype(T[2], nm, safe)) IN
                           IF safe THEN Pick(<<o(<<"opt", T>>), o(<<"list", <<"int">>>>), o(T)>>)
                           ELSE Pick(<<o(<<"list", r[1]>>), o(<<"list", r[1]>>), o(T[2]), o(<<"opt", T>>), o(<<"dict", T[2]>>)>>)
       [] T[1] = "dict" -> LET r == TLCEval(Retype(T[2], nm, safe)) IN Pick(<<o(<<"dict", r[1]>>), o(<<"dict", r[1]>>), o(<<"list", T[2]>>)>> \o opt)
       [] T[1] = "tup" -> LET k == RandomElement(1..Len(T[2]))  r == TLCEval(Retype(T[2][k], nm, safe)) IN
                          Pick(<<o(<<"tup", [T[2] EXCEPT ![k] = r[1]]>>), o(<<"tup", [T[2] EXCEPT ![k] = r[1]]>>), o(<<"tup", Append(T[2], <<"int">>)>>),
                                 o(<<"tup", IF Len(T[2]) > 1 THEN Drop1(T[2], k) ELSE <<T[2][1], T[2][1]>>>>), o(<<"list", T[2][1]>>)>> \o opt)
       [] T[1] = "union" -> LET k == RandomElement(1..Len(T[2])) IN
                            Pick(<<o(<<"union", Drop1(T[2], k) \o <<T[2][k]>>>>), o(<<"union", Append(T[2], <<"st", nm \o "New", <<<<"a", <<"int">>, "no", None>>>>, -1, <<>>>>)>>),
                                   o(IF Len(T[2]) > 2 THEN <<"union", Drop1(T[2], k)>> ELSE T[2][k])>>)
       [] T[1] = "st" -> Pick((IF safe THEN <<>> ELSE <<o(<<"opt", T>>)>>) \o <<o(<<"int">>), o(<<"str">>), o([T EXCEPT ![2] = @ \o "Renamed"])>>)

RECURSIVE HasVer(_)
HasVer(T) == CASE T[1] \in {"opt", "list", "dict"} -> HasVer(T[2])
               [] T[1] \in {"tup", "union"} -> \E i \in DOMAIN T[2] : HasVer(T[2][i])
               [] T[1] = "st" -> Version(T) >= 0 \/ \E i \in DOMAIN Fields(T) : HasVer(FType(Fields(T)[i]))
               [] OTHER -> FALSE

\* Another version of a class inside of a container
EditInner(S) ==
  LET i == RandomElement(1..Len(Fields(S)))  f == Fields(S)[i]  d == TLCEval(GenVal(FType(f))) IN
  Pick(<<SetFields(S, Append(S[3], <<"inn", <<"int">>, "no", None>>)), SetFields(S, Append(S[3], <<"inn", <<"int">>, "val", I(4)>>)),
         SetFields(S, [S[3] EXCEPT ![i] = TLCEval(WithType(f, TLCEval(Retype(FType(f), "In", FALSE))[1]))]),
         SetFields(S, [S[3] EXCEPT ![i] = <<f[1], f[2], "fac", d>>]),
         SetFields(S, [S[3] EXCEPT ![i] = <<f[1] \o "x", f[2], f[3], f[4]>>]),
         IF Len(Fields(S)) > 1 THEN SetFields(S, Drop1(S[3], i)) ELSE S,
         [S EXCEPT ![4] = IF @ = -1 THEN 0 ELSE -1], SetFields(S, Reverse1(S[3]))>>)

SetField(S, i, f) == SetFields(S, [S[3] EXCEPT ![i] = f])
PickField(S) == RandomElement(1..Len(Fields(S)))
Fresh(S, names) == LET free == SelectSeq(names, LAMBDA x : ~HasField(S, x)) IN IF free = <<>> THEN "zzz" ELSE Pick(free)

\* pre: path of the section S. soft: see SecPaths
EditSec(S, pre, soft, safe) ==
  LET i == TLCEval(PickField(S))  f == Fields(S)[i]  p == Append(pre, f[1])  F == FType(f)
      sec == IsStruct(Unopt(F))
      deflt == HasDefault(f)
      kind == TLCEval(Pick(<<"drop", "rename", "rename", "retype", "retype", "retype", "newdef", "newdef", "adddef", "nodef", "nodef", "add", "add", "addsec",
                             "reorder", "version", "inner">>))
  IN CASE kind = "drop" -> IF Len(Fields(S)) = 1 \/ (safe /\ sec /\ deflt) THEN <<S, <<>>>> ELSE <<SetFields(S, Drop1(S[3], i)), <<<<"delete", p>>>>>>
       [] kind = "rename" -> LET nm == TLCEval(Fresh(S, Similar(f[1]) \o NewNames)) IN
                             IF safe /\ sec /\ (deflt \/ F[1] = "opt") THEN <<S, <<>>>>
                             ELSE <<SetField(S, i, [f EXCEPT ![1] = nm]), <<<<"rename", p, Append(pre, nm)>>>>>>
       [] kind = "retype" -> LET r == TLCEval(Retype(F, S[2] \o "_" \o f[1], safe)) IN
                             IF safe /\ sec /\ deflt THEN <<S, <<>>>>
                             ELSE <<SetField(S, i, TLCEval(WithType(f, r[1]))), IF r[2] = <<>> THEN <<>> ELSE <<<<r[2][1], p, r[2][2]>>>>>>
       [] kind = "newdef" -> IF ~deflt \/ (sec /\ F[1] # "opt" /\ HasVer(F)) \/ (safe /\ HasVer(F)) THEN <<S, <<>>>>
                             ELSE LET d == TLCEval(GenVal(F)) IN
                                  <<SetField(S, i, <<f[1], F, IF f[3] = "val" /\ d[1] \notin {"list", "dict", "obj"} THEN "val" ELSE "fac", d>>),
                                    IF d = Default(f) THEN <<>> ELSE <<<<"chdef", p, ToTree(F, Default(f)), ToTree(F, d)>>>>>>
       [] kind = "adddef" -> IF deflt THEN <<S, <<>>>>
                             ELSE IF sec /\ F[1] # "opt"
                             THEN LET d == Omitted(f, Absent) IN IF safe /\ ~IsOk(d) THEN <<S, <<>>>>
                                  ELSE <<SetField(S, i, <<f[1], F, "fac", IF IsOk(d) THEN d[2] ELSE TLCEval(GenVal(F))>>), <<>>>>
                             ELSE LET d == TLCEval(GenVal(F)) IN <<SetField(S, i, <<f[1], F, IF d[1] \notin {"list", "dict", "obj"} THEN "val" ELSE "fac", d>>), <<>>>>
       [] kind = "nodef" -> IF ~deflt \/ (sec /\ HasVer(F)) \/ (safe /\ (HasVer(F) \/ sec)) THEN <<S, <<>>>>
                            ELSE <<SetField(S, i, <<f[1], F, "no", None>>), <<<<"adddef", p, ToTree(F, Default(f))>>>>>>
       [] kind \in {"add", "addsec"} ->
            LET nm == TLCEval(Fresh(S, NewNames))
                G == TLCEval(IF kind = "addsec" THEN GenStruct(1, S[2] \o "_" \o nm, FALSE, RandomElement(1..2))
                             ELSE Pick(<< <<"opt", <<"int">>>>, <<"list", <<"float">>>>, TLCEval(GenType(1, S[2] \o "_" \o nm, FALSE)) >>))
                d == TLCEval(GenVal(G))
                k == TLCEval(Pick(<<"no", "val">>))
            IN <<SetFields(S, Append(S[3], IF k = "no" THEN <<nm, G, "no", None>> ELSE <<nm, G, "fac", d>>)),
                 IF k = "no" /\ ~HasVer(G) THEN <<<<"adddef", Append(pre, nm), ToTree(G, d)>>>> ELSE <<>>>>
       [] kind = "reorder" -> <<SetFields(S, Reverse1(S[3])), <<>>>>
       [] kind = "version" -> IF pre = <<>> \/ safe THEN <<S, <<>>>> ELSE <<[S EXCEPT ![4] = IF @ = -1 THEN 1 ELSE IF Chance(1, 2) THEN -1 ELSE @ + 1], <<>>>>
       [] kind = "inner" -> IF safe \/ ~(F[1] \in {"list", "dict", "tup", "union", "opt"}) THEN <<S, <<>>>>
                            ELSE LET sub == IF F[1] \in {"list", "dict", "opt"} THEN F[2] ELSE F[2][1] IN
                                 IF ~IsStruct(sub) THEN <<S, <<>>>>
                                 ELSE LET e == TLCEval(EditInner(sub)) IN
                                      <<SetField(S, i, TLCEval(WithType(f, IF F[1] \in {"list", "dict", "opt"} THEN <<F[1], e>> ELSE <<F[1], [F[2] EXCEPT ![1] = e]>>))), <<>>>>
       [] OTHER -> <<S, <<>>>>

\* Moves a field between sections
EditMove(T, safe) ==
  LET secs == TLCEval(SecPaths(T, <<>>, FALSE))  a == TLCEval(Pick(secs))  S == SecAt(T, a[1])
      i == TLCEval(PickField(S))  f == Fields(S)[i]  p == Append(a[1], f[1])
      b == TLCEval(Pick(Append(secs, <<<<"newsec">>, FALSE>>)))
      brandnew == ~\E j \in DOMAIN secs : secs[j][1] = b[1]
      nm == TLCEval(Pick(<<f[1], f[1], f[1], f[1] \o "_new">>))
      T1 == TLCEval(SetSec(T, a[1], SetFields(S, Drop1(S[3], i))))
      U == IF brandnew THEN <<"st", "NewSec", <<[f EXCEPT ![1] = nm]>>, -1, <<>>>>
           ELSE LET D == SecAt(T1, b[1]) IN SetFields(D, Append(D[3], [f EXCEPT ![1] = nm]))
  IN IF Len(Fields(S)) = 1 \/ a[1] = b[1] \/ IsPrefix(p, b[1]) \/ (brandnew /\ HasField(T, "newsec"))
        \/ (safe /\ IsStruct(Unopt(FType(f)))) THEN <<T, <<>>>>
     ELSE IF ~brandnew /\ HasField(SecAt(T1, b[1]), nm) THEN <<T, <<>>>>
     ELSE IF safe /\ (a[2] \/ b[2]) THEN <<T, <<>>>>
     ELSE <<IF brandnew THEN SetFields(T1, Append(T1[3], <<"newsec", U, "no", None>>)) ELSE TLCEval(SetSec(T1, b[1], U)),
            IF a[2] \/ b[2] THEN <<>> ELSE <<<<"rename", p, Append(b[1], nm)>>>>>>

\* Where the sections on the way have no defaults that contain versioned objects
NoVer(T, p) == p = <<>> \/ ~HasVer(FType(Field(T, p[1])))
Edit(T, safe) ==
  IF Chance(1, 8) THEN EditMove(T, safe)
  ELSE LET as == SelectSeq(SecPaths(T, <<>>, FALSE), LAMBDA x : ~safe \/ ~x[2] \/ NoVer(T, x[1]))
           a == TLCEval(Pick(as))  e == TLCEval(EditSec(SecAt(T, a[1]), a[1], a[2], safe))
       IN <<TLCEval(SetSec(T, a[1], e[1])), IF a[2] /\ safe THEN <<>> ELSE e[2]>>

RECURSIVE Edits(_, _, _, _)
\* n edits, of which about c in 4 are covered by rules
Edits(T, n, c, safe) ==
  IF n = 0 THEN <<T, <<>>>>
  ELSE LET e == TLCEval(Edit(T, safe))  r == TLCEval(Edits(e[1], n - 1, c, safe)) IN <<r[1], (IF Chance(c, 4) THEN e[2] ELSE <<>>) \o r[2]>>

---------------------------------------------------------------------------
(* Configs *)

\* Everything that has a default has it
RECURSIVE Plain(_)
Plain(T) == <<"obj", T[2], Seq1(LAMBDA i : LET f == Fields(T)[i] IN
               <<f[1], TLCEval(IF HasDefault(f) THEN Default(f) ELSE IF IsStruct(FType(f)) THEN Plain(FType(f)) ELSE GenVal(FType(f)))>>, Len(Fields(T)))>>

Trees(T, n) == <<TLCEval(GenTree(T, TLCEval(Plain(T)), 0, 4)), TLCEval(GenTree(T, TLCEval(GenVal(T)), 0, 0))>>
               \o Seq1(LAMBDA i : GenTree(T, TLCEval(GenVal(T)), 0, 2), n)

---------------------------------------------------------------------------
VARIABLE n
Init == n = 0

Root(u) == LET S == TLCEval(GenStruct(Pick(<<1, 2, 2, 3>>), "R", u, RandomElement(2..5))) IN [S EXCEPT ![4] = RandomElement(0..2)]

CaseSame == [k |-> "same", t |-> TLCEval(Root(TRUE))]

CasePair ==
  LET T == TLCEval(Root(TRUE))
      e == TLCEval(Edits(T, Pick(<<1, 1, 1, 2, 2, 3>>), Pick(<<0, 2, 4, 4>>), FALSE))
      v == IF e[2] # <<>> THEN Version(T) + 1 ELSE Version(T) + RandomElement(0..1)
  IN [k |-> "pair", t |-> T, u |-> [e[1] EXCEPT ![4] = v, ![5] = IF e[2] = <<>> THEN <<>> ELSE <<<<Version(T), e[2]>>>>], trees |-> TLCEval(Trees(T, 3))]

CaseChain ==
  LET T == TLCEval(Root(FALSE))
      RECURSIVE Go(_, _)
      Go(S, m) == IF m = 0 THEN <<S>> ELSE LET e == TLCEval(Edits(S, Pick(<<1, 1, 2, 3>>), 0, TRUE)) IN <<S>> \o TLCEval(Go(e[1], m - 1))
      ts == TLCEval(Go(T, Pick(<<1, 1, 2, 3>>)))
  IN [k |-> "chain", ts |-> ts, trees |-> Seq1(LAMBDA i : TLCEval(Trees(ts[i], 1)), Len(ts) - 1)]

Case(i) == CASE Mode = "same" -> CaseSame [] Mode = "pair" -> CasePair [] OTHER -> CaseChain

Next == n' = n + 1 /\ PrintT("@" \o ToJson(Case(n)))
=============================================================================
