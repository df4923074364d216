----------------------------- MODULE JudgeHelp -----------------------------
(* Verdicts on observed help. Observed lines are                            *)
(*   path    names, words   words of the type, lits   literals in the type, *)
(*   default <<>> or <<value>>, doc   text                                  *)
EXTENDS Help, Json, IOUtils

If(c, s) == IF c THEN {s} ELSE {}

RECURSIVE Within(_, _)
Within(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                ELSE IF Head(a) = Head(b) THEN Within(Tail(a), Tail(b)) ELSE Within(a, Tail(b))

\* Enums may be shown by their value
EnumValue(T, v) == T[3][CHOOSE i \in DOMAIN T[3] : T[3][i][1] = v[3]][2]
DefaultOk(T, v, ob) ==
  \/ Same(v, ob)
  \/ v[1] = "enum" /\ Holds(T)[1] = "enum" /\ EnumValue(Holds(T), v) = ob

LineBad(e, ob) ==
  If(~Within(Words(e.t), ob.words) \/ \E x \in Literals(e.t) : \A i \in DOMAIN ob.lits : ob.lits[i] # x, "type")
  \union If((e.default = <<>>) # (ob.default = <<>>), "default")
  \union If(e.default # <<>> /\ ob.default # <<>> /\ ~DefaultOk(e.t, e.default[1], ob.default[1]), "default")
  \union If(e.doc # ob.doc, "doc")

ListBad(es, obs) ==
  IF [i \in DOMAIN es |-> es[i].path] # [i \in DOMAIN obs |-> obs[i].path] THEN {"fields"}
  ELSE UNION {LineBad(es[i], obs[i]) : i \in DOMAIN es}

QueryBad(es, q) ==
  UNION {IF \A j \in DOMAIN q[2] : q[2][j].path # es[i].path THEN {"not-found"}
         ELSE LineBad(es[i], q[2][CHOOSE j \in DOMAIN q[2] : q[2][j].path = es[i].path]) :
           i \in {k \in DOMAIN es : Last1(es[k].path) = q[1]}}

Verdict(r) ==
  LET es == Listing(r.t, <<>>, r.docs) IN
  IF r.r[1] # "ok" THEN {"help-fails"}
  ELSE {"list-" \o x : x \in ListBad(es, r.all)} \union UNION {{"query-" \o x : x \in QueryBad(es, r.qs[i])} : i \in DOMAIN r.qs}
       \union If({r.qs[i][1] : i \in DOMAIN r.qs} # FieldNames(r.t), "not-asked")

VARIABLE l
INSTANCE Judge
=============================================================================
