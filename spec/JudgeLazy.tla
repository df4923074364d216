----------------------------- MODULE JudgeLazy -----------------------------
(* Verdicts on observed histories of states with stored objects.            *)
EXTENDS Lazy, Json, IOUtils

If(c, s) == IF c THEN {s} ELSE {}

Content(x) == IF Len(x) = 0 THEN <<>> ELSE <<<<x[1], x[3]>>>>
IsMade(ob, i) == \E k \in DOMAIN ob.made : ob.made[k][1] = i
MadeOf(sl, m, ob) == [i \in Slots(sl) |-> IF IsMade(ob, i) THEN Content(ob.made[CHOOSE k \in DOMAIN ob.made : ob.made[k][1] = i][2]) ELSE m.val[i]]

\* Events: <<identity, identity of the dependency, context, config as given, state as given>>
EvIds(ob) == {ob.ev[i][1] : i \in DOMAIN ob.ev}
\* Slots of vals with the given identities
IdsOf(val, S) == {val[i][1][1] : i \in S}
Known(val) == {i \in DOMAIN val : val[i] # <<>>}

EvBad(sl, val, out, ob) ==
  UNION {LET e == ob.ev[k]
             i == CHOOSE j \in Known(val) : val[j][1][1] = e[1]
             d == sl[i].dep
         IN If({e[3][x] : x \in DOMAIN e[3]} # out[1].ctx, "context")
            \union If(~e[4], "other-config") \union If(~e[5], "other-state")
            \union If(d # 0 /\ e[2] # (IF val[d] = <<>> THEN "" ELSE val[d][1][1]), "dependency")
         : k \in DOMAIN ob.ev}

GotBad(out, ob) ==
  UNION {LET g == ob.got[k] IN
         IF g[1] = 0 THEN If(g[2] # <<TRUE, TRUE>>, "other-fields")
         ELSE IF Len(g[2]) = 1 THEN {"identity"}
         ELSE IF (Len(g[2]) = 0) # (out[1].val[g[1]] = <<>>) THEN {"wrong-object"}
         ELSE IF Len(g[2]) = 0 THEN {}
         ELSE If(g[2][1] # out[1].val[g[1]][1][1], "wrong-object") \union If(g[2][3] # out[1].val[g[1]][1][2], "content")
         : k \in DOMAIN ob.got}

\* Pickles are loaded when their slots are read, at no other time
TrapBad(m, val, out, ob) ==
  If(~m.env /\ ob.trap # <<>>, "unpickles")
  \union If(out[2] /\ out[3] # {} /\ {ob.trap[i] : i \in DOMAIN ob.trap} # IdsOf(val, {i \in out[3] : IsPickle(GetD(m.dirs, out[1].src).leg[i])}), "pickles-read")
  \union If(out[2] /\ out[3] = {} /\ ob.trap # <<>>, "pickles-read")

\* Returns <<model, failed clauses>>
One(sl, m, op, ob) ==
  IF ob.r[1] = "skipped" THEN <<m, {}>>
  ELSE LET made == MadeOf(sl, m, ob)
           o1 == IF op.op = "start" THEN Origin(m, op) ELSE ""
           val == IF o1 # "" THEN GetD(m.dirs, o1).val ELSE m.val    \* what there is to read
           seen == {i \in Known(val) : val[i][1][1] \in EvIds(ob)}
           outs == Do(sl, m, op, made, {seen})
           fit == {o \in outs : o[2] = (ob.r[1] = "ok") /\ o[3] = seen}
       IN IF IdsOf(val, seen) # EvIds(ob) THEN <<m, {"reads-other"}>>
          ELSE IF fit = {} THEN <<m, IF \E o \in outs : o[2] = (ob.r[1] = "ok") THEN {"reads"}
                                     ELSE {IF ob.r[1] = "ok" THEN "succeeds" ELSE "fails"}
                                          \union If(~m.env /\ ob.trap # <<>>, "unpickles")>>
          ELSE LET o == CHOOSE x \in fit : TRUE IN
               <<o[1], If(Len(ob.ev) # Cardinality(EvIds(ob)), "read-twice") \union EvBad(sl, val, o, ob) \union GotBad(o, ob) \union TrapBad(m, val, o, ob)>>

RECURSIVE Walk(_, _, _, _)
Walk(r, sl, m, i) ==
  IF i > Len(r.ops) THEN {}
  ELSE LET res == One(sl, m, r.ops[i], r.obs[i]) IN
       IF res[2] # {} THEN {r.ops[i].op \o ":" \o x : x \in res[2]} ELSE Walk(r, sl, res[1], i + 1)

\* Slots as the specification sees them
SlotsOf(r) == [i \in DOMAIN r.slots |-> [top |-> r.slots[i].at[1] \in {"top", "opt"},
                                         dep |-> IF r.slots[i].dep = "" THEN 0
                                                 ELSE CHOOSE j \in DOMAIN r.slots : r.slots[j].at[1] \in {"top", "opt"} /\ r.slots[j].at[2] = r.slots[i].dep]]

Verdict(r) == LET sl == SlotsOf(r) IN Walk(r, sl, Down0(sl, r.lazy), 1)

VARIABLE l
INSTANCE Judge
=============================================================================
