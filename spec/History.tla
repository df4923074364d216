------------------------------- MODULE History -------------------------------
(* What may be observed in a history of training runs: total verdicts on    *)
(* each operation, and the model state after it.                            *)
EXTENDS Runs

\* Entries of a directory listing: <<name, digest, content, key>>, key -1 unless it is named like an automatic checkpoint
Names(ls) == {ls[i][1] : i \in DOMAIN ls}
Entry(ls, nm) == ls[CHOOSE i \in DOMAIN ls : ls[i][1] = nm]
AutoKeys(ls) == {ls[i][4] : i \in DOMAIN ls} \ {-1}
AutoEntry(ls, key) == ls[CHOOSE i \in DOMAIN ls : ls[i][4] = key]
Unchanged1(old, new, nm) == nm \in Names(new) /\ Entry(new, nm)[2] = Entry(old, nm)[2]
\* Entries that are not automatic checkpoints with a key in ks
Others(ls, ks) == {ls[i][1] : i \in {j \in DOMAIN ls : ls[j][4] \notin ks}}
Touched(old, new, ks) == {nm \in Others(old, ks) : ~Unchanged1(old, new, nm)}

\* Whether the content of an entry is the checkpoint c, as seen by the class i
Holds(r, i, e, c) == LET cfg == IF c.cls = i /\ ~c.foreign THEN Ok(c.cfg) ELSE As(r, c, i, <<>>, Env(FALSE, FALSE)) IN
                     CASE cfg = Open -> TRUE
                       [] ~IsOk(cfg) -> e[3][1] # "ok"
                       [] OTHER -> e[3][1] = "ok" /\ e[3][4] = c.st /\ Matches(Class(r, i), cfg[2], e[3][2], c.st)

K(ob) == LET k == Get(ob.cfg[2][3], "k") IN IF k[1] = "int" /\ k[2] > -1000 /\ k[2] < 1000 THEN k[2] ELSE 0

If(c, s) == IF c THEN {s} ELSE {}

CfgBad(T, m, ob) == IF ob.cfg[1] # "ok" THEN {"no-config"}
                    ELSE If(~Matches(T, m.cfg, ob.cfg[2], m.at), "config")
StBad(m, ob) == IF ob.st[1] = "unseen" THEN {} ELSE IF ob.st[1] # "ok" THEN {"no-state"} ELSE If(ob.st[2] # m.st, "state")

---------------------------------------------------------------------------
\* Each returns <<new model state, failed clauses>>; prev is the observation before

Start(r, m, op, ob, prev) ==
  LET cfg == StartConfig(r, m, op)
      st == StartState(m, op)
      src == Source(m, op.dir, op.init)
      m2 == [m EXCEPT !.up = TRUE, !.cls = ClsOf(m, op), !.cfg = cfg[2], !.at = st, !.st = st, !.dir = op.dir, !.own = {}, !.loose = FALSE,
                      !.last = IF op.dir /\ m.autos # {} THEN Newest(m.autos).key ELSE -1]
      kept == If(Touched(prev.ls, ob.ls, {}) # {}, "start-modifies")
  IN IF cfg = Open THEN <<[m EXCEPT !.open = TRUE], kept>>
     ELSE IF ~IsOk(cfg) THEN <<[m EXCEPT !.up = FALSE, !.cls = ClsOf(m, op)], kept \union If(ob.r[1] # "err", "start-accepts-invalid")>>
     ELSE IF ob.r[1] # "ok" THEN <<[m EXCEPT !.up = FALSE], kept \union {"start-fails"}>>
     ELSE <<m2, kept \union (LET c == CfgBad(Class(r, m2.cls), m2, ob)  s == StBad(m2, ob) IN
                             {"start-" \o x : x \in c \union s})>>

Ckpt(r, m, st) == [key |-> st[r.ckey], cfg |-> m.cfg, st |-> st, cls |-> m.cls, foreign |-> FALSE]

\* The step has returned with training state st
Returned(r, m, st, ob, prev) ==
  LET key == st[r.ckey]
      m1 == [m EXCEPT !.st = st, !.at = st]
  IN IF ~m.dir THEN <<m1, If(Touched(prev.ls, ob.ls, {}) # {} \/ Names(ob.ls) # Names(prev.ls), "step-modifies")>>
     ELSE LET
       had == key \in AutoKeys(prev.ls)
       c == IF had /\ \E a \in m.autos : a.key = key THEN CHOOSE a \in m.autos : a.key = key ELSE Ckpt(r, m, st)
       mayGo == (IF m.loose THEN m.own \union {m.last} ELSE {m.last} \ {key}) \ {-1}
       gone == {k \in AutoKeys(prev.ls) : k \notin AutoKeys(ob.ls)}
       \* a checkpoint that was there already may be removed when it is superseded, or kept
       m2 == [m1 EXCEPT !.last = key, !.own = (m.own \union (IF had THEN {} ELSE {key})) \ gone,
                        !.autos = {a \in m.autos : a.key \in AutoKeys(ob.ls) /\ a.key # key} \union {c}]
       bad == If(key \notin AutoKeys(ob.ls), "not-persisted")
              \union If(key \in AutoKeys(ob.ls) /\ ~Holds(r, m.cls, AutoEntry(ob.ls, key), c), "wrong-content")
              \union If(had /\ key \in AutoKeys(ob.ls) /\ AutoEntry(ob.ls, key)[2] # AutoEntry(prev.ls, key)[2], "rewritten")
              \union If(~(gone \subseteq mayGo), "deletes-other-checkpoint")
              \union If(Touched(prev.ls, ob.ls, mayGo) # {}, "deletes-or-changes-other-files")
              \union If(~m.loose /\ \E k \in m.own \ {key} : k \in AutoKeys(ob.ls), "superseded-left")
              \union If(\E nm \in Names(ob.ls) \ Names(prev.ls) : Entry(ob.ls, nm)[4] # key, "leaves-files")
              \union If(ob.tmp > prev.tmp, "leaves-temporary-files")
     IN <<m2, bad>>

\* The step with training state st has been interrupted: by a crash or an error
Interrupted(r, m, st, ob, prev, crash) ==
  LET key == st[r.ckey]
      c == Ckpt(r, m, st)
      vis == AutoKeys(ob.ls)
      new == key \in vis /\ key \notin AutoKeys(prev.ls)
      keptKeys == {k \in AutoKeys(prev.ls) : k \in vis /\ AutoEntry(ob.ls, k)[2] = AutoEntry(prev.ls, k)[2]}
      prevNewest == IF m.autos = {} THEN -1 ELSE Newest(m.autos).key
      newestVis == IF vis = {} THEN -1 ELSE CHOOSE k \in vis : \A j \in vis : j <= k
      bad == If(new /\ ~Holds(r, m.cls, AutoEntry(ob.ls, key), c), "partial-visible")
             \union If(~new /\ AutoKeys(prev.ls) # {} /\ (prevNewest \notin keptKeys \/ newestVis # prevNewest), "lost")
             \union If(new /\ newestVis # key /\ prevNewest < key, "lost")
             \union If(vis \ (AutoKeys(prev.ls) \union {key}) # {}, "stray-checkpoint")
             \union If(Touched(prev.ls, ob.ls, ({m.last} \union (IF m.loose THEN m.own ELSE {})) \ {-1}) # {}, "deletes-or-changes-other-files")
             \union If(crash = FALSE /\ ob.r[1] = "ok", "error-swallowed")
      m2 == [m EXCEPT !.st = st, !.loose = TRUE, !.up = ~crash,
                      !.own = m.own \union (IF new THEN {key} ELSE {}),
                      !.autos = {a \in m.autos : a.key \in keptKeys} \union (IF new THEN {c} ELSE {})]
  IN <<m2, bad>>

Step(r, m, op, ob, prev) ==
  LET st == IF op.d > 0 THEN Train(r.sk, m.st, K(prev), op.d) ELSE m.st
      res == Returned(r, m, st, ob, prev)
  IN IF ob.r[1] # "ok" THEN <<[m EXCEPT !.st = st], {"step-fails"}>>
     ELSE <<res[1], res[2] \union CfgBad(Class(r, m.cls), res[1], ob) \union StBad(res[1], ob)>>

Kill(r, m, op, ob, prev) ==
  LET st == Train(r.sk, m.st, K(prev), op.d)
      res == IF ob.r[1] = "completed" THEN Returned(r, m, st, ob, prev) ELSE Interrupted(r, m, st, ob, prev, TRUE)
  IN IF ob.r[1] \notin {"completed", "killed"} /\ op.also = <<>> THEN <<[m EXCEPT !.up = FALSE], {"step-fails"}>>
     ELSE <<[res[1] EXCEPT !.up = FALSE], res[2]>>

\* ob.r: <<"ok" or "err", ..., number of operations, number of faults>>
Fail(r, m, op, ob, prev) ==
  LET st == Train(r.sk, m.st, K(prev), op.d)
      hit == ob.r[Len(ob.r)]
      res == IF ob.r[1] = "ok" THEN Returned(r, m, st, ob, prev) ELSE Interrupted(r, m, st, ob, prev, FALSE)
  IN IF hit = 0
     THEN IF ob.r[1] = "ok" THEN <<res[1], res[2] \union CfgBad(Class(r, m.cls), res[1], ob) \union StBad(res[1], ob)>>
          ELSE <<[m EXCEPT !.st = st], {"step-fails"}>>
     ELSE <<res[1], res[2] \union StBad(res[1], ob)>>

SerFail(r, m, op, ob, prev) ==
  LET st == Train(r.sk, m.st, K(prev), op.d)
      res == Interrupted(r, m, st, ob, prev, FALSE)
  IN IF ~m.dir THEN <<[m EXCEPT !.st = st], {}>> ELSE <<res[1], res[2] \union StBad(res[1], ob)>>

Save(r, m, op, ob, prev) ==
  LET nm == ob.r[Len(ob.r)]  c == Ckpt(r, m, m.st) IN
  IF nm \in Names(prev.ls) THEN <<m, If(Touched(prev.ls, ob.ls, {}) # {}, "save-modifies")>>
  ELSE IF ob.r[1] # "ok" THEN <<m, {"save-fails"}>>
  ELSE IF nm \notin Names(ob.ls) THEN <<m, {"not-saved"}>>
  ELSE <<IF Entry(ob.ls, nm)[4] >= 0   \* saved under the name of an automatic checkpoint, which makes it one
         THEN [m EXCEPT !.autos = @ \union {[c EXCEPT !.key = Entry(ob.ls, nm)[4]]}]
         ELSE [m EXCEPT !.keeps = Append(m.keeps, <<nm, c>>)],
         If(nm \in Names(ob.ls) /\ ~Holds(r, m.cls, Entry(ob.ls, nm), c), "wrong-content")
         \union If(Touched(prev.ls, ob.ls, {}) # {}, "save-modifies")
         \union If(Names(ob.ls) \ Names(prev.ls) # {nm}, "leaves-files") \union If(ob.tmp > prev.tmp, "leaves-temporary-files")>>

One(r, m, op, ob, prev) ==
  IF ob.r[1] = "skipped" THEN <<m, {}>>
  ELSE CASE op.op = "start" -> Start(r, m, op, ob, prev)
    [] op.op = "stop" -> <<[m EXCEPT !.up = FALSE], {}>>
    [] op.op = "litter" -> <<m, {}>>
    \* every checkpoint gets fields that the classes do not know
    [] op.op = "foreign" -> <<[m EXCEPT !.autos = {[c EXCEPT !.foreign = TRUE] : c \in m.autos},
                                        !.keeps = [i \in DOMAIN m.keeps |-> <<m.keeps[i][1], [m.keeps[i][2] EXCEPT !.foreign = TRUE]>>]], {}>>
    [] op.op = "edit" -> <<[m EXCEPT !.file = op.file], {}>>
    [] op.op = "save" -> Save(r, m, op, ob, prev)
    [] op.op = "train" -> <<[m EXCEPT !.st = Train(r.sk, m.st, K(prev), op.d)], {}>>
    [] op.op = "step" -> Step(r, m, op, ob, prev)
    [] op.op = "kill" -> Kill(r, m, op, ob, prev)
    [] op.op \in {"fail", "full"} -> Fail(r, m, op, ob, prev)
    [] op.op = "serfail" -> SerFail(r, m, op, ob, prev)

Nothing == [r |-> <<"ok">>, cfg |-> <<"down">>, st |-> <<"down">>, ls |-> <<>>, tmp |-> 0]

RECURSIVE Walk(_, _, _)
Walk(r, m, i) ==
  IF i > Len(r.ops) THEN {}
  ELSE LET prev == IF i = 1 THEN Nothing ELSE r.obs[i - 1]
           res == One(r, m, r.ops[i], r.obs[i], prev)
       IN IF res[2] = {} /\ res[1].open THEN {}                            \* nor when the specification leaves the config open
          ELSE IF res[2] # {} THEN {r.ops[i].op \o ":" \o x : x \in res[2]}      \* what follows is not judged
          ELSE Walk(r, res[1], i + 1)

Verdict(r) == Walk(r, [Down EXCEPT !.file = r.file], 1)
=============================================================================
