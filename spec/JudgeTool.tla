------------------------------ MODULE JudgeTool ------------------------------
(* Verdicts on observed uses of the schema evolution tool.                  *)
EXTENDS Tool, Json, IOUtils

\* A file as observed: <<name, digest, <<what it loads to, at each of Keys>>, raw tree>>
Key == <<0, 1, 3, 8, 20, 60, 1000>>
At1(i) == [step |-> Key[i], tok |-> 3 * Key[i]]
FNames(o) == {o.files[i][1] : i \in DOMAIN o.files}
File(o, nm) == o.files[CHOOSE i \in DOMAIN o.files : o.files[i][1] = nm]
Loads(o, nm) == File(o, nm)[3]
SameFile(a, b, nm) == nm \in FNames(a) /\ nm \in FNames(b) /\ File(a, nm)[2] = File(b, nm)[2]
Loaded(ls) == \A i \in DOMAIN ls : IsOk(ls[i])

If(c, s) == IF c THEN {s} ELSE {}

\* Files other than those in S: unchanged, and none came or went
Rest(prev, ob, S) == If(FNames(prev) # FNames(ob) \/ \E nm \in FNames(prev) \ S : ~SameFile(prev, ob, nm), "other-file-changed")
Schema0(prev, ob) == If(prev.schema.digest # ob.schema.digest, "schema-file-changed")

\* The file nm has been upgraded from what it was
UpgradedWell(T, files, prev, ob, nm) ==
  LET c == Contents(T, Get(files, nm))  before == Loads(prev, nm)  after == Loads(ob, nm) IN
  If(~Loaded(after), "upgraded-file-broken")
  \union (IF ~Loaded(after) THEN {}
          ELSE If(Loaded(before) /\ before # after, "upgrade-changes-config")
               \union If(IsOk(c) /\ \E i \in DOMAIN after : ~Matches(T, c[2], after[i][2], At1(i)), "upgrade-changes-config")
               \union If(~Current(T, File(ob, nm)[4]), "not-up-to-date"))

\* Whether the class loads the schema
Is(T, sch) == IsOk(sch.type) /\ Schema([T EXCEPT ![5] = <<>>], sch.type[2])

UpgradeFiles(r, m, op, ob, prev) ==
  LET T == r.t
      done == Prefix(T, m.files, op.files)
      whole == done = op.files
      ok == ob.r[1] = "ok"
      faulty == op.fault # <<>> /\ ob.hits > 0
      listed == Range(op.files) \cap FNames(prev)
  IN IF op.dry THEN <<m, Rest(prev, ob, {}) \union Schema0(prev, ob) \union If(~faulty /\ ~Undecided(T, m.files, op.files) /\ ok # whole, "status")>>
     ELSE IF faulty /\ ~ok
     THEN LET \* a failed upgrade leaves a file as it was, or upgraded
              changed == {nm \in listed : ~SameFile(prev, ob, nm)}
          IN <<[m EXCEPT !.files = Upgraded(T, @, SelectSeq(done, LAMBDA nm : nm \in changed), op.inc)],
               UNION {UpgradedWell(T, m.files, prev, ob, nm) : nm \in {x \in changed : x \in FNames(ob)}}
               \union If(~(FNames(prev) \subseteq FNames(ob)) \/ \E nm \in FNames(prev) \ listed : ~SameFile(prev, ob, nm), "other-file-changed")
               \union Schema0(prev, ob)>>
     ELSE IF Undecided(T, m.files, op.files)
     THEN <<[m EXCEPT !.open = TRUE], Rest(prev, ob, listed) \union Schema0(prev, ob)
            \union UNION {If(~SameFile(prev, ob, nm), "changed-by-failure") : nm \in {x \in listed : ~Loaded(Loads(prev, x))}}
            \union UNION {UpgradedWell(T, m.files, prev, ob, nm) : nm \in {x \in listed : ~SameFile(prev, ob, x)}}>>
     ELSE <<[m EXCEPT !.files = Upgraded(T, @, done, op.inc)],
            If(ok # whole, "status")
            \union UNION {UpgradedWell(T, m.files, prev, ob, nm) : nm \in Range(done)}
            \union Rest(prev, ob, Range(done)) \union Schema0(prev, ob)
            \union If(\E nm \in Range(done) : LET c == Get(m.files, nm) IN c[1] = "value" /\ c[3] = op.inc /\ ~SameFile(prev, ob, nm), "not-idempotent")
            \union If(whole /\ ob.again # "same", "not-idempotent")>>

Check(r, m, ob, prev) ==
  <<m, Rest(prev, ob, {}) \union Schema0(prev, ob)
       \union If(prev.schema.sev \in {"INFO", "WARN", "ERROR"} /\ (ob.r[1] # "ok" \/ ~ob.said), "no-report")
       \union If(m.schema[1] # "type" /\ ob.r[1] = "ok", "accepts-broken-schema")>>

UpSchema(r, m, op, ob, prev) ==
  LET faulty == op.fault # <<>> /\ ob.hits > 0
      compat == prev.schema.sev = "INFO"
      changed == prev.schema.digest # ob.schema.digest IN
  <<IF changed THEN [m EXCEPT !.schema = <<"type", r.t>>] ELSE m,
    Rest(prev, [ob EXCEPT !.files = IF faulty THEN SelectSeq(ob.files, LAMBDA f : f[1] \in FNames(prev)) ELSE @], {})
    \union If(changed /\ ~compat, "incompatible-schema-overwritten")
    \union If(changed /\ ~Is(r.t, ob.schema), "schema-file-broken")
    \union If(~faulty /\ compat /\ (ob.r[1] # "ok" \/ ~Is(r.t, ob.schema)), "schema-not-updated")
    \union If(~faulty /\ prev.schema.sev \in {"WARN", "ERROR"} /\ ~ob.said, "no-report")
    \union If(m.schema[1] # "type" /\ ob.r[1] = "ok", "accepts-broken-schema")>>

Dump(r, m, op, ob, prev) ==
  LET faulty == op.fault # <<>> /\ ob.hits > 0
      changed == prev.schema.digest # ob.schema.digest IN
  <<IF changed THEN [m EXCEPT !.schema = <<"type", r.t>>] ELSE m,
    Rest(prev, [ob EXCEPT !.files = IF faulty THEN SelectSeq(ob.files, LAMBDA f : f[1] \in FNames(prev)) ELSE @], {})
    \union If(changed /\ ~Is(r.t, ob.schema), "schema-file-broken")
    \union If(~faulty /\ (ob.r[1] # "ok" \/ ~Is(r.t, ob.schema)), "schema-not-written")>>

One(r, m, op, ob, prev) ==
  CASE op.op = "upgrade" -> UpgradeFiles(r, m, op, ob, prev)
    [] op.op = "check" -> Check(r, m, ob, prev)
    [] op.op = "upschema" -> UpSchema(r, m, op, ob, prev)
    [] op.op = "dump" -> Dump(r, m, op, ob, prev)
    [] op.op = "edit" -> <<[m EXCEPT !.files = Put(@, op.file, op.content)], {}>>
    [] OTHER -> <<[m EXCEPT !.schema = op.schema], {}>>

RECURSIVE Walk(_, _, _)
Walk(r, m, i) ==
  IF i > Len(r.ops) THEN {}
  ELSE LET res == One(r, m, r.ops[i], r.obs[i + 1], r.obs[i]) IN
       IF res[2] # {} THEN {r.ops[i].op \o ":" \o x : x \in res[2]}
       ELSE IF res[1].open THEN {}
       ELSE Walk(r, res[1], i + 1)
Verdict(r) == Walk(r, [files |-> r.files, schema |-> r.schema, open |-> FALSE], 1)

VARIABLE l
INSTANCE Judge
=============================================================================
