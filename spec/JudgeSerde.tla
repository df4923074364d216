----------------------------- MODULE JudgeSerde -----------------------------
(* Verdicts on observed loads and dumps. *)
EXTENDS Serde, Json, IOUtils

Agree(e, r, tag) ==
  IF e = Open THEN {}
  ELSE IF IsOk(e) THEN (IF ~IsOk(r) THEN {"rejects-valid" \o tag} ELSE IF Same(e[2], r[2]) THEN {} ELSE {"wrong-value" \o tag})
  ELSE IF IsOk(r) THEN {"accepts-invalid" \o tag} ELSE {}

RECURSIVE CustomIds(_)
CustomIds(rs) == IF rs = <<>> THEN <<>> ELSE (IF rs[1][1] = "custom" THEN <<rs[1][4]>> ELSE <<>>) \o CustomIds(Tail(rs))

\* The rules that loading has to apply to the whole config
RootPending(r) == LET v == IF IsSec(r.tree) THEN Get(SecPairs(r.tree), "version") ELSE Absent
                  IN IF Version(r.t) < 0 \/ v[1] # "int" THEN <<>> ELSE Pending(r.t, v[2])

VerdictLoad(r) ==
  LET e == Load(r.t, r.tree, r.ovs, Env(r.ign, FALSE))
      \* It is left open whether a StateManager takes a missing version for the current one.
      open == r.via = "sm" /\ Load(r.t, r.tree, r.ovs, Env(r.ign, TRUE)) # e
  IN (IF open THEN {} ELSE Agree(e, r.r, ""))
     \union (IF IsOk(r.r) /\ r.applied # CustomIds(RootPending(r)) THEN {"rules-applied"} ELSE {})
     \union (IF r.touched THEN {"file-changed"} ELSE {})

\* The version written down for every versioned section of a dumped tree
RECURSIVE VersionsRecorded(_, _, _)
VersionsRecorded(T, v, n) ==
  CASE T[1] = "opt" -> v = None \/ VersionsRecorded(T[2], v, n)
    [] T[1] = "list" -> \A i \in DOMAIN v[2] : VersionsRecorded(T[2], v[2][i], n[2][i])
    [] T[1] = "tup" -> \A i \in DOMAIN v[2] : VersionsRecorded(T[2][i], v[2][i], n[2][i])
    [] T[1] = "dict" -> \A i \in DOMAIN v[2] : VersionsRecorded(T[2], v[2][i][2], Get(SecPairs(n), v[2][i][1]))
    [] T[1] = "union" -> VersionsRecorded(T[2][CHOOSE i \in DOMAIN T[2] : T[2][i][2] = v[2]], v, n)
    [] T[1] = "st" -> IF ~IsSec(n) THEN Version(T) < 0
                      ELSE /\ Version(T) >= 0 => Get(SecPairs(n), "version") = I(Version(T))
                           /\ \A i \in DOMAIN Fields(T) : LET c == Get(SecPairs(n), Fields(T)[i][1]) IN
                                c = Absent \/ VersionsRecorded(FType(Fields(T)[i]), v[3][i][2], c)
    [] OTHER -> TRUE

\* Every field that is not written has its default value
RECURSIVE ElidedOnlyDefaults(_, _, _)
ElidedOnlyDefaults(T, v, n) ==
  CASE T[1] = "opt" -> v = None \/ ElidedOnlyDefaults(T[2], v, n)
    [] T[1] = "st" -> IF ~IsSec(n) THEN \A i \in DOMAIN Fields(T) : MayElide(T, Fields(T)[i][1], v[3][i][2])
                      ELSE \A i \in DOMAIN Fields(T) : LET c == Get(SecPairs(n), Fields(T)[i][1]) IN
                             IF c = Absent THEN MayElide(T, Fields(T)[i][1], v[3][i][2])
                             ELSE ElidedOnlyDefaults(FType(Fields(T)[i]), v[3][i][2], c)
    [] OTHER -> TRUE

AllWritten(T, n) == IsSec(n) /\ \A i \in DOMAIN Fields(T) : Has(SecPairs(n), Fields(T)[i][1])

VerdictDump(r) ==
  IF ~IsOk(r.d) THEN {"cannot-dump"}
  ELSE (IF r.tree[1] = "unparsed" THEN {"not-ron"} ELSE {})
       \union (IF ~IsOk(r.back) THEN {"dump-does-not-load"} ELSE IF ~Same(r.back[2], r.v) THEN {"round-trip"} ELSE {})
       \union (IF ~r.same THEN {"dump-modifies"} ELSE {})
       \union (IF r.tree[1] \in {"obj", "dict"} THEN
                 (IF ~VersionsRecorded(r.t, r.v, r.tree) THEN {"version-not-recorded"} ELSE {})
                 \union (IF ~ElidedOnlyDefaults(r.t, r.v, r.tree) THEN {"elides-non-default"} ELSE {})
                 \union (IF ~r.elide /\ ~AllWritten(r.t, r.tree) THEN {"field-missing"} ELSE {})
               ELSE {})

Verdict(r) == IF r.k = "dump" THEN VerdictDump(r) ELSE VerdictLoad(r)

VARIABLE l
INSTANCE Judge
=============================================================================
