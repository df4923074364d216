----------------------------- MODULE JudgeSchema -----------------------------
(* Verdicts on what the schema checker said, and on configs of old classes. *)
EXTENDS Evolve, Json, IOUtils

Severities == {"INFO", "WARN", "ERROR"}
Worst(ss) == IF "ERROR" \in ss THEN "ERROR" ELSE IF "WARN" \in ss THEN "WARN" ELSE "INFO"

\* The report says what the objects say
Report(rep) ==
  IF rep.sev \notin Severities THEN (IF rep.report = "compatible" THEN {"report-wrong"} ELSE {})
  ELSE (IF (rep.sev = "INFO") # (rep.report = "compatible") THEN {"report-wrong"} ELSE {})
       \union (IF rep.report # "err" /\ Worst(Range(rep.lines)) # rep.sev THEN {"report-wrong"} ELSE {})
       \union (IF rep.sev # Worst({rep.changes[i][3] : i \in DOMAIN rep.changes}) THEN {"severity-wrong"} ELSE {})

Compatible(rep) == rep.sev = "INFO" \/ rep.report = "compatible"

---------------------------------------------------------------------------
(* C14 *)

VerdictSame(r) ==
  (IF ~IsOk(r.loaded) THEN {"schema-unreadable"} ELSE IF ~Schema(r.t, r.loaded[2]) THEN {"schema-file-wrong"} ELSE {})
  \union (IF ~IsOk(r.derived) THEN {"no-schema"} ELSE IF ~Schema(r.t, r.derived[2]) THEN {"schema-wrong"} ELSE {})
  \union (IF r.rep.sev # "INFO" \/ r.rep.changes # <<>> \/ r.rep.report # "compatible" THEN {"not-clean"} ELSE {})
  \union (IF r.up # "ok" \/ ~r.stable THEN {"upgrade-of-current-schema"} ELSE {})

---------------------------------------------------------------------------
(* C13 *)

Plain0(T) == [T EXCEPT ![5] = <<>>]

\* A value check among the rules of U rejects the tree
Refused(U, tree) == LET up == Upgrade(U, SecPairs(tree), Env(FALSE, FALSE)) IN ~IsOk(up)

\* The values that the rules assume are values of the fields they end up in. No checker looks at them.
RulesFit(U, rs) ==
  \A i \in DOMAIN rs : rs[i][1] \in {"adddef", "chdef"} =>
    LET q == Follow(rs[i][2], SubSeq(rs, i + 1, Len(rs)))
        f == IF q = <<>> THEN <<>> ELSE FindField(U, q[1])
        c == CarryAll(<<[path |-> rs[i][2], t |-> <<>>, v |-> None, node |-> rs[i][3], mapped |-> FALSE]>>, SubSeq(rs, i + 1, Len(rs)))
    IN f = <<>> \/ c = <<>> \/ IsOk(Coerce(FType(f), c[1].node, <<>>, Env(FALSE, FALSE)))

\* A function in the rules makes values that are none of the field, whose type is what it was. No checker calls it on all values.
MapMisfits(T, U, tree) ==
  LET rs == Pending(U, Version(T))  up == Upgrade(U, SecPairs(tree), Env(FALSE, FALSE)) IN
  IsOk(up) /\ \E i \in DOMAIN rs : rs[i][1] = "map" /\
    LET q == Follow(rs[i][2], SubSeq(rs, i + 1, Len(rs)))
        f == IF q = <<>> THEN <<>> ELSE FindField(U, q[1])
        g == FindField(T, rs[i][2]) IN
    /\ f # <<>> /\ g # <<>> /\ FType(f) = FType(g)
    /\ Look(up[2], q[1]) # Absent /\ ~IsOk(Coerce(FType(f), Look(up[2], q[1]), <<>>, Env(FALSE, FALSE)))

\* The value that a rule states for a field which has another default already. No checker looks at it.
RulesRestate(T, rs) ==
  \E i \in DOMAIN rs : rs[i][1] = "adddef" /\ LET f == FindField(T, rs[i][2]) IN
     f # <<>> /\ HasDefault(f) /\ ~PyEq(ToTree(FType(f), Default(f)), rs[i][3])

\* Known finding: a required section gets a default of its own, which configs that left it out now get
RECURSIVE GainedDefault(_, _, _)
GainedDefault(T, U, tree) ==
  \E i \in DOMAIN Fields(T) :
    LET f == Fields(T)[i] IN
    /\ IsStruct(Unopt(FType(f))) /\ HasField(U, f[1])
    /\ LET g == Field(U, f[1])  x == IF IsSec(tree) THEN Get(SecPairs(tree), f[1]) ELSE Absent IN
       /\ IsStruct(Unopt(FType(g)))
       /\ \/ ~HasDefault(f) /\ HasDefault(g) /\ x = Absent /\ ~(IsOk(Omitted(f, Absent)) /\ Same(Omitted(f, Absent)[2], Default(g)))
          \/ GainedDefault(Unopt(FType(f)), Unopt(FType(g)), x)

VerdictPair(r) ==
  Report(r.rep)
  \union UNION {LET old == Load(r.t, r.trees[i], <<>>, Env(FALSE, FALSE))  new == r.news[i] IN
                IF ~IsOk(old) \/ ~Compatible(r.rep) \/ ~RulesFit(r.u, Pending(r.u, Version(r.t)))
                   \/ RulesRestate(r.t, Pending(r.u, Version(r.t))) THEN {}
                ELSE IF ~IsOk(new) THEN (IF Refused(r.u, r.trees[i]) \/ MapMisfits(r.t, r.u, r.trees[i]) THEN {} ELSE {"compatible-but-rejected"})
                ELSE IF Keeps(r.t, old[2], Pending(r.u, Version(r.t)), r.u, new[2]) THEN {}
                ELSE {IF GainedDefault(r.t, r.u, r.trees[i]) THEN "section-gained-default" ELSE "compatible-but-changed"}
                : i \in DOMAIN r.trees}

---------------------------------------------------------------------------
(* C15 *)

RECURSIVE RulesUpTo(_, _)
RulesUpTo(steps, i) == IF i = 0 THEN <<>> ELSE RulesUpTo(steps, i - 1) \o <<<<steps[i].k, steps[i].rules>>>>
\* The class after step i, with all the rules so far
ClassAt(r, i) == [r.classes[i] EXCEPT ![5] = LET all == RulesUpTo(r.steps, i - 1) IN SelectSeq(all, LAMBDA x : x[2] # <<>>)]

\* A value that the new class does not allow any more is refused, as one of the proposed checks says
Disallowed(T, v, rs, U) ==
  LET cs == Claims(T, v, <<>>) IN
  \E i \in DOMAIN cs :
    /\ \E j \in DOMAIN rs : rs[j][1] \in {"check", "reject"} /\ rs[j][2] = cs[i].path
    /\ LET f == FindField(U, cs[i].path) IN f # <<>> /\ ~IsOk(Coerce(FType(f), cs[i].node, <<>>, Env(FALSE, FALSE)))

\* Known finding: the schema of a field that a rule maps to another type stays as it was, so that the
\* type keeps being reported.
MappedPaths(rs) == {rs[j][2] : j \in {j \in DOMAIN rs : rs[j][1] = "map"}}
OnlyMapped(s) == \A j \in DOMAIN s.again.changes : LET c == s.again.changes[j] IN
                   c[3] = "INFO" \/ (c[1] = "TypeChanged" /\ c[2] \in MappedPaths(s.rules))

VerdictStep(r, i) ==
  LET s == r.steps[i]  T == r.classes[i]  U == r.classes[i + 1]  W == ClassAt(r, i + 1) IN
  (IF s.again.sev = "INFO" /\ s.again.report = "compatible" THEN {}
   ELSE IF s.again.sev = "WARN" /\ OnlyMapped(s) THEN {"mapped-type-not-resolved"} ELSE {"not-resolved"})
  \union UNION {UNION {
        LET a == r.loads[i][j][m]  b == r.loads[i + 1][j][m] IN
        IF ~IsOk(a) THEN {}
        ELSE IF ~IsOk(b) THEN (IF Refused(W, r.trees[j][m]) \/ Disallowed(T, a[2], s.rules, U) THEN {} ELSE {"mitigated-but-rejected"})
        ELSE IF KeepsStep(T, a[2], s.rules, U, b[2]) THEN {} ELSE {"mitigated-but-changed"}
        : m \in DOMAIN r.trees[j]} : j \in 1..i}

VerdictChain(r) ==
  UNION {Report(r.steps[i].rep) \union Report(r.steps[i].again)
         \union (IF i + 1 <= Len(r.classes) THEN VerdictStep(r, i) ELSE {}) : i \in DOMAIN r.steps}
  \union (IF \E m \in DOMAIN r.trees[1] : ~IsOk(r.loads[1][1][m]) THEN {"old-config-invalid"} ELSE {})

Verdict(r) == CASE r.k = "same" -> VerdictSame(r) [] r.k = "pair" -> VerdictPair(r) [] OTHER -> VerdictChain(r)

VARIABLE l
INSTANCE Judge
=============================================================================
