"""Shared plumbing: run TLC, run drivers against /repo, judge, write evidence."""
import atexit, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = VERIF / "spec"
PYPY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


_scratch = None


def scratch() -> Path:
    """A private scratch directory, removed at exit. Everything a check writes goes here."""
    global _scratch
    if _scratch is None:
        _scratch = Path(tempfile.mkdtemp(prefix="hsverif-"))
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_n = [0]


def fresh(name):
    _n[0] += 1
    p = scratch() / f"{_n[0]:03d}-{name}"
    p.mkdir()
    return p


class TLCResult:
    def __init__(self, out, rc, states, distinct, printed, traces):
        self.out, self.rc = out, rc
        self.states, self.distinct, self.printed, self.traces = states, distinct, printed, traces


def _cfgval(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"' if not v.startswith("=") else v[1:]
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(_cfgval(x) for x in v)) + "}"
    raise TypeError(v)


def tlc(module, *, init="Init", next="Next", spec=None, constants=None, invariants=(), properties=(),
        postcondition=None, constraint=None, view=None, simulate=None, depth=None, seed=None, workers=1, env=None,
        timeout=600, heap="2g", deque=False, ok_codes=(0,), deadlock=False, action_constraint=None, name=None):
    """Run TLC on spec/<module>.tla with a generated configuration."""
    d = fresh(name or module)
    cfg = []
    if spec:
        cfg.append(f"SPECIFICATION {spec}")
    else:
        cfg += [f"INIT {init}", f"NEXT {next}"]
    if constants:
        cfg.append("CONSTANTS")
        for k, v in constants.items():
            cfg.append(f"  {k} = {_cfgval(v)}")
    for i in invariants:
        cfg.append(f"INVARIANT {i}")
    for i in properties:
        cfg.append(f"PROPERTY {i}")
    if postcondition:
        cfg.append(f"POSTCONDITION {postcondition}")
    if constraint:
        cfg.append(f"CONSTRAINT {constraint}")
    if action_constraint:
        cfg.append(f"ACTION_CONSTRAINT {action_constraint}")
    if view:
        cfg.append(f"VIEW {view}")
    cfg.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
    (d / f"{module}.cfg").write_text("\n".join(cfg) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss512m", f"-DTLA-Library={SPEC}"]
    if deque:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", str(d / "meta"), "-workers", str(workers),
            "-config", str(d / f"{module}.cfg")]
    if simulate is not None:
        cmd += ["-simulate", f"num={simulate}"]
    if depth is not None:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd.append(str(SPEC / f"{module}.tla"))
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    out_path = d / "out.txt"
    with open(out_path, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
    out = out_path.read_text(errors="replace")
    printed = []
    for line in out.splitlines():
        if line.startswith('"@'):
            printed.append(json.loads(line)[1:])
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        states, distinct = (int(x.replace(",", "")) for x in m.groups())
    else:
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        states = distinct = int(m.group(1).replace(",", "")) if m else 0
    m = re.search(r"(\d+) traces generated", out)
    traces = int(m.group(1)) if m else 0
    shutil.rmtree(d / "meta", ignore_errors=True)
    if ok_codes is not None and p.returncode not in ok_codes:
        noise = ("Parsing", "Semantic", "Linting", '"@', "Attempted to apply the operator", "public static", "but it produced", "State ", "n = ")
        text = "\n".join(l for l in out.splitlines() if l.strip() and not l.startswith(noise))
        raise MachineryError(f"TLC failed on {module} (exit {p.returncode}):\n{text[:int(os.environ.get("VERIF_ERR", 5000))]}")
    return TLCResult(out, p.returncode, states, distinct, printed, traces)


def parallel(jobs, workers=8):
    """Run zero-argument callables concurrently, results in order."""
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


def driver(script, cases, *, args=(), timeout=600, env=None, shards=1, wrapper=()):
    """Run drivers/<script> under PyPy on the cases (list of JSON values); returns the observations in order."""
    def run(chunk, i):
        d = fresh(f"drv-{script}")
        (d / "in.ndjson").write_text("".join(json.dumps(c) + "\n" for c in chunk))
        (d / "work").mkdir()
        (d / "tmp").mkdir()
        e = dict(os.environ)
        e.pop("UNSAFE_DESERIALIZE_PICKLE", None)
        e.update(PYTHONPYCACHEPREFIX=str(scratch() / "pyc"), PYTHONPATH=f"{REPO}:{VERIF / 'drivers'}", TMPDIR=str(d / "tmp"),
                 PYTHONHASHSEED="0", NO_COLOR="1", HSV_WORK=str(d / "work"), LC_ALL="C.UTF-8", COLUMNS="200")
        e.update({k: str(v) for k, v in (env or {}).items()})
        err = open(d / "err.txt", "wb")
        outf = open(d / "out.txt", "wb")
        try:
            p = subprocess.run([*wrapper, PYPY, str(VERIF / "drivers" / script), str(d / "in.ndjson"), str(d / "obs.ndjson"), *map(str, args)],
                               cwd=d / "work", env=e, stdout=outf, stderr=err, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"driver {script} timed out")
        finally:
            err.close(); outf.close()
        if p.returncode != 0:
            raise MachineryError(f"driver {script} failed (exit {p.returncode}):\n" + (d / "err.txt").read_text(errors="replace")[-3000:])
        obs = [json.loads(l) for l in (d / "obs.ndjson").read_text().splitlines()]
        shutil.rmtree(d, ignore_errors=True)
        return obs
    if not cases:
        return []
    shards = max(1, min(len(cases), max(shards, -(-len(cases) // 300))))
    size = -(-len(cases) // shards)
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
    (scratch() / "pyc").mkdir(exist_ok=True)
    return [o for r in parallel([lambda c=c, i=i: run(c, i) for i, c in enumerate(chunks)]) for o in r]


def judge(module, records, *, shards=4, timeout=600, constants=None, heap="3g", env=None):
    """Let TLC evaluate Verdict(r) for every record. Returns ({index: [failed clause, ...]}, [TLCResult]).

    The judging module extends Judge: state variable l walks over the records, a line is
    printed for every record with a non-empty verdict, and the postcondition states that
    every record has been judged.
    """
    if not records:
        return {}, []
    shards = max(1, min(shards, -(-len(records) // 40)))
    size = -(-len(records) // shards)

    def run(k):
        chunk = records[k * size:(k + 1) * size]
        if not chunk:
            return {}, None
        d = fresh("rec")
        f = d / "records.ndjson"
        f.write_text("".join(json.dumps(r) + "\n" for r in chunk))
        r = tlc(module, init="JInit", next="JNext", postcondition="JDone", env={"RECORDS": str(f), **(env or {})}, constants=constants,
                timeout=timeout, heap=heap, name=f"judge-{module}")
        bad = {}
        seen = 0
        for line in r.printed:
            o = json.loads(line)
            if "judged" in o:
                seen = o["judged"]
            else:
                bad[k * size + o["l"] - 1] = o["bad"]
        if r.distinct != len(chunk) + 1:
            raise MachineryError(f"{module}: judged {r.distinct - 1} of {len(chunk)} records")
        shutil.rmtree(d, ignore_errors=True)
        return bad, r
    res = parallel([lambda k=k: run(k) for k in range(shards)])
    bad = {}
    for b, _ in res:
        bad.update(b)
    return bad, [r for _, r in res if r]


def chunk(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def dedupe(cases):
    seen, out = set(), []
    for c in cases:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


class Check:
    """Accumulates what a check explored and reports at the end."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known = {}
        self.assumptions = []
        self.findings = []
        kf = VERIF / "known_findings.jsonl"
        if kf.exists():
            for l in kf.read_text().splitlines():
                l = l.strip()
                if l.startswith("{"):
                    f = json.loads(l)
                    if f.get("property") == pid and f.get("kind") == "known":
                        self.findings.append(f)

    def model(self, r):
        self.states += r.distinct
        self.transitions += r.states
        return r

    def models(self, rs):
        for r in rs:
            self.model(r)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def validated(self, n):
        self.traces += n

    def sample(self, x):
        if len(self.samples) < 4:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 4000 else s[:4000])

    def violation(self, clause, detail):
        for f in self.findings:
            if "match" in f and clause in f["clauses"] and matches(f["match"], detail):
                self.known.setdefault(f["id"], f)
                self.count("known_finding_hits")
                return
        self.violations.append((clause, detail))

    def replay(self, script, module, cases, *, summary, keep=None, env=None, constants=None, shards=8, outcome=None, timeout=900):
        """Runs the cases against the code and lets TLC judge what it did. keep(clause, obs): whether the clause is about this property."""
        obs = driver(script, cases, shards=shards, env=env, timeout=timeout)
        good = [o for o in obs if "broken" not in o]
        for o in obs:
            if "broken" in o:
                self.violation("interface", {"broken": o["broken"], "case": summary(o)})
        bad, rs = judge(module, good, shards=shards, constants=constants, timeout=timeout)
        self.models(rs)
        self.validated(len(good))
        if outcome:
            for o in good:
                for x in outcome(o):
                    self.count("outcome_" + x)
        for o in good[:3]:
            self.sample(summary(o))
        for i, clauses in sorted(bad.items()):
            for cl in clauses:
                if keep is None or keep(cl, good[i]):
                    self.violation(cl, summary(good[i]))
                else:
                    self.count("deviations_of_other_properties")
        return obs

    def replay_findings(self, script, module, summary):
        """The recorded histories of the known findings: each fails as recorded, or not at all."""
        fs = [f for f in self.findings if f.get("case")]
        if not fs:
            return
        obs = driver(script, [f["case"] for f in fs], shards=1)
        bad, _ = judge(module, [o for o in obs if "broken" not in o], shards=1)
        if any("broken" in o for o in obs):
            raise MachineryError("a known finding cannot be replayed: " + str([o["broken"][-400:] for o in obs if "broken" in o][:1]))
        for i, f in enumerate(fs):
            for cl in bad.get(i, []):
                if cl in f["clauses"]:
                    self.known_hit(f["id"])
                    self.count("known_finding_hits")
                else:
                    self.violations.append((cl, summary(obs[i])))

    def known_hit(self, fid):
        for f in self.findings:
            if f["id"] == fid:
                self.known.setdefault(fid, f)

    def finish(self):
        ev = VERIF / "evidence"
        ev.mkdir(exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"], **self.extra}
        out = {"property": self.pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        (ev / f"{self.pid}.json").write_text(json.dumps(out, indent=1) + "\n")
        for f in self.known.values():
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        if self.violations:
            rp = ev / f"{self.pid}.replay.json"
            rp.write_text(json.dumps([{"clause": c, "detail": d} for c, d in self.violations[:50]], indent=1) + "\n")
            by = {}
            for c, d in self.violations:
                by[c] = by.get(c, 0) + 1
            for c, n in sorted(by.items()):
                print(f"  failed clause {c}: {n} case(s)")
            first = json.dumps(self.violations[0][1])
            print("  first: " + first[:1500])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} tier={TIER} states={self.states} transitions={self.transitions} "
              f"validated={self.traces} wall={out['wall_s']}s")
        return 0


def matches(pattern, detail):
    """pattern: {dotted path or 'text': value or regex} all of which must hold for detail."""
    text = json.dumps(detail)
    for k, v in pattern.items():
        if k == "regex":
            if not re.search(v, text):
                return False
        else:
            cur = detail
            for s in k.split("."):
                cur = cur.get(s) if isinstance(cur, dict) else None
            if cur != v:
                return False
    return True
