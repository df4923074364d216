"""Systematic mutation of /repo: which small changes do the checks not notice?
  mutate.py record             the cases of all checks -> /tmp/mut/cases.json
  mutate.py run FILE... [-j N] mutate the files; survivors -> /tmp/mut/result.jsonl
Works on copies under /tmp/mut. A smaller sample of each check's cases is replayed, so survivors have to be confirmed with the check itself."""
import ast, concurrent.futures, json, os, random, shutil, subprocess, sys, time
from pathlib import Path
V = Path(__file__).resolve().parent.parent
M = Path("/tmp/mut")
K = int(os.environ.get("MUT_CASES", "400"))
JUDGES = {"serde_drv.py": "JudgeSerde", "schema_drv.py": "JudgeSchema", "run_drv.py": "JudgeRun", "lazy_drv.py": "JudgeLazy",
          "tool_drv.py": "JudgeTool", "cmd_drv.py": "JudgeCommand", "help_drv.py": "JudgeHelp"}


def record():
    sys.path.insert(0, str(V / "harness"))
    sys.argv = ["check.py", "none"]
    import lib
    src = (V / "harness" / "check.py").read_text().split("def main")[0]
    ns = {"__file__": str(V / "harness" / "check.py")}
    exec(src, ns)
    got = {}
    for pid, f in ns["CHECKS"].items():
        c = lib.Check(pid)
        c.replay = lambda drv, judge, cases, **kw: got.setdefault(drv, []).append((pid, [x for x in cases]))
        c.replay_findings = lambda *a, **k: None
        f(c)
        print(pid, {d: sum(len(cs) for p, cs in v if p == pid) for d, v in got.items()}, flush=True)
    out = {}
    rng = random.Random(7)
    for d, v in got.items():
        pool = []
        for pid, cs in v:
            cs = [x for x in cs]
            rng.shuffle(cs)
            pool += cs[:max(K // len(v), 120)]
        out[d] = pool
        print(d, len(pool))
    (M / "cases.json").write_text(json.dumps(out))


def segs(src):
    """Replacements (start, end, text, description) by character offsets."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l))

    def pos(ln, col):
        return offs[ln - 1] + len(lines[ln - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    out = []
    ann = set()
    for n in ast.walk(tree):
        for a in ("annotation", "returns"):
            x = getattr(n, a, None)
            if x is not None:
                ann |= {id(y) for y in ast.walk(x)}
    for n in ast.walk(tree):
        if id(n) in ann or not hasattr(n, "lineno"):
            continue
        s, e = span(n)
        t = src[s:e]
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = span(n.left), span(n.comparators[0])
            out.append((l[1], r[0], f" {CMP[type(n.ops[0])]} ", "compare"))
        if isinstance(n, ast.BoolOp):
            for a, b in zip(n.values, n.values[1:]):
                out.append((span(a)[1], span(b)[0], None, "boolop") if False else (s, e, f"({src[span(n.values[0])[0]:span(n.values[0])[1]]})", "boolop-first"))
                break
            out.append((s, e, f"({src[span(n.values[-1])[0]:span(n.values[-1])[1]]})", "boolop-last"))
            if len(n.values) > 2:
                rest = [src[slice(*span(v))] for v in n.values]
                op = " and " if isinstance(n.op, ast.And) else " or "
                for i in range(1, len(rest) - 1):
                    out.append((s, e, "(" + op.join(f"({x})" for j, x in enumerate(rest) if j != i) + ")", "boolop-drop"))
            op = " or " if isinstance(n.op, ast.And) else " and "
            out.append((s, e, "(" + op.join(f"({src[slice(*span(v))]})" for v in n.values) + ")", "boolop-swap"))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((s, e, f"({src[slice(*span(n.operand))]})", "not"))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = span(n.test)
            out.append((a, b, "True", "if-true"))
            out.append((a, b, "False", "if-false"))
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not ...:
            if isinstance(n.value, bool):
                out.append((s, e, str(not n.value), "bool"))
            elif isinstance(n.value, (int, float)):
                out.append((s, e, str(n.value + 1), "num+1"))
                if n.value:
                    out.append((s, e, "0", "num0"))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) and n.col_offset > 0:
            out.append((s, e, "pass", "drop-stmt"))
        if isinstance(n, ast.Continue):
            out.append((s, e, "pass", "continue"))
        if isinstance(n, ast.Break):
            out.append((s, e, "pass", "break"))
        if isinstance(n, ast.Raise):
            out.append((s, e, "pass", "raise"))
        if isinstance(n, ast.Return) and n.value is not None:
            out.append((s, e, "return None", "return"))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            a, b = span(n.left), span(n.right)
            out.append((s, e, src[slice(*a)], "binop-left"))
            out.append((s, e, src[slice(*b)], "binop-right"))
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = span(k.value)
                    a = src.rfind(k.arg, s, a)
                    b2 = b
                    while b2 < e and src[b2] in " \n":
                        b2 += 1
                    if src[b2] == ",":
                        b2 += 1
                    out.append((a, b2, "", "drop-kwarg"))
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id not in ("len", "isinstance", "print"):
                out.append((s, e, f"({src[slice(*span(n.args[0]))]})", "unwrap-call"))
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                out.append((s, e, src[slice(*span(n.func.value))], "drop-method"))
        if isinstance(n, ast.comprehension):
            pass
        if isinstance(n, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
            for g in n.generators:
                for c in g.ifs:
                    out.append((*span(c), "True", "comp-if"))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            out.append((s, e, src[slice(*span(n.value))], "slice"))
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            a, b = span(n.type)
            out.append((a, b, "ZeroDivisionError", "except"))
    seen, res = set(), []
    for x in out:
        if x[:3] not in seen and src[x[0]:x[1]] != x[2]:
            seen.add(x[:3])
            new = src[:x[0]] + x[2] + src[x[1]:]
            try:
                compile(new, "m", "exec")
            except SyntaxError:
                continue
            res.append((src.count("\n", 0, x[0]) + 1, x[3], src[x[0]:x[1]][:60], x[2][:60], new))
    return res


ORDER = {"schedule.py": ["run_drv.py", "tool_drv.py", "serde_drv.py"], "hyperstate.py": ["serde_drv.py", "run_drv.py", "cmd_drv.py", "tool_drv.py"], "serde.py": ["serde_drv.py", "lazy_drv.py", "run_drv.py"],
         "lazy.py": ["lazy_drv.py", "run_drv.py"], "msgpack_torch.py": ["lazy_drv.py"], "command.py": ["cmd_drv.py"], "help.py": ["help_drv.py", "cmd_drv.py"],
         "schema_checker.py": ["schema_drv.py", "tool_drv.py"], "schema_change.py": ["schema_drv.py", "tool_drv.py"], "rewrite_rule.py": ["serde_drv.py", "schema_drv.py", "tool_drv.py"],
         "types.py": ["schema_drv.py", "help_drv.py", "serde_drv.py"], "versioned.py": ["serde_drv.py", "tool_drv.py", "schema_drv.py", "run_drv.py"]}


def one(spec):
    """In a process of its own: run the mutant in VERIF_REPO."""
    i, file = spec
    sys.path.insert(0, str(V / "harness"))
    import lib, c_run
    cases = json.loads((M / "cases.json").read_text())
    base = json.loads((M / "base.json").read_text()) if (M / "base.json").exists() else {}
    res = {}
    order = ORDER.get(file, []) if file else list(JUDGES)
    order = order if not file or os.environ.get("MUT_ONLY") else order + [d for d in ("serde_drv.py", "run_drv.py") if d not in order]
    # a first look at fewer cases
    steps = [(d, 0) for d in order] if not file else [(d, 1) for d in order[:2]] + [(d, 0) for d in order]
    for d, first in steps:
        which = list(range(len(cases[d])))
        if first:
            which = which[::7]
        env = c_run.shim() if d in ("run_drv.py", "tool_drv.py", "lazy_drv.py") else None
        obs = lib.driver(d, [cases[d][j] for j in which], shards=1 if file else 8, env=env, timeout=900)
        broken = [which[j] for j, o in enumerate(obs) if "broken" in o]
        good = [(which[j], o) for j, o in enumerate(obs) if "broken" not in o]
        bad, _ = lib.judge(JUDGES[d], [o for _, o in good], shards=1 if file else 8)
        ids = sorted({good[b][0] for b in bad} | set(broken))
        if not file:
            res[d] = ids
        else:
            new = [j for j in ids if j not in base[d]]
            if new:
                cl = {}
                for b, cs in bad.items():
                    if good[b][0] in new:
                        for c in cs:
                            cl[c] = cl.get(c, 0) + 1
                return {"killed": d, "n": len(new), "clauses": cl}
    return res if not file else {"killed": None}


def mutant(m):
    i, path, (line, kind, old, txt, new) = m
    w = M / f"w{i}"
    try:
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        (w / path).write_text(new)
        r = {"i": i, "file": path, "line": line, "kind": kind, "old": old, "new": txt}
        env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": str(w)}
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=w, env=env, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return {**r, "killed": "tests"}
        if t.returncode != 0:
            return {**r, "killed": "tests"}
        t = subprocess.run([sys.executable, __file__, "one", str(i), Path(path).name], env={**os.environ, "VERIF_REPO": str(w)}, capture_output=True, text=True, timeout=1500)
        try:
            return {**r, **json.loads(t.stdout.splitlines()[-1])}
        except Exception:
            return {**r, "killed": "error", "err": (t.stdout + t.stderr)[-300:]}
    except Exception as e:
        return {"i": i, "file": path, "line": line, "killed": "error", "err": repr(e)[-300:]}
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    M.mkdir(exist_ok=True)
    if cmd == "record":
        record()
    elif cmd == "base":
        (M / "base.json").write_text(json.dumps(one((0, None))))
        print({k: len(v) for k, v in json.loads((M / "base.json").read_text()).items()})
    elif cmd == "one":
        print(json.dumps(one((int(sys.argv[2]), sys.argv[3]))))
    elif cmd == "run":
        j = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 6
        files = [a for a in sys.argv[2:] if a.endswith(".py")]
        ms = []
        for f in files:
            ms += [(f, m) for m in segs((Path("/repo") / f).read_text())]
        done = set()
        out = M / "result.jsonl"
        if out.exists():
            done = {(r["file"], r["line"], r["kind"], r["old"], r["new"]) for r in map(json.loads, out.read_text().splitlines()) if "new" in r}
        ms = [(i, f, m) for i, (f, m) in enumerate(ms) if (f, *m[:4]) not in done]
        random.Random(3).shuffle(ms)
        print(len(ms), "mutants", flush=True)
        with concurrent.futures.ThreadPoolExecutor(j) as ex, out.open("a") as fh:
            for r in (f.result() for f in concurrent.futures.as_completed([ex.submit(mutant, m) for m in ms])):
                fh.write(json.dumps(r) + "\n")
                fh.flush()
    elif cmd == "show":
        for r in map(json.loads, (M / "result.jsonl").read_text().splitlines()):
            if r["killed"] in (None, "error"):
                print(r["file"].split("/")[-1], r["line"], r["kind"], repr(r.get("old")), "->", repr(r.get("new")), r.get("err", "")[-100:])


main()
