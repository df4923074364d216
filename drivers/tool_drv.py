"""Runs the schema evolution tool on directories of files. Records the directory after each command."""
import contextlib, ctypes, errno, hashlib, io, os, re, shutil, sys
from dataclasses import dataclass
import hs
import pyron
import hyperstate
from hyperstate import StateManager, schema_evolution_cli
from hyperstate.schema import types as st
from hyperstate.schema.schema_checker import SchemaChecker
from schema_codec import etype
from scaled import scaled

SHIM = ctypes.CDLL(None) if "crash.so" in os.environ.get("LD_PRELOAD", "") else None
OFF, COUNT, KILL, FAIL, FULL = range(5)
WORK = hs.workdir()
DIR = WORK / "d"
KEYS = [0, 1, 3, 8, 20, 60, 1000]
SCHEMA = "config-schema.ron"


@dataclass
class State:
    step: int
    tok: int


def fresh(T):
    return hs.Types([]).build(T)


def cli(clz, *args):
    old = sys.argv
    out = io.StringIO()
    sys.argv = ["schema", *map(str, args)]
    code = [None]

    def go():
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                schema_evolution_cli(clz)
        except SystemExit as e:
            code[0] = e.code
    try:
        r = hs.attempt(go)
    finally:
        sys.argv = old
    text = re.sub(r"\x1b\[[0-9;]*m", "", out.getvalue())
    if r[0] != "ok":
        return r, text
    if code[0] not in (0, None):
        return ["err", "exit", str(code[0])], text
    return ["ok"], text


class Run:
    def __init__(self, case):
        hs.clear(WORK)
        DIR.mkdir()
        os.chdir(DIR)
        self.case = case
        self.T = case["t"]
        self.cache = {}
        self.clz = fresh(self.T)
        if SHIM:
            SHIM.hs_arm(OFF, 0, 0)
            SHIM.hs_roots(str(DIR).encode(), str(WORK / "none").encode(), 0)
        for name, c in case["files"]:
            self.write(name, c)
        self.stale(case["schema"])

    def write(self, name, c):
        p = DIR / name
        p.parent.mkdir(exist_ok=True)
        p.write_text(hs.ron(c[1]) if c[0] == "tree" else c[1])

    def stale(self, s):
        p = DIR / SCHEMA
        if s[0] == "gone":
            if p.exists():
                p.unlink()
        elif s[0] == "text":
            p.write_text(s[1])
        else:
            p.write_text(hyperstate.dumps(st.materialize_type(fresh(s[1]))))

    def loads(self, p, text):
        if not self.case["sched"]:
            return [hs.attempt(lambda: hs.project(hyperstate.loads(self.clz, text)))]
        out = []
        for k in KEYS:
            def go():
                sm = StateManager(self.clz, State, lambda c, ctx: State(k, 3 * k), init_path=p)
                sm.state
                return scaled(hs.project(sm.config))
            out.append(hs.attempt(go))
        return out

    def observe(self, r, said=False, hits=0, again="none"):
        files = []
        for p in sorted(DIR.rglob("*")):
            name = str(p.relative_to(DIR))
            if p.is_dir() or name == SCHEMA:
                continue
            data = p.read_bytes()
            d = hashlib.sha256(data).hexdigest()[:16]
            if d not in self.cache:
                ls = self.loads(p, data.decode())
                raw = hs.attempt(lambda: hs.tree(pyron.loads(data.decode(), preserve_class_names=True)))
                self.cache[d] = [[x[:1] if x[0] != "ok" else x for x in ls], raw[1] if raw[0] == "ok" and raw[1][0] in ("obj", "dict") else ["none"]]
            files.append([name, d, *self.cache[d]])
        s = DIR / SCHEMA
        d = "s" + hashlib.sha256(s.read_bytes()).hexdigest()[:16] if s.exists() else "gone"
        if d not in self.cache:
            typ = hs.attempt(lambda: etype(st.load_schema(str(s)))) if s.exists() else ["err"]
            sev = hs.attempt(lambda: SchemaChecker(st.load_schema(str(s)), fresh(self.T)).severity().name) if s.exists() else ["err"]
            self.cache[d] = {"digest": d, "type": typ if typ[0] == "ok" else ["err"], "sev": sev[1] if sev[0] == "ok" else "none"}
        return {"r": r[:1] + [str(x)[:200] for x in r[1:]], "files": files, "schema": self.cache[d], "said": said, "hits": hits, "again": again}

    def command(self, o, *args):
        if o.get("fault") and SHIM:
            mode, at, err = o["fault"][0]
            SHIM.hs_arm(FAIL if mode == "fail" else FULL, at, getattr(errno, err))
        try:
            r, text = cli(self.clz, *args)
        finally:
            hits = 0
            if SHIM:
                hits = SHIM.hs_hit()
                SHIM.hs_arm(OFF, 0, 0)
        said = bool(re.search(r"^(info|warn|error) |ompatible", text, re.M))
        return r, said, hits

    def op(self, o):
        k = o["op"]
        if k == "edit":
            self.write(o["file"], o["content"])
            return self.observe(["ok"])
        if k == "stale":
            self.stale(o["schema"])
            return self.observe(["ok"])
        if k == "upgrade":
            args = ["upgrade-config", *o["files"], *(["--include-defaults"] if o["inc"] else []), *(["--dry-run"] if o["dry"] else [])]
            r, said, hits = self.command(o, *args)
            ob = self.observe(r, said, hits)
            if r[0] == "ok" and not o["dry"]:
                # once more, on a copy
                copy = WORK / "copy"
                shutil.copytree(DIR, copy)
                os.chdir(copy)
                cli(self.clz, *args)
                os.chdir(DIR)
                same = all((copy / f).read_bytes() == (DIR / f).read_bytes() for f in o["files"])
                ob["again"] = "same" if same else "different"
                shutil.rmtree(copy)
            return ob
        args = {"check": ["check-schema"], "upschema": ["upgrade-schema"], "dump": ["dump-schema"]}[k]
        r, said, hits = self.command(o, *args, *([SCHEMA] if len(self.case["ops"]) % 2 else []))
        return self.observe(r, said, hits)


def handle(case):
    run = Run(case)
    try:
        obs = [run.observe(["ok"])]
        for o in case["ops"]:
            obs.append(run.op(o))
    finally:
        os.chdir(WORK)
    return {**case, "obs": obs}


hs.run(handle)
