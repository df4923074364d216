"""Runs histories of training runs: start, step, save, crash, fail, restart. Records what is observable after each."""
import contextlib, ctypes, enum, errno, hashlib, io, json, math, os, re, shutil, signal, sys
from dataclasses import dataclass, field
from pathlib import Path
from typing import Dict, List, Optional, Tuple
import hs
from scaled import scaled
import numpy as np
import hyperstate
from hyperstate import Serializable, StateManager, stateful_command
from hyperstate.schema.rewrite_rule import RenameField
from hyperstate.schema.versioned import Versioned
from hyperstate.lazy import Lazy

SHIM = ctypes.CDLL(None) if "crash.so" in os.environ.get("LD_PRELOAD", "") else None
if SHIM:
    SHIM.hs_ops.restype = ctypes.c_char_p
OFF, COUNT, KILL, FAIL, FULL = range(5)
WORK = hs.workdir()
TMP = Path(os.environ["TMPDIR"])


class Boom(Exception):
    pass


def digits(n):
    """A float that needs all its digits."""
    return math.sin(n + 0.5) * 10.0 ** (n % 13 - 6)


class Mood(enum.Enum):
    UP = "up"
    DOWN = 2


class Net(Serializable):
    """A stored object: one number, and things derived from it."""
    def __init__(self, w):
        self.w = w
        self.boom = False

    def serialize(self):
        if self.boom:
            raise Boom("cannot be serialized")
        return {"w": self.w, "arr": np.array([self.w, self.w + 1.5], dtype=np.float32), "l": [self.w, {"n": "net"}], "f": digits(self.w),
                "big": self.w + 2 ** 40, "b": bytes([self.w % 256, 0, 255]), "none": None, "d2": np.array([[digits(self.w)], [0.1]])}

    @classmethod
    def deserialize(cls, sd, config, state, ctx):
        w = sd["w"]
        ok = sd["arr"].tolist() == [w, w + 1.5] and sd["l"] == [w, {"n": "net"}] and state.step is not None
        ok = ok and sd["f"] == digits(w) and sd["big"] == w + 2 ** 40 and sd["b"] == bytes([w % 256, 0, 255]) and sd["none"] is None
        ok = ok and sd["d2"].tolist() == [[digits(w)], [0.1]]
        return cls(w if ok else -1)

    def __deepcopy__(self, memo):
        return Net(self.w)


@dataclass
class Sub:
    x: int = 0
    y: Optional[float] = None


@dataclass
class Plain:
    step: int
    tok: int
    acc: int
    hist: List[int] = field(default_factory=list)
    sub: Sub = field(default_factory=Sub)
    tags: Dict[str, Sub] = field(default_factory=dict)
    z: float = 0.0
    pair: Tuple[int, float] = (0, 0.0)
    mood: Optional[Mood] = None
    name: str = ""


@dataclass
class LazyState(Lazy):
    step: int
    tok: int
    acc: int
    net: Net
    hist: List[int]
    aux: Net
    z: float


@dataclass
class Eager:
    step: int
    tok: int
    acc: int
    net: Net
    hist: List[int]
    parts: List[Net]
    named: Dict[str, Net]
    z: float


def moved(lazy, version):
    """State classes that evolve: `w` was called `weight`, or the stored object `net` was called `model`, before version 1."""
    name = ("net" if lazy else "w") if version else ("model" if lazy else "weight")

    class State(Versioned, *([Lazy] if lazy else [])):
        @classmethod
        def version(cls):
            return version

        @classmethod
        def upgrade_rules(cls):
            return {0: [RenameField(("model",), ("net",)) if lazy else RenameField(("weight",), ("w",))]} if version else {}

    fields = {"step": int, "tok": int, "acc": int, name: Net if lazy else int, "hist": List[int], **({"aux": Net} if lazy else {}), "z": float}
    State.__annotations__ = fields
    return dataclass(State)


KINDS = {"plain": [Plain] * 2, "lazy": [LazyState] * 2, "eager": [Eager] * 2, "moved": [moved(False, 0), moved(False, 1)],
         "lazymoved": [moved(True, 0), moved(True, 1)]}


def initial(kind, cls, **offset):
    def go(c, ctx):
        if kind == "plain":
            st = cls(0, 0, 0, [], Sub(0, None), {})
        elif kind == "moved":
            st = cls(0, 0, 0, 0, [], digits(0))
        elif kind in ("lazy", "lazymoved"):
            st = cls(0, 0, 0, Net(0), [], Net(0), digits(0))
        else:
            st = cls(0, 0, 0, Net(0), [], [], {}, digits(0))
        for k, v in offset.items():
            setattr(st, k, v)
        return st
    return go


def train(kind, st, cfg, d):
    k = cfg.k if isinstance(cfg.k, int) and abs(cfg.k) < 1000 else 0
    st.step += d
    st.tok += 3 * d
    st.acc = (st.acc * 3 + st.step + k) % 997
    st.hist = (st.hist + [st.acc])[-3:]
    st.z = digits(st.acc)
    if kind == "plain":
        st.sub.x = (st.sub.x + st.acc) % 997
        st.sub.y = st.sub.x / 8
        st.tags[f"t{st.acc % 2}"] = Sub(st.acc)
        st.pair = (st.acc, digits(st.acc + 1))
        st.mood = [None, Mood.UP, Mood.DOWN][st.acc % 3]
        st.name = f"n{st.acc} \"q\" é"
    elif kind == "moved":
        name = "w" if hasattr(st, "w") else "weight"
        setattr(st, name, (getattr(st, name) + st.acc) % 997)
    else:
        name = "net" if "net" in st.__dataclass_fields__ else "model"
        w = (getattr(st, name).w + st.acc) % 997
        if st.step % 2:
            setattr(st, name, Net(w))
        else:
            getattr(st, name).w = w
        if kind in ("lazy", "lazymoved"):
            if st.step % 3:    # left alone, and possibly unloaded, in some steps
                st.aux = Net(st.acc)
        else:
            st.parts = [Net(x) for x in st.hist]
            st.named = {"n": Net(st.acc)}


def record(kind, st, offset):
    """Projection of the state to numbers."""
    base = {"step": st.step - offset.get("step", 0), "tok": st.tok - offset.get("tok", 0), "acc": st.acc, "hist": st.hist}
    if kind == "moved":
        return {**base, "w": st.w if hasattr(st, "w") else st.weight, "aux": st.acc if st.z == digits(st.acc) else -1}
    if kind == "plain":
        y = st.sub.y
        ok = y is None or y == st.sub.x / 8
        tags = st.tags
        ok = ok and (f"t{st.acc % 2}" not in tags and st.step == 0 or f"t{st.acc % 2}" in tags and tags[f"t{st.acc % 2}"].x == st.acc)
        if st.name or st.hist:
            ok = ok and st.z == digits(st.acc) and st.pair == (st.acc, digits(st.acc + 1)) and st.name == f"n{st.acc} \"q\" é"
            ok = ok and st.mood is [None, Mood.UP, Mood.DOWN][st.acc % 3] and type(st.pair) is tuple
        return {**base, "w": st.sub.x, "aux": st.acc if ok else -1}
    if kind in ("lazy", "lazymoved"):
        return {**base, "w": (st.net if "net" in st.__dataclass_fields__ else st.model).w, "aux": st.aux.w if st.z == digits(st.acc) else -1}
    ok = st.z == digits(st.acc) and [p.w for p in st.parts] == st.hist and (st.named["n"].w == st.acc if st.hist else st.named == {})
    return {**base, "w": st.net.w, "aux": st.acc if ok else -1}


def digest(p):
    h = hashlib.sha256()
    for f in sorted(p.rglob("*")) if p.is_dir() else [p]:
        h.update(str(f.relative_to(p)).encode() + b"\0")
        if f.is_file():
            h.update(f.read_bytes())
        h.update(b"\1")
    return h.hexdigest()[:16]


class Run:
    def __init__(self, case):
        hs.clear(WORK)
        hs.clear(TMP)
        self.case = case
        os.chdir(WORK)
        self.clzs = [hs.Types([]).build(t) for t in case.get("ts") or [case["t"]]]
        self.kind = case["sk"]
        self.current(1)
        self.ck = WORK / "ck"
        self.other = WORK / "other"
        self.ckey = case["ckey"]
        # keys count from base million: TLC has no numbers as large
        self.offset = {self.ckey: case["base"] * 10 ** 6 - 4} if case.get("base") else {}
        self.other.mkdir()
        self.sm = None
        self.cache = {}
        if SHIM:
            SHIM.hs_arm(OFF, 0, 0)
            SHIM.hs_roots(str(WORK).encode(), str(TMP).encode(), 1 if case.get("cross") else 0)
        self.file = None
        if case["file"] != ["nofile"]:
            self.file = WORK / "config.ron"
            self.file.write_text(hs.ron(case["file"]))

    def current(self, cls):
        """From now on this is the class of the config."""
        self.cls = cls
        self.clz = self.clzs[cls - 1]
        self.scls = KINDS[self.kind][cls > 1]

    def initial(self):
        return initial(self.kind, self.scls, **self.offset)

    def manager(self, init, ckdir, ovs, ign):
        return StateManager(self.clz, self.scls, self.initial(), init_path=init, checkpoint_dir=ckdir,
                            overrides=[hs.override(o) for o in ovs], **({"checkpoint_key": self.ckey} if self.ckey != "step" else {}),
                            **({"ignore_extra_fields": True} if ign else {}))

    def start(self, o):
        if o.get("cls"):
            self.current(o["cls"])
        init, ck = None, self.ck
        if o["init"] == "file":
            init = self.file
        elif o["init"] != "none":
            init = WORK / o["init"]
        if o.get("as") == "rel":
            init, ck = init and init.relative_to(WORK), ck.relative_to(WORK)
        elif o.get("as") == "str":
            init, ck = init and str(init), str(ck)
        if o.get("via") == "cli":
            return self.program(init, o)
        self.sm = self.manager(init, ck if o["dir"] else None, o["ovs"], o.get("ign"))
        self.sm.state
        self.sm.config

    def program(self, init, o):
        """Starts the run as a program, from the command line."""
        token = object()
        got = []

        @stateful_command(self.clz, self.scls, self.initial(), **({"checkpoint_key": self.ckey} if self.ckey != "step" else {}))
        def main(sm):
            got.append(sm)
            sm.state
            sm.config
            return token

        args = [hs.override(x) for x in o["ovs"]]
        opts = []
        if init is not None:
            opts += ["--config" if o["init"] == "file" else "--resume-from", str(init)]
        if o["dir"]:
            opts += [f"--checkpoint-dir={self.ck}"] if o.get("as") == "str" else ["--checkpoint-dir", str(self.ck)]
        old = sys.argv
        sys.argv = ["prog"] + (args + opts if o.get("as") == "str" else opts + args)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                r = main()
        except SystemExit as e:
            if e.code in (None, 0):
                return "quiet"
            raise Boom("exit")
        finally:
            sys.argv = old
        if r is not token or len(got) != 1:
            return "lost"
        self.sm = got[0]

    def op(self, o):
        k = o["op"]
        if k == "start":
            self.sm = None
            r = hs.attempt(lambda: self.start(o))
            if r[0] != "ok":
                self.sm = None
                return r
            return [r[1]] if r[1] else ["ok"]
        if k == "stop":
            self.sm = None
            return ["ok"]
        if k == "litter":
            self.litter(o["what"])
            return ["ok"]
        if k == "foreign":
            self.foreign()
            return ["ok"]
        if k == "save":
            self.sm.state
            name = WORK / self.named(o["name"])
            name.parent.mkdir(exist_ok=True)
            return self.done(hs.attempt(lambda: self.sm.checkpoint(str(name)))) + [self.named(o["name"])]
        if k == "edit":
            self.file.write_text(hs.ron(o["file"]))
            os.utime(self.file, (2e9, 2e9))
            return ["ok"]
        if k == "train":
            train(self.kind, self.sm.state, self.sm.config, o["d"])
            return ["ok"]
        if k == "step":
            if o["d"] > 0:
                train(self.kind, self.sm.state, self.sm.config, o["d"])
            r = self.done(hs.attempt(self.sm.step))
            return r
        if k == "kill":
            return self.kill(o)
        if k in ("fail", "full"):
            train(self.kind, self.sm.state, self.sm.config, o["d"])
            SHIM.hs_arm(FAIL if k == "fail" else FULL, o["at"], getattr(errno, o["errno"]))
            self.also(o)
            r = hs.attempt(self.sm.step)
            n, hit = SHIM.hs_count(), SHIM.hs_hit()
            SHIM.hs_arm(OFF, 0, 0)
            return self.done(r) + [n, hit]
        if k == "serfail":
            train(self.kind, self.sm.state, self.sm.config, o["d"])
            getattr(self.sm.state, o["which"]).boom = True
            r = hs.attempt(self.sm.step)
            getattr(self.sm.state, o["which"]).boom = False
            return self.done(r)
        raise ValueError(o)

    @staticmethod
    def done(r):
        return ["ok"] if r[0] == "ok" else r

    def kill(self, o):
        """The step runs in a child that is killed before its at-th file system operation."""
        sys.stdout.flush(); sys.stderr.flush()
        info = WORK / "info"
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(60)
                train(self.kind, self.sm.state, self.sm.config, o["d"])
                SHIM.hs_arm(KILL, o["at"], 0)
                self.also(o)
                self.sm.step()
                n, names = SHIM.hs_count(), SHIM.hs_ops().decode()
                SHIM.hs_arm(OFF, 0, 0)
                info.write_text(json.dumps([n, names]))
                os._exit(0)
            except BaseException as e:
                SHIM.hs_arm(OFF, 0, 0)
                info.write_text(json.dumps([0, repr(e)]))
                os._exit(3)
        _, status = os.waitpid(pid, 0)
        self.sm = None
        if os.WIFSIGNALED(status):
            return ["killed", o["at"], os.WTERMSIG(status)]
        n, names = json.loads(info.read_text())
        info.unlink()
        if os.WEXITSTATUS(status) == 0:
            return ["completed", n, names]
        return ["err", "error in child", names]

    @staticmethod
    def also(o):
        """Further faults in the same step."""
        for mode, at, err in o.get("also", []):
            SHIM.hs_also(FAIL if mode == "fail" else FULL, at, getattr(errno, err))

    def named(self, name):
        """@ stands for the current key, + for the next one."""
        try:
            key = getattr(self.sm.state, self.ckey) if self.sm is not None else 0
        except Exception:
            key = 0
        step = self.ckey + f"{key:012}"
        return name.replace("@", step).replace("+", self.ckey + f"{key + (1 if self.ckey == 'step' else 3):012}")

    def litter(self, what):
        self.ck.mkdir(exist_ok=True)
        kind, name = what[0], self.named(what[1])
        p = self.ck / name
        if p.exists():
            return
        if kind == "file":
            p.write_text("x")
        elif kind == "empty":
            p.mkdir(exist_ok=True)
        elif kind == "partial":
            p.mkdir(exist_ok=True)
            (p / "config.ron").write_text("(")
        elif kind == "copy":      # of the newest automatic checkpoint, if there is one
            src = [q for q in sorted(self.ck.glob(f"latest-{self.ckey}" + "[0-9]" * 12)) if q.is_dir()]
            if src and not p.exists():
                shutil.copytree(src[-1], p)

    def foreign(self):
        """Every checkpoint gets fields that the classes do not know."""
        for root in (self.ck, self.other):
            for f in sorted(root.glob("*/*.ron")) if root.exists() else []:
                if f.name in ("config.ron", "state.ron"):
                    text = f.read_text()
                    head, _, rest = text.partition("(")
                    if rest:
                        f.write_text(f"{head}(zz_foreign: Zz(a: 1, b: [2]),{rest}")

    def content(self, p):
        """What the checkpoint at p holds."""
        def go():
            sm = StateManager(self.clz, self.scls, self.initial(), init_path=p)
            sm.state
            return [scaled(hs.project(sm.config)), sm.state.step, record(self.kind, sm.state, self.offset)]
        r = hs.attempt(go)
        return ["ok", *r[1]] if r[0] == "ok" else ["err", r[1], r[2][:100]]

    def listing(self):
        out = []
        for root, pre in ((self.ck, "ck"), (self.other, "other")):
            for p in sorted(root.iterdir()) if root.exists() else []:
                d = digest(p)
                name = f"{pre}/{p.name}"
                if p.is_dir() and (p.name.startswith("latest-") or p.name.startswith("keep")):
                    key = (name, d, self.cls)
                    if key not in self.cache:
                        self.cache[key] = self.content(p)
                    c = self.cache[key]
                else:
                    c = ["other"]
                m = re.fullmatch(rf"latest-{self.ckey}(\d{{12,}})", p.name)
                key = max(-1, int(m[1]) - self.offset.get(self.ckey, 0)) if m and pre == "ck" and p.is_dir() else -1
                out.append([name, d, c, key])
        return out

    def observe(self, r):
        tmp = len(list(TMP.iterdir()))
        ls = self.listing()
        if self.sm is None:
            return {"r": r, "cfg": ["down"], "st": ["down"], "ls": ls, "tmp": tmp}
        cfg = hs.attempt(lambda: scaled(hs.project(self.sm.config)))
        st = ["unseen"] if self.case.get("blind") else hs.attempt(lambda: record(self.kind, self.sm.state, self.offset))
        return {"r": r, "cfg": cfg, "st": st, "ls": ls, "tmp": tmp}


def handle(case):
    run = Run(case)
    obs = []
    for o in case["ops"]:
        if run.sm is None and o["op"] in ("step", "save", "kill", "fail", "full", "serfail", "train"):
            obs.append({"r": ["skipped"], "cfg": ["down"], "st": ["down"], "ls": run.listing(), "tmp": 0})
            continue
        r = hs.attempt(lambda: run.op(o))
        if SHIM:
            SHIM.hs_arm(OFF, 0, 0)
        obs.append(run.observe(r[1] if r[0] == "ok" else r))
    return {**case, "obs": obs}


hs.run(handle)
