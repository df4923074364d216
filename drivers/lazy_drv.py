"""States with stored objects: access, assign, dump, remove files, restart, legacy pickles. Records what is read and returned."""
import dataclasses, json, os, pickle, re, shutil, sys
from dataclasses import dataclass
from pathlib import Path
from typing import Dict, List, Optional, Tuple
import hs
import numpy as np
import hyperstate, pyron
from hyperstate import Serializable, StateManager
from hyperstate.lazy import Lazy, blob

WORK = hs.workdir()
EVENTS = []
TRAPS = []


# ---- payloads --------------------------------------------------------------------------

def build(p):
    """Payload from its description."""
    k = p[0]
    if k == "none":
        return None
    if k in ("int", "bool"):
        return p[1]
    if k == "float":
        return p[1] / 8
    if k == "flit":
        return float(p[1])
    if k == "ilit":
        return int(p[1])
    if k == "str":
        return hs.dec(p[1])
    if k == "bytes":
        return bytes(p[1])
    if k == "list":
        return [build(x) for x in p[1]]
    if k == "dict":
        return {build(a): build(b) for a, b in p[1]}
    if k == "long":
        return {"str": "ab" * p[2], "bytes": bytes(range(256)) * p[2], "list": list(range(p[2])), "dict": {str(i): i for i in range(p[2])}}[p[1]]
    if k == "arr":
        _, dt, shape, seed, layout = p
        n = 1
        for s in shape:
            n *= s
        rs = np.random.RandomState(seed)
        raw = (rs.randint(-100, 100, size=n) if seed % 3 else rs.standard_normal(n) * 1e3)
        a = np.asarray(raw).astype(np.dtype(dt)).reshape(shape)
        if dt[1] == "f" and seed % 5 == 0 and n > 2:
            a.reshape(-1)[:3] = [np.nan, np.inf, -0.0]
        if layout == "F":
            a = np.asfortranarray(a)
        elif layout == "T":
            a = np.transpose(np.ascontiguousarray(np.transpose(a)))
        elif layout == "stride" and shape:
            wide = np.repeat(a, 2, axis=-1) if shape[-1] else a
            a = wide[..., ::2]
        elif layout == "neg" and shape:
            a = np.array(a[::-1])[::-1]
        elif layout == "ro":
            a.setflags(write=False)
        elif layout == "bcast" and shape and shape[0] > 0:
            a = np.broadcast_to(a[:1], shape)
        return a
    raise ValueError(p)


def proj(x):
    """What a payload is made of."""
    t = type(x)
    if x is None or t is bool:
        return ["c", str(x)]
    if t is int:
        return ["i", str(x)]
    if t is float:
        return ["f", x.hex() if x == x else "nan"]
    if t is str:
        return ["s", hs.enc(x)]
    if t is bytes:
        return ["b", x.hex()]
    if t is list:
        return ["l", [proj(y) for y in x]]
    if t is dict:
        return ["d", sorted([[proj(a), proj(b)] for a, b in x.items()], key=json.dumps)]
    if t is np.ndarray:
        return ["a", x.dtype.str, list(x.shape), np.ndarray.tobytes(x).hex()[:4000]]
    return ["odd", repr(t)]


def modify(x, force):
    """Changes every array inside in place."""
    if type(x) is np.ndarray:
        if x.size and (force or x.flags.writeable):
            i = (0,) * x.ndim
            x[i] = not x[i] if x.dtype.kind == "b" else x[i] * 0 + 3
    elif type(x) is list:
        for y in x:
            modify(y, force)
        x.append(7)
    elif type(x) is dict:
        for y in list(x.values()):
            modify(y, force)
        x["poked"] = 1


class Net(Serializable):
    restored = False

    def __init__(self, ident, data, dep="", depid=""):
        self.ident, self.data, self.dep, self.depid = ident, data, dep, depid

    def serialize(self):
        return {"id": self.ident, "dep": self.dep, "data": self.data}

    @classmethod
    def deserialize(cls, sd, config, state, ctx):
        if not isinstance(sd, dict) or set(sd) != {"id", "dep", "data"}:
            raise ValueError("not a payload")
        depid = ""
        if sd["dep"]:
            depid = getattr(state, sd["dep"]).ident
        o = cls(sd["id"], sd["data"], sd["dep"], depid)
        o.restored = True
        EVENTS.append([sd["id"], depid, {k: v for k, v in ctx.items()}, config, state])
        return o

    def out(self):
        return [self.ident, self.depid, proj(self.data)]


class Base:
    pass


class Net2(Net):
    pass


Net3 = blob(Base, Net)


def _trap(payload, ident):
    TRAPS.append(ident)
    return payload


class Trap:
    def __init__(self, payload, ident):
        self.payload, self.ident = payload, ident

    def __reduce__(self):
        return _trap, (self.payload, self.ident)


# ---- the state class -------------------------------------------------------------------

@dataclass
class Config:
    k: int = 1
    lr: float = 0.5


CLASSES = {"Net": Net, "Net2": Net2, "Net3": Net3}


def classes(case):
    """The state class for the slots of the case: tops are fields, others sit in containers."""
    slots = case["slots"]
    fs = [("step", int)]
    subs = []
    for s in slots:
        c = CLASSES[s["cls"]]
        if s["at"][0] == "top":
            fs.append((s["at"][1], c))
        elif s["at"][0] == "opt":
            fs.append((s["at"][1], Optional[c]))
        elif s["at"][0] == "sub":
            subs.append((s["at"][1], c))
    kinds = {s["at"][0] for s in slots}
    bases = (Lazy,) if case["lazy"] else ()
    sub = None
    if "sub" in kinds:
        sub = dataclasses.make_dataclass("Sub", [("n", int), *subs], bases=(Lazy,) if case["sublazy"] else ())
        fs.append(("sub", sub))
    if "list" in kinds:
        fs.append(("parts", List[Net]))
    if "dict" in kinds:
        fs.append(("named", Dict[str, Net]))
    if "tup" in kinds:
        n = len([s for s in slots if s["at"][0] == "tup"])
        fs.append(("pair", Tuple[(Net,) * n]))
    if "deep" in kinds:
        fs.append(("deep", List[Dict[str, Tuple[int, Net]]]))
    fs.append(("z", float))
    return dataclasses.make_dataclass("State", fs, bases=bases), sub


class Run:
    def __init__(self, case):
        hs.clear(WORK)
        os.environ.pop("UNSAFE_DESERIALIZE_PICKLE", None)
        EVENTS.clear(); TRAPS.clear()
        self.case = case
        self.slots = case["slots"]
        self.scls, self.sub = classes(case)
        self.ck = WORK / "ck"
        self.sm = None
        self.count = 0
        self.hidden = {}
        self.src = None

    def make(self, payload, dep, cls):
        self.count += 1
        return CLASSES[cls](f"<obj{self.count}>", build(payload), dep)

    def names(self, at):
        return [hs.dec(x) if isinstance(x, str) else x for x in at[1:]]

    def initial(self, made):
        def f(cfg, ctx):
            kw = {"step": 0, "z": 0.125}
            sub, parts, named, pair, deep = {}, [], {}, [], [{}]
            for i, s in enumerate(self.slots):
                o = None if s["payload"] == ["nothing"] else self.make(s["payload"], s["dep"], s["cls"])
                made.append([i + 1, o.out() if o else []])
                k, n = s["at"][0], self.names(s["at"])
                if k in ("top", "opt"):
                    kw[n[0]] = o
                elif k == "sub":
                    sub[n[0]] = o
                elif k == "list":
                    parts.append(o)
                elif k == "dict":
                    named[n[0]] = o
                elif k == "tup":
                    pair.append(o)
                else:
                    deep[0][n[0]] = (i, o)
            kinds = {s["at"][0] for s in self.slots}
            for kind, field, v in (("sub", "sub", self.sub and (lambda: self.sub(n=1, **sub))), ("list", "parts", lambda: parts),
                                   ("dict", "named", lambda: named), ("tup", "pair", lambda: tuple(pair)), ("deep", "deep", lambda: deep)):
                if kind in kinds:
                    kw[field] = v()
            return self.scls(**kw)
        return f

    def get(self, i):
        st = self.sm.state
        at = self.slots[i - 1]["at"]
        k, n = at[0], self.names(at)
        if k in ("top", "opt"):
            return getattr(st, n[0])
        if k == "sub":
            return getattr(st.sub, n[0])
        if k == "list":
            return st.parts[n[0]]
        if k == "dict":
            return st.named[n[0]]
        if k == "tup":
            return st.pair[n[0]]
        return st.deep[0][n[0]][1]

    def set(self, i, o):
        st = self.sm.state
        at = self.slots[i - 1]["at"]
        k, n = at[0], self.names(at)
        if k in ("top", "opt"):
            setattr(st, n[0], o)
        elif k == "sub":
            setattr(st.sub, n[0], o)
        elif k == "list":
            st.parts[n[0]] = o
        elif k == "dict":
            st.named[n[0]] = o
        elif k == "tup":
            st.pair = st.pair[:n[0]] + (o,) + st.pair[n[0] + 1:]
        else:
            st.deep[0][n[0]] = (i, o)

    def start(self, o, made):
        init = WORK / o["init"] if o["init"] != "none" else None
        self.sm = StateManager(Config, self.scls, self.initial(made), init_path=init, checkpoint_dir=self.ck if o["dir"] else None)
        for k, v in o["ctx"]:
            self.sm.set_deserialize_ctx(k, v)
        auto = sorted(self.ck.glob("latest-step*")) if o["dir"] and self.ck.exists() else []
        self.src = auto[-1] if auto else init
        self.sm.state

    def find(self, d, ident):
        for p in sorted(d.rglob("*")):
            if p.is_file() and p.name not in ("state.ron", "config.ron") and ident.encode() in p.read_bytes():
                return p
        return None

    def legacy(self, o):
        """Rewrites a snapshot to the format of older versions."""
        d = self.where(o["name"])
        i = o["slot"]
        f = self.find(d, o["ident"])
        import msgpack
        from hyperstate import msgpack_torch
        payload = msgpack.unpackb(f.read_bytes(), object_hook=msgpack_torch.decode, strict_map_key=False)
        data = pickle.dumps(Trap(payload, payload["id"]))
        at = self.slots[i - 1]["at"]
        n = self.names(at)
        path = {"top": lambda: n[0], "opt": lambda: n[0], "sub": lambda: f"sub.{n[0]}", "list": lambda: f"parts[{n[0]}]",
                "dict": lambda: f"named.{n[0]}"}[at[0]]()
        if o["how"] == "fake":      # a pickle where a safe format is announced
            f.write_bytes(data)
            return
        f.unlink()
        if o["how"] == "BLOB":
            marker, fp = "<BLOB>", path.replace(".", "/").replace("[", "/").replace("]", "")
        else:
            marker, fp = "<blob:pickle>", "state." + path.replace("[", "_").replace("]", "") + ".pickle"
        (d / fp).parent.mkdir(parents=True, exist_ok=True)
        (d / fp).write_bytes(data)
        t = hs.tree(pyron.load(str(d / "state.ron")))
        cur = t
        keys = path.replace("[", ".").replace("]", "").split(".")
        for k in keys[:-1]:
            cur = cur[1][int(k)] if cur[0] == "list" else dict(map(tuple, cur[-1]))[k]
        if cur[0] == "list":
            cur[1][int(keys[-1])] = ["str", marker]
        else:
            [x for x in cur[-1] if x[0] == keys[-1]][0][1] = ["str", marker]
        (d / "state.ron").write_text(hs.ron(t))

    def where(self, name):
        if name == "latest":
            return sorted(self.ck.glob("latest-step*"))[-1]
        return WORK / name

    def op(self, o, obs):
        k = o["op"]
        if k == "start":
            self.sm = None
            made = []
            r = hs.attempt(lambda: self.start(o, made))
            obs["made"] = made
            if r[0] != "ok":
                self.sm = None
            return r
        if k == "stop":
            self.sm = None
            return ["ok"]
        if k == "env":
            if o["on"]:
                os.environ["UNSAFE_DESERIALIZE_PICKLE"] = "1"
            else:
                os.environ.pop("UNSAFE_DESERIALIZE_PICKLE", None)
            return ["ok"]
        if k == "legacy":
            self.legacy(o)
            return ["ok"]
        if k == "rm":
            d = self.where(o["name"])
            f = self.find(d, o["ident"])
            self.hidden[(o["name"], o["slot"])] = (f, f.read_bytes())
            f.unlink()
            return ["ok"]
        if k == "unrm":
            f, data = self.hidden.pop((o["name"], o["slot"]))
            f.write_bytes(data)
            return ["ok"]
        if k == "get":
            i = o["slot"]
            way = o["way"]
            if way == "attr":
                def go():
                    x = self.get(i)
                    obs["got"] = [[i, x.out() if x is not None else []]]
                    if self.get(i) is not x:
                        obs["got"] = [[i, ["changes"]]]
            elif way == "hasattr":
                def go():
                    at = self.slots[i - 1]["at"]
                    hasattr(self.sm.state, self.names(at)[0])
            elif way == "other":      # fields that are not stored objects
                def go():
                    obs["got"] = [[0, [self.sm.state.z == 0.125, type(self.sm.state.step) is int]]]
            else:      # all
                def go():
                    repr(self.sm.state) if way == "repr" else self.sm.state == dataclasses.replace(self.sm.state)
                    obs["got"] = [[j + 1, (lambda x: x.out() if x is not None else [])(self.get(j + 1))] for j in range(len(self.slots))]
            return hs.attempt(go)
        if k == "set":
            i = o["slot"]
            x = None if o["payload"] == ["nothing"] else self.make(o["payload"], self.slots[i - 1]["dep"], self.slots[i - 1]["cls"])
            obs["made"] = [[i, x.out() if x else []]]
            return hs.attempt(lambda: self.set(i, x))
        if k == "poke":
            i = o["slot"]

            def go():
                x = self.get(i)
                if x is None:
                    return
                modify(x.data, x.restored)
                self.count += 1
                x.ident = f"<obj{self.count}>"
                obs["made"] = [[i, x.out()]]
            return hs.attempt(go)
        if k == "ctx":
            return hs.attempt(lambda: self.sm.state.set_deserialize_ctx(o["k"], o["v"]))
        if k == "step":
            self.sm.state.step += o["d"]
            return hs.attempt(self.sm.step)
        if k == "save":
            return hs.attempt(lambda: self.sm.checkpoint(str(WORK / o["name"])))
        if k == "dump":
            def go():
                (WORK / o["name"]).mkdir()
                hyperstate.dump(self.sm.config, WORK / o["name"] / "config.ron")
                hyperstate.dump(self.sm.state, WORK / o["name"] / "state.ron")
            r = hs.attempt(go)
            if r[0] != "ok" and (WORK / o["name"]).exists():
                shutil.rmtree(WORK / o["name"])
            return r
        raise ValueError(o)


def handle(case):
    run = Run(case)
    dirs = {}      # name -> idents stored there, as far as the driver needs them to find files
    cur = [""] * len(run.slots)
    old = set()
    out = []
    for o in case["ops"]:
        o = dict(o)
        obs = {"r": ["skipped"], "ev": [], "made": [], "got": [], "trap": []}
        k = o["op"]
        skip = run.sm is None and k in ("get", "set", "poke", "ctx", "step", "save", "dump")
        if k in ("rm", "legacy"):
            ids = dirs.get(o["name"])
            o["ident"] = ids[o["slot"] - 1] if ids else ""
            skip = not o["ident"] or run.find(run.where(o["name"]), o["ident"]) is None or (o["name"], o["slot"]) in run.hidden \
                or (k == "legacy" and (run.slots[o["slot"] - 1]["at"][0] in ("tup", "deep") or not re.fullmatch(r"\w+", str(run.slots[o["slot"] - 1]["at"][1])) or run.sm is not None or (o["name"], o["ident"]) in old))
            if k == "legacy" and not skip:
                old.add((o["name"], o["ident"]))
        if k == "unrm":
            skip = (o["name"], o["slot"]) not in run.hidden or not run.hidden[(o["name"], o["slot"])][0].parent.is_dir()
            if skip:
                run.hidden.pop((o["name"], o["slot"]), None)
        if k in ("save", "dump"):
            skip = skip or (WORK / o["name"]).exists()
        if k == "start":
            skip = o["init"] != "none" and not (WORK / o["init"]).exists()
        if not skip:
            EVENTS.clear(); TRAPS.clear()
            before = sorted(run.ck.glob("latest-step*")) if run.ck.exists() else []
            r = run.op(o, obs)
            obs["r"] = [r[0]] if r[0] == "ok" else r
            st = run.sm._state if run.sm is not None else None
            obs["ev"] = [[e[0], e[1], sorted([a, b] for a, b in e[2].items()),
                          run.sm is None or e[3] is run.sm.config, run.sm is None or e[4] is st] for e in EVENTS]
            obs["trap"] = sorted(TRAPS)
            for i, x in obs["made"]:
                cur[i - 1] = x[0] if x else ""
            if k == "start" and obs["made"] == [] and r[0] == "ok" and run.src is not None:
                name = "latest" if run.src.parent == run.ck else run.src.name
                cur = list(dirs[name])
            after = sorted(run.ck.glob("latest-step*")) if run.ck.exists() else []
            if after != before:
                dirs["latest"] = list(cur)
                for key in [q for q in run.hidden if q[0] == "latest"]:
                    del run.hidden[key]
            if k in ("save", "dump") and r[0] == "ok":
                dirs[o["name"]] = list(cur)
        out.append(obs)
    os.environ.pop("UNSAFE_DESERIALIZE_PICKLE", None)
    return {**case, "obs": out}


hs.run(handle)
