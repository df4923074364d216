"""Shared by the drivers: encoded types, trees and values <-> Python. No expectations live here."""
import zlib, traceback
import dataclasses, enum, json, os, re, shutil, signal, sys, typing
from pathlib import Path


def run(handler):
    """Apply handler to every case of the input file; one observation per case."""
    src, dst = sys.argv[1], sys.argv[2]
    sys.stderr.flush()
    with open(src) as f, open(dst, "w") as out:
        for line in f:
            case = json.loads(line)
            try:
                obs = handler(case)
            except Exception:     # the code under test does not keep to its interface
                obs = {**case, "broken": traceback.format_exc()[-1500:]}
            out.write(json.dumps(obs) + "\n")


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang("no result after 20 s")


def attempt(f):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(20)
    try:
        return ["ok", f()]
    except (KeyboardInterrupt, SystemExit) as e:
        if isinstance(e, SystemExit):
            return ["err", "SystemExit", str(e)]
        raise
    except BaseException as e:  # pyron panics are BaseExceptions
        return ["err", type(e).__name__, str(e)[:300]]
    finally:
        signal.alarm(0)


# ---- numbers and text ------------------------------------------------------------------

def num(x):
    if type(x) is float:
        if x != x:
            return ["nan"]
        if x in (float("inf"), float("-inf")):
            return ["inf", 1 if x > 0 else -1]
        if abs(x) < 2 ** 26 and (x * 8) == int(x * 8) and not (x == 0 and str(x)[0] == "-"):
            return ["float", int(x * 8)]
        return ["flit", repr(x)]
    if -(2 ** 30) < x < 2 ** 30:
        return ["int", x]
    return ["ilit", str(x)]


def dec(s):
    """Characters that the specification spells U+hex;"""
    return re.sub(r"U\+([0-9a-f]+);", lambda m: chr(int(m[1], 16)), s)


def enc(s):
    return "".join(c if " " <= c <= "~" or c in "\n\t" else f"U+{ord(c):x};" for c in s)


def ron_str(s):
    s = dec(s)
    out = []
    for c in s:
        if c in '"\\':
            out.append("\\" + c)
        elif c == "\n":
            out.append("\\n")
        elif c == "\t":
            out.append("\\t")
        elif c == "\r":
            out.append("\\r")
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


def ron(t):
    """Renders a tree as RON text."""
    k = t[0]
    if k == "int":
        return str(t[1])
    if k == "float":
        return repr(t[1] / 8)
    if k in ("flit", "ilit"):
        return t[1]
    if k == "bool":
        return "true" if t[1] else "false"
    if k == "str":
        return ron_str(t[1])
    if k == "none":
        return "None"
    if k == "list":
        return "[" + ", ".join(map(ron, t[1])) + "]"
    if k == "tup":
        return "(" + ", ".join(map(ron, t[1])) + ")"
    if k == "dict":
        return "{" + ", ".join(f"{ron_str(a)}: {ron(b)}" for a, b in t[1]) + "}"
    if k == "obj":
        if not t[1] and not t[2]:
            return "{}"
        return t[1] + "(" + ", ".join(f"{a}: {ron(b)}" for a, b in t[2]) + ")"
    if k == "unit":
        return t[1]
    if k == "sched":
        return ron_str(schedule(t))
    raise ValueError(t)


def schedule(t):
    """["sched", field, [[y, x], ...], [interpolation, ...], style]: x in halves"""
    _, name, points, interps, style = t

    def x(n):
        v = n / 2
        if style & 2:
            return f"{v:.12e}"
        return str(n // 2) if n % 2 == 0 else str(v)

    def y(v):
        if v[0] == "float" and style & 4 and v[1] % 8 == 0:
            return str(v[1] // 8)
        return ron(v)
    out = [name + ":"]
    last = "lin"
    for i, (a, b) in enumerate(points):
        if i > 0 and (interps[i - 1] != last or style & 1):
            out.append(interps[i - 1])
            last = interps[i - 1]
        out.append(f"{y(a)}@{x(b)}")
    return " ".join(out)


def raw(t, names=False):
    """The tree as plain Python data. names: objects say which class they are of, as in loaded files."""
    k = t[0]
    if names:
        if k == "list":
            return [raw(x, True) for x in t[1]]
        if k == "tup":
            return tuple(raw(x, True) for x in t[1])
        if k == "dict":
            return {dec(a): raw(b, True) for a, b in t[1]}
        if k == "obj":
            return {**({"!__name__": t[1]} if t[1] else {}), **{dec(a): raw(b, True) for a, b in t[2]}}
    if k == "str":
        return dec(t[1])
    if k == "int" or k == "bool":
        return t[1]
    if k == "float":
        return t[1] / 8
    if k == "flit":
        return float(t[1])
    if k == "ilit":
        return int(t[1])
    if k == "inf":
        return t[1] * float("inf")
    if k == "none":
        return None
    if k == "list":
        return [raw(x) for x in t[1]]
    if k == "tup":
        return tuple(raw(x) for x in t[1])
    if k == "dict":
        return {dec(a): raw(b) for a, b in t[1]}
    if k == "obj":
        return {dec(a): raw(b) for a, b in t[2]}
    raise ValueError(t)


def tree(x):
    """Parsed RON (class names preserved) as a tree."""
    if x is None:
        return ["none"]
    if isinstance(x, bool):
        return ["bool", x]
    if isinstance(x, (int, float)):
        return num(x)
    if isinstance(x, str):
        return ["str", enc(x)]
    if isinstance(x, list):
        return ["list", [tree(y) for y in x]]
    if isinstance(x, tuple):
        return ["tup", [tree(y) for y in x]]
    if isinstance(x, dict):
        if "!__name__" in x:
            return ["obj", x["!__name__"], [[k, tree(v)] for k, v in x.items() if k != "!__name__"]]
        return ["dict", [[enc(str(k)), tree(v)] for k, v in x.items()]]
    return ["odd", repr(x)]


def project(x):
    """A Python object as an encoded value."""
    if x is None:
        return ["none"]
    if isinstance(x, enum.Enum):
        return ["enum", type(x).__name__, x.name]
    if type(x) is bool:
        return ["bool", x]
    if type(x) in (int, float):
        return num(x)
    if type(x) is str:
        return ["str", enc(x)]
    if type(x) is list:
        return ["list", [project(y) for y in x]]
    if type(x) is tuple:
        return ["tup", [project(y) for y in x]]
    if type(x) is dict:
        return ["dict", [[enc(k) if type(k) is str else "?" + repr(k), project(v)] for k, v in x.items()]]
    if dataclasses.is_dataclass(x):
        return ["obj", type(x).__name__, [[n, project(getattr(x, n))] for n in x.__dataclass_fields__]]
    return ["odd", repr(type(x))]


# ---- types -----------------------------------------------------------------------------

class Types:
    """Builds (and caches) Python types from encoded ones."""

    def __init__(self, log=None):
        self.cache = {}
        self.byname = {}
        self.log = log if log is not None else []

    def build(self, T):
        key = json.dumps(T)
        if key not in self.cache:
            self.cache[key] = self._build(T)
        return self.cache[key]

    def _build(self, T):
        k = T[0]
        if k in ("int", "float", "bool", "str"):
            return {"int": int, "float": float, "bool": bool, "str": str}[k]
        if k == "opt":
            return typing.Optional[self.build(T[1])]
        if k == "list":
            return typing.List[self.build(T[1])]
        if k == "tup":
            return typing.Tuple[tuple(self.build(x) for x in T[1])]
        if k == "dict":
            return typing.Dict[str, self.build(T[1])]
        if k == "enum":
            vs = [(n, raw(v)) for n, v in T[2]]
            # some are strings or integers as well
            kinds = {type(v) for _, v in vs}
            mix = kinds.pop() if len(kinds) == 1 and zlib.crc32(repr(T).encode()) % 3 == 0 else None
            c = enum.Enum(T[1], vs, type=mix) if mix in (str, int) else enum.Enum(T[1], vs)
            self.byname[T[1]] = c
            return c
        if k == "lit":
            return typing.Literal[tuple(raw(x) for x in T[1])]
        if k == "union":
            return typing.Union[tuple(self.build(x) for x in T[1])]
        if k == "st":
            return self.struct(T)
        raise ValueError(T)

    def struct(self, T, bases=(), doc=None):
        _, name, fields, version, rules = T[:5]
        from hyperstate import Versioned
        fs = []
        for fname, ft, kind, default in sorted(fields, key=lambda f: f[2] != "no"):
            pt = self.build(ft)
            if kind == "no":
                fs.append((fname, pt))
            elif kind == "val":
                fs.append((fname, pt, dataclasses.field(default=self.value(ft, default))))
            else:
                fs.append((fname, pt, dataclasses.field(default_factory=lambda ft=ft, d=default: self.value(ft, d))))
        ns = {}
        if doc is not None:
            ns["__doc__"] = doc
        if version >= 0:
            ns["version"] = classmethod(lambda cls: version)
            if rules:
                built = {v: [self.rule(r) for r in rs] for v, rs in rules}
                ns["upgrade_rules"] = classmethod(lambda cls: built)
            bases = (*bases, Versioned)
        c = dataclasses.make_dataclass(name, fs, bases=bases, namespace=ns)
        c.__module__ = "config"
        self.byname[name] = c
        return c

    def value(self, T, v):
        """Encoded value of type T as a Python object."""
        k = v[0]
        if k == "none":
            return None
        if T[0] == "opt":
            return self.value(T[1], v)
        if k == "enum":
            return self.build(T)[v[2]]
        if k == "list":
            return [self.value(T[1], x) for x in v[1]]
        if k == "tup":
            return tuple(self.value(t, x) for t, x in zip(T[1], v[1]))
        if k == "dict":
            return {dec(a): self.value(T[1], b) for a, b in v[1]}
        if k == "obj":
            if T[0] == "union":
                T = [t for t in T[1] if t[1] == v[1]][0]
            ft = {f[0]: f[1] for f in T[2]}
            return self.build(T)(**{a: self.value(ft[a], b) for a, b in v[2]})
        return raw(v)

    # ---- rules

    def rule(self, r):
        from hyperstate.schema import rewrite_rule as rr
        k, p = r[0], tuple(r[1])
        if k == "rename":
            return rr.RenameField(p, tuple(r[2]))
        if k == "delete":
            return rr.DeleteField(p)
        if k == "map":
            return rr.MapFieldValue(p, mapfn(r[2]))
        if k == "chdef":
            return rr.ChangeDefault(p, raw(r[2], True), raw(r[3], True))
        if k == "adddef":
            return rr.AddDefault(p, raw(r[2], True))
        if k == "check":
            return rr.CheckValue(p, {raw(x) for x in r[2]})
        if k == "reject":
            return rr.RejectValues(p, {raw(x) for x in r[2]})
        if k == "custom":
            return custom(rr, p, mapfn(r[2]), r[3], r[4], self.log)
        raise ValueError(r)


def mapfn(fn):
    k = fn[0]

    def plain(x):  # numbers that the specification does not treat as opaque
        return type(x) in (int, float) and num(x)[0] in ("int", "float")
    if k == "inc":
        return lambda x: x + 1 if plain(x) else x
    if k == "dbl":
        return lambda x: 2 * x if plain(x) else x
    if k == "wrap":
        return lambda x: [x]
    if k == "seven":
        return lambda x: 7
    if k == "swap":
        a, b = raw(fn[1]), raw(fn[2])
        return lambda x: b if type(x) is type(a) and x == a else x
    raise ValueError(fn)


def custom(rr, path, fn, ident, style, log):
    """A user defined rule: applies fn to the field at path, in place or on a copy."""

    class Custom(rr.RewriteRule):
        def apply(self, state_dict):
            log.append(ident)
            if style == "new":
                state_dict = dict(state_dict)
            cur = state_dict
            for s in path[:-1]:
                if not isinstance(cur, dict) or not isinstance(cur.get(s), dict):
                    return state_dict
                if style == "new":
                    cur[s] = dict(cur[s])
                cur = cur[s]
            if path[-1] in cur:
                cur[path[-1]] = fn(cur[path[-1]])
            return state_dict

        def apply_to_schema(self, schema):
            pass

    return Custom()


# ---- overrides -------------------------------------------------------------------------

def override(ov):
    path, x = ov
    key = ".".join(path)
    if x[0] == "noval":
        return key
    if x[0] in ("txt", "bad"):
        return f"{key}={dec(x[1])}"
    return f"{key}={ron(x)}"


def workdir(name="w"):
    p = Path(os.environ["HSV_WORK"]) / name
    p.mkdir(parents=True, exist_ok=True)
    return p


def clear(d):
    for p in d.iterdir():
        if p.is_dir() and not p.is_symlink():
            shutil.rmtree(p)
        else:
            p.unlink()
