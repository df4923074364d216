"""Asks for help about config classes, and takes apart what is printed."""
import contextlib, io, math, re
import hs
import hyperstate
from dataclasses import make_dataclass, field


def docstring(style, fs):
    fs = [(f, d) for f, d in fs if d]
    if not fs:
        return None
    if style == 0:
        return "Settings.\n\n" + "\n".join(f":param {f}: {d}" for f, d in fs)
    if style == 1:
        return "Settings.\n\nArgs:\n" + "\n".join(f"    {f}: {d}" for f, d in fs)
    return "Settings.\n\nParameters\n----------\n" + "\n".join(f"{f}\n    {d}" for f, d in fs)


class Types(hs.Types):
    """Types with documentation and inherited fields."""
    def __init__(self, case):
        super().__init__()
        self.case = case
        self.docs = {c: fs for c, fs in case["docs"]}
        self.inherit = dict(map(tuple, case["inherit"]))

    def struct(self, T):
        _, name, fields, version, rules = T[:5]
        fields = sorted(fields, key=lambda f: f[2] != "no")
        docs = self.docs.get(name, [])
        n = self.inherit.get(name, 0)
        bases = ()
        if n:
            bases = (super().struct(["st", name + "Base", fields[:n], -1, []], doc=docstring((self.case["style"] + n) % 3, [(f, b) for f, b, _ in docs])),)
        return super().struct(["st", name, fields[n:], version, rules], bases=bases, doc=docstring(self.case["style"], [(f, o) for f, _, o in docs]))


def cut(s, mark):
    """Splits at the first mark that is outside of brackets and quotes."""
    depth, quote, i = 0, None, 0
    while i < len(s):
        c = s[i]
        if quote:
            if c == "\\":
                i += 1
            elif c == quote:
                quote = None
        elif c in "\"'":
            quote = c
        elif c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
        elif depth == 0 and s.startswith(mark, i):
            return s[:i], s[i + len(mark):]
        i += 1
    return s, None


def literals(T):
    if isinstance(T, list):
        if T and T[0] == "lit":
            yield from T[1]
        else:
            for x in T:
                yield from literals(x)


def parse(out, ts, lits):
    """Lines as (depth, names, words of the type, literals, default, doc)."""
    res = []
    stack = []
    for line in out.splitlines():
        m = re.match(r"( *)([\w.]+): (.*)$", line)
        if not m:
            continue
        depth = len(m[1]) // 2
        rest, doc = cut(m[3], "  # ")
        ty, default = cut(rest, " = ")
        if default is not None:
            default = default.strip()
            for c in ts.byname.values():
                if hasattr(c, "__members__"):
                    for x in c.__members__.values():
                        default = default.replace(repr(x), f"{c.__name__}.{x.name}")
            try:
                default = hs.project(eval(default, {"inf": math.inf, "nan": math.nan, **ts.byname}))
            except Exception:
                default = ["unreadable", hs.enc(default)]
        stack = stack[:depth] + [m[2]]
        res.append({"path": ".".join(stack).split("."), "words": re.findall(r"\w+", ty), "lits": [x for x in lits if repr(hs.raw(x)) in ty],
                    "default": [] if default is None else [default], "doc": doc or ""})
    return res


def ask(clz, *q):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        hyperstate.help(clz, *q)
    return re.sub(r"\x1b\[[0-9;]*m", "", out.getvalue())


def names(T):
    """Names of all fields of sections."""
    while T[0] in ("opt", "list"):
        T = T[1]
    if T[0] == "st":
        for f in T[2]:
            yield f[0]
            yield from names(f[1])


def handle(case):
    ts = Types(case)
    clz = ts.build(case["t"])
    lits = []
    for x in literals(case["t"]):
        if x not in lits:
            lits.append(x)
    r = hs.attempt(lambda: [parse(ask(clz), ts, lits), [[q, parse(ask(clz, q), ts, lits)] for q in sorted(set(names(case["t"])))]])
    if r[0] != "ok":
        return {**case, "r": r, "all": [], "qs": []}
    return {**case, "r": ["ok"], "all": r[1][0], "qs": r[1][1]}


hs.run(handle)
