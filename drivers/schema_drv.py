"""Schemas of generated classes: dumped, loaded, compared with later classes, mitigations applied."""
import contextlib, dataclasses, enum, io, json, re, sys
import hs
import hyperstate
from hyperstate import schema_evolution_cli
from hyperstate.schema import types as st, schema_change as sc, rewrite_rule as rr
from hyperstate.schema.schema_checker import SchemaChecker

N = [0]


def path(ext="ron"):
    N[0] += 1
    return hs.workdir() / f"s{N[0]}.{ext}"


def cli(clz, *args):
    """Runs the command line tool in this process; ["ok", output] or ["err", ...]"""
    old = sys.argv
    out = io.StringIO()
    sys.argv = ["schema", *map(str, args)]
    code = [None]

    def go():
        try:
            with contextlib.redirect_stdout(out):
                schema_evolution_cli(clz)
        except SystemExit as e:
            code[0] = e.code
        return None
    try:
        r = hs.attempt(go)
    finally:
        sys.argv = old
    if r[0] != "ok":
        return r
    if code[0] not in (0, None):
        return ["err", "exit", str(code[0])]
    return ["ok", re.sub(r"\x1b\[[0-9;]*m", "", out.getvalue())]


from schema_codec import byrepr, etype, plain


def erule(r, changes):
    """A proposed rule as a rule of the specification"""
    if isinstance(r, rr.RenameField):
        return ["rename", list(r.old_field), list(r.new_field)]
    if isinstance(r, rr.DeleteField):
        return ["delete", list(r.field)]
    if isinstance(r, rr.ChangeDefault):
        return ["chdef", list(r.field), plain(r.old_default), plain(r.new_default)]
    if isinstance(r, rr.AddDefault):
        return ["adddef", list(r.field), plain(r.default)]
    if isinstance(r, rr.CheckValue):
        return ["check", list(r.field), byrepr(r.allowed_values)]
    if isinstance(r, rr.RejectValues):
        return ["reject", list(r.field), byrepr(r.disallowed_values)]
    if isinstance(r, rr.MapFieldValue):
        for c in changes:
            if isinstance(c, sc.EnumVariantValueChanged) and repr(c.old_value) in str(r.rendered) and tuple(c.field) == tuple(r.field):
                return ["map", list(r.field), ["swap", hs.tree(c.old_value), hs.tree(c.new_value)]]
        return ["map", list(r.field), ["other", str(r.rendered)]]
    return ["odd", repr(r), []]


NS = {k: getattr(rr, k) for k in ("RenameField", "DeleteField", "MapFieldValue", "ChangeDefault", "AddDefault", "CheckValue", "RejectValues")}
NS["inf"] = float("inf")
NS["nan"] = float("nan")


def as_text(r):
    """The rule as a developer would copy it from the report; the rule itself if it is not a Python expression."""
    if isinstance(r, rr.MapFieldValue):
        return rr.MapFieldValue(r.field, eval(r.rendered, dict(NS)), r.rendered)
    try:
        return eval(repr(r), dict(NS))
    except Exception:
        return r


# ---- classes

def fresh(T, extra=None):
    """A class for T, sharing no Python objects with other classes. extra: {version: [rules]}"""
    ts = hs.Types()
    clz = ts.build(T)
    if extra:
        base = clz.upgrade_rules()
        rules = {v: list(base.get(v, [])) + list(extra.get(v, [])) for v in {*base, *extra}}
        clz.upgrade_rules = classmethod(lambda c: rules)
    return clz


def dump(clz):
    f = path("schema.ron")
    r = cli(clz, "dump-schema", f)
    if r[0] != "ok":
        raise RuntimeError(f"dump-schema: {r}")
    return f


def check(f, clz):
    """What the checker says, as an object and on the command line"""
    def go():
        old = st.load_schema(str(f))
        c = SchemaChecker(old, clz)
        return c
    r = hs.attempt(go)
    out = cli(clz, "check-schema", f)
    if r[0] != "ok":
        return None, {"sev": "raised", "what": r[1:], "report": out[0] if out[0] == "err" else verdict(out[1]), "changes": [], "lines": []}
    c = r[1]
    chs = [[type(x).__name__, list(x.field), x.severity().name] for x in c.changes]
    rep = verdict(out[1]) if out[0] == "ok" else "err"
    return c, {"sev": c.severity().name, "what": [], "report": rep, "changes": chs, "lines": lines(out[1]) if out[0] == "ok" else []}


def verdict(text):
    a, b = "Schema compatible" in text, "Schema incompatible" in text
    return "compatible" if a and not b else "incompatible" if b and not a else "unclear"


def lines(text):
    """Severities of the reported changes"""
    return [{"info ": "INFO", "warn ": "WARN", "error": "ERROR"}[m[1]]
            for m in re.finditer(r"^(info |warn |error) (?!schema changed but version)", text, re.M)]


def load(clz, tree):
    text = hs.ron(tree)
    return hs.attempt(lambda: hs.project(hyperstate.loads(clz, text)))


def same(case):
    T = case["t"]
    f = dump(fresh(T))
    loaded = hs.attempt(lambda: etype(st.load_schema(str(f))))
    derived = hs.attempt(lambda: etype(st.materialize_type(fresh(T))))
    clz = fresh(T)
    _, rep = check(f, clz)
    before = f.read_text()
    up = cli(clz, "upgrade-schema", f)
    after = f.read_text()
    return {**case, "loaded": loaded, "derived": derived, "rep": rep, "up": up[0], "stable": before == after}


def pair(case):
    T, U = case["t"], case["u"]
    f = dump(fresh(T))
    clz = fresh(U)
    _, rep = check(f, clz)
    old = fresh(T)
    return {**case, "rep": rep, "olds": [load(old, t) for t in case["trees"]], "news": [load(clz, t) for t in case["trees"]]}


def chain(case):
    ts = case["ts"]
    extra = {}
    T = ts[0]
    steps = []
    clz = fresh(T)
    # loads[i][j]: what the trees of class j mean to class i
    loads = [[[load(clz, t) for t in case["trees"][0]]]]
    classes = [T]
    for i in range(1, len(ts)):
        f = dump(fresh(classes[-1], extra))
        k = classes[-1][3]
        U = [*ts[i][:3], k, []]
        c, rep = check(f, fresh(U, extra))
        step = {"rep": rep, "rules": [], "again": rep, "texts": "none", "k": k}
        if c is None or c.severity() == sc.Severity.ERROR:
            steps.append(step)
            break
        if c.severity() == sc.Severity.WARN:
            props = list(c.proposed_fixes)
            step["rules"] = [erule(r, c.changes) for r in props]
            U = [*U[:3], k + 1, []]
            texts = [as_text(r) for r in props]
            if case.get("text"):
                props = texts
                step["texts"] = "text"
            extra = {**extra, k: [*extra.get(k, []), *props]}
            _, step["again"] = check(f, fresh(U, extra))
        steps.append(step)
        classes.append(U)
        clz = fresh(U, extra)
        row = [[load(clz, t) for t in case["trees"][j]] for j in range(i)]
        if i < len(case["trees"]):
            # configs of this class say which version they are of
            new = [restamp(t, U[3]) for t in case["trees"][i]]
            case["trees"][i] = new
            row.append([load(clz, t) for t in new])
        loads.append(row)
    return {**case, "steps": steps, "loads": loads, "classes": classes}


def restamp(t, v):
    ps = t[2] if t[0] == "obj" else t[1]
    ps = [[a, ["int", v] if a == "version" else b] for a, b in ps]
    return [t[0], t[1], ps] if t[0] == "obj" else [t[0], ps]


def handle(case):
    try:
        return {"same": same, "pair": pair, "chain": chain}[case["k"]](case)
    finally:
        hs.clear(hs.workdir())


hs.run(handle)
