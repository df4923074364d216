"""C13 - C15: schema evolution."""
import lib
from c_serde import generate, pick, n, spread


def summary(o):
    keep = {k: o[k] for k in ("k", "t", "u", "ts", "trees", "rep", "news", "loads", "up", "stable", "loaded", "derived") if k in o}
    keep["steps"] = [{"changes": s["rep"]["changes"], "rules": s["rules"], "again": s["again"]["changes"]} for s in o.get("steps", [])]
    return keep


def outcome(o):
    return [(o.get("rep") or o["steps"][0]["rep"])["sev"]]


def model(c, emit):
    r = c.model(lib.tlc("MCSchema", constants={"Size": n(1, 2)}, invariants=["Compat", "Valid", "Reflexive", emit], workers=8, heap="8g", timeout=1700))
    return r.printed


def run(c, cases):
    c.replay("schema_drv.py", "JudgeSchema", cases, summary=summary, outcome=outcome, timeout=3000)
    c.replay_findings("schema_drv.py", "JudgeSchema", summary)


def field(T):
    """The type of the field k."""
    if isinstance(T, list):
        if len(T) == 4 and T[0] == "k":
            return T[1]
        for x in T:
            f = field(x)
            if f:
                return f


def types(case):
    """The types that the field that differs has in both classes."""
    a, b = case.get("ts") or (case["t"], case["u"])
    return [field(a), field(b)]


def compatible(c):
    run(c, spread(model(c, "Emit"), n(3000, 60000), types) + generate("GenSchema", {"Mode": "pair"}, n(1500, 40000)))


def clean(c):
    run(c, pick(model(c, "EmitSame"), 10000) + generate("GenSchema", {"Mode": "same"}, n(1500, 40000)))


def mitigations(c):
    run(c, spread(model(c, "EmitChain"), n(1800, 40000), types) + generate("GenSchema", {"Mode": "chain"}, n(1500, 30000)))
