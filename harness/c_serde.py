"""C08 - C12: serialization, overrides and upgrades."""
import json, random
import lib
from lib import THOROUGH, SEED


def generate(module, constants, n, jobs=4):
    """n cases printed by random walks of a generator module."""
    per = -(-n // jobs)
    rs = lib.parallel([lambda i=i: lib.tlc(module, constants=constants, simulate=1, depth=per, seed=SEED * 1000 + i, timeout=1500)
                       for i in range(jobs)])
    return lib.dedupe([json.loads(x) for r in rs for x in r.printed])


def pick(xs, n):
    xs = sorted(set(xs))
    random.Random(SEED).shuffle(xs)
    return [json.loads(x) for x in xs[:n]]


def spread(xs, n, key):
    """n of the cases, taken from the groups with the same key in turn."""
    xs = pick(xs, None)
    groups = {}
    for x in xs:
        groups.setdefault(json.dumps(key(x)), []).append(x)
    out = []
    while len(out) < min(n, len(xs)):
        for g in groups.values():
            if g and len(out) < n:
                out.append(g.pop())
    return out


def summary(o):
    keep = {k: o[k] for k in ("k", "text", "ovtext", "via", "ign", "elide", "r", "d", "back", "applied") if k in o}
    keep["case"] = {k: o[k] for k in ("t", "tree", "ovs", "v") if k in o}
    return keep


def replay(c, cases):
    return c.replay("serde_drv.py", "JudgeSerde", cases, summary=summary, outcome=lambda o: [(o.get("r") or o.get("d"))[0]])


def n(quick, thorough):
    return thorough if THOROUGH else quick


def mc_serde(c, inv, emit):
    r = c.model(lib.tlc("MCSerde", constants={"Size": n(1, 2)}, invariants=[inv, emit], workers=4, heap="6g", timeout=1500))
    return r.printed


def mc_upgrade(c):
    # two steps of evolution are replayed; the thorough tier model checks three
    jobs = [lambda: lib.tlc("MCUpgrade", constants={"MaxVersion": n(1, 2)}, invariants=["Preserved", "Emit"], workers=4, heap="4g", timeout=1500)]
    if THOROUGH:
        jobs.append(lambda: lib.tlc("MCUpgrade", constants={"MaxVersion": 3}, invariants=["Preserved"], workers=4, heap="8g", timeout=1700))
    rs = lib.parallel(jobs)
    c.models(rs)
    return rs[0].printed


def dumps(c):
    printed = mc_serde(c, "RoundTrip", "EmitDump")
    cases = pick(printed, 100000) + generate("GenSerde", {"Mode": "dump"}, n(1500, 20000))
    replay(c, cases)


def loads(c):
    import c_run
    printed = mc_serde(c, "Typed", "EmitLoad")
    cases = pick(printed, n(1500, 30000)) + generate("GenSerde", {"Mode": "load"}, n(1800, 20000))
    replay(c, cases)
    c_run.evolving(c, "foreign", 400, 5000, "start:")


def overrides(c):
    import c_run
    printed = mc_serde(c, "OverrideSets", "EmitOverride")
    cases = pick(printed, n(1200, 30000)) + generate("GenSerde", {"Mode": "override"}, n(1500, 15000)) \
        + generate("GenUpgrade", {"Mode": "override"}, n(500, 6000))
    replay(c, cases)
    c_run.evolving(c, "evolve", 400, 5000, "start:")


def order(c):
    import c_run
    printed = mc_upgrade(c)
    cases = pick(printed, n(500, 5000)) + generate("GenUpgrade", {"Mode": "order"}, n(1200, 15000))
    replay(c, cases)
    c_run.evolving(c, "evolve", 300, 5000)


def rules(c):
    import c_run
    printed = mc_upgrade(c)
    cases = pick(printed, n(1500, 20000)) + generate("GenUpgrade", {"Mode": "rules"}, n(1500, 15000))
    replay(c, cases)
    c_run.evolving(c, "evolve", 300, 5000)
