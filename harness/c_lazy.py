"""C17 - C19: stored objects."""
import json
import lib
from lib import SEED
from c_serde import generate, pick, n

SLOT = lambda at, dep, p: {"at": at, "dep": dep, "cls": "Net", "payload": p}
#: the slots of MCLazy
SLOTS = [SLOT(["top", "net"], "", ["arr", "<f4", [2], 1, "C"]), SLOT(["top", "aux"], "net", ["dict", [[["str", "a"], ["int", 1]]]]),
         SLOT(["list", 0], "", ["int", 3])]


def summary(o):
    return {k: o[k] for k in ("lazy", "sublazy", "slots", "ops")}


def outcomes(o):
    return [f"{a['op']}_{b['r'][0]}" for a, b in zip(o["ops"], o["obs"])]


def model(c, menu, full, maxops, sample):
    """All histories of MCLazy up to maxops operations. All of those with `full` operations are replayed, and a sample of the longest ones."""
    rs = lib.parallel([lambda k=k: lib.tlc("MCLazy", constants={"MaxOps": k, "Menu": menu}, invariants=["Inv", "Emit"], workers=4, heap="6g", timeout=1500)
                       for k in (full, maxops)])
    c.model(rs[1])
    cases = []
    for k in pick(rs[0].printed, 10 ** 6) + pick(rs[1].printed, sample):
        # a state that is not lazy cannot depend on the order in which its objects are restored
        slots = SLOTS if k["lazy"] else [dict(s, dep="") for s in SLOTS]
        cases.append({"k": "lazy", "sublazy": False, "slots": slots, **k})
    return cases


def run(c, mode, full, maxops, sample, rnd):
    cases = (model(c, "pickle" if mode == "pickle" else "lazy", full, maxops, sample) if mode != "payload" else []) + generate("GenLazy", {"Mode": mode}, rnd)
    c.replay("lazy_drv.py", "JudgeLazy", cases, summary=summary, outcome=outcomes)


def lazy(c):
    run(c, "lazy", n(3, 4), n(4, 5), n(1500, 10000), n(3000, 30000))


def payload(c):
    run(c, "payload", 0, 0, 0, n(4000, 40000))


def pickles(c):
    run(c, "pickle", n(3, 4), n(4, 5), n(1500, 10000), n(3000, 30000))
