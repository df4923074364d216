"""C21: help about config classes."""
import lib
from c_serde import generate, n, pick


def summary(o):
    return {k: o[k] for k in ("t", "docs", "inherit", "r", "all", "qs") if k in o}


def help(c):
    r = c.model(lib.tlc("MCHelp", constants={"Size": n(1, 2)}, invariants=["Once", "Placed", "Settable", "Emit"], workers=8, heap="8g", timeout=1700))
    cases = pick(r.printed, n(600, 10000)) + generate("GenHelp", {}, n(2500, 40000))
    c.replay("help_drv.py", "JudgeHelp", cases, summary=summary, outcome=lambda o: [o["r"][0]])
