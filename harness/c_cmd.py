"""C20: programs started from the command line."""
import lib, c_run
from c_serde import generate, n, pick


def summary(o):
    return {k: o[k] for k in ("t", "stateful", "file", "resume", "argv", "ovs", "info", "calls", "end", "names", "out") if k in o}


def command(c):
    r = c.model(lib.tlc("MCCommand", constants={"Size": n(2, 3)}, invariants=["Sound", "Compose", "Untouched", "Emit"], workers=8, heap="8g", timeout=1700))
    cases = pick(r.printed, n(1500, 20000)) + generate("GenCommand", {}, n(2500, 30000))
    c.replay("cmd_drv.py", "JudgeCommand", cases, summary=summary, outcome=lambda o: ["_".join(str(x) for x in o["end"])])
    # whole histories of runs, each started from the command line
    c_run.replay(c, generate("GenRun", {"Mode": "cli"}, n(400, 6000)))
