"""C16: the schema evolution tool."""
import lib
from c_run import shim
from c_serde import generate, n, pick


def summary(o):
    s = {k: o[k] for k in ("t", "sched", "files", "schema") if k in o}
    s["history"] = [[a, b["r"], b["schema"]["sev"], b["again"]] for a, b in zip(o["ops"], o["obs"][1:])] if "obs" in o else o["ops"]
    return s


def outcome(o):
    return [f"{a['op']}_{b['r'][0]}" + ("_faulted" if b["hits"] else "") for a, b in zip(o["ops"], o["obs"][1:])]


def tool(c):
    r = c.model(lib.tlc("MCTool", constants={"Depth": 2}, invariants=["Kept", "Emit"], workers=8, heap="8g", timeout=1700))
    if lib.THOROUGH:
        c.model(lib.tlc("MCTool", constants={"Depth": 3}, invariants=["Kept"], workers=8, heap="12g", timeout=1700))
    cases = pick(r.printed, n(500, 12000)) + generate("GenTool", {}, n(900, 12000))
    c.replay("tool_drv.py", "JudgeTool", cases, summary=summary, outcome=outcome, env=shim(), timeout=3000)
