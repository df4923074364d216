"""python3 harness/check.py <property id>: decides one property for the code in /repo."""
import sys, traceback
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
import lib, c_cmd, c_help, c_lazy, c_run, c_schema, c_serde, c_tool

CHECKS = {
    "C01": c_run.crash,
    "C02": c_run.fail,
    "C03": c_run.restart,
    "C04": c_run.start,
    "C05": c_run.retain,
    "C06": c_run.schedule,
    "C07": c_run.survive,
    "C08": c_serde.dumps,
    "C09": c_serde.loads,
    "C10": c_serde.overrides,
    "C11": c_serde.order,
    "C12": c_serde.rules,
    "C13": c_schema.compatible,
    "C14": c_schema.clean,
    "C15": c_schema.mitigations,
    "C16": c_tool.tool,
    "C17": c_lazy.lazy,
    "C18": c_lazy.payload,
    "C19": c_lazy.pickles,
    "C20": c_cmd.command,
    "C21": c_help.help,
}


def main():
    pid = sys.argv[1]
    c = lib.Check(pid)
    try:
        CHECKS[pid](c)
    except lib.MachineryError as e:
        print(f"ERROR property={pid}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return c.finish()


sys.exit(main())
