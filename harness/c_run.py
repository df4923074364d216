"""C01 - C07: training runs."""
import json, random, subprocess
import lib
from lib import SEED, THOROUGH, VERIF
from c_serde import generate, n, pick

SHIM = VERIF / "build" / "crash.so"


def shim():
    """The library that numbers, fails and kills at file system operations."""
    src = VERIF / "shim" / "crash.c"
    if not SHIM.exists() or SHIM.stat().st_mtime < src.stat().st_mtime:
        SHIM.parent.mkdir(exist_ok=True)
        tmp = lib.scratch() / "crash.so"
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", str(tmp), str(src), "-ldl"], check=True)
        SHIM.write_bytes(tmp.read_bytes())
    return {"LD_PRELOAD": str(SHIM)}


def summary(o):
    s = {k: o[k] for k in ("sk", "cross", "blind", "t", "file") if k in o}
    s["history"] = [[a, b["r"]] for a, b in zip(o["ops"], o["obs"])] if "obs" in o else o["ops"]
    if "obs" in o:
        s["last"] = o["obs"][-1]
    return s


def outcome(o):
    return [f"{a['op']}_{b['r'][0]}" for a, b in zip(o["ops"], o["obs"])]


def replay(c, cases, keep=None):
    return c.replay("run_drv.py", "JudgeRun", cases, summary=summary, keep=keep, env=shim(), outcome=outcome)


# ---- every point at which a step can be interrupted -------------------------------------

SIMPLE = ["st", "R", [["k", ["int"], "no", ["none"]], ["lr", ["float"], "val", ["float", 8]]], -1, []]


def scenarios():
    sched = ["sched", "step", [[["float", 80], 0], [["float", 8], 16]], ["lin"], 0]
    for sk in ("plain", "lazy", "eager"):
        for cross in (False, True):
            for pre in ([], [["step", 1]], [["step", 1], ["step", 2]], [["step", 1], ["fail", 1]], [["step", 1], ["start", 0], ["step", 1], ["litter", 0]]):
                if not THOROUGH and len(pre) in (2, 4) and sk != "lazy":
                    continue
                start = {"op": "start", "dir": True, "init": "file", "ovs": []}
                ops = [start]
                for k, d in pre:
                    if k == "fail":
                        ops.append({"op": "fail", "d": d, "at": 3, "errno": "EIO", "also": []})
                    elif k == "start":
                        ops.append(start)
                    elif k == "litter":
                        ops.append({"op": "litter", "what": ["copy", "latest-step000000000950.123e4567-e89b-12d3-a456-426614174000.tmp"]})
                    else:
                        ops.append({"op": "step", "d": d})
                # keys reach 13 digits with the last step
                base = 10 ** 6 if sk == "plain" and pre == [["step", 1]] else 0
                yield {"k": "run", "t": SIMPLE, "sk": sk, "cross": cross, "ckey": "tok" if base else "step", "base": base, "blind": False, "ops": ops,
                       "file": ["dict", [["k", ["int", 2]], ["lr", sched]]]}


def sweep(c, kind, more):
    """One case per scenario and file system operation of its last step."""
    base = list(scenarios())
    probe = [{**b, "ops": b["ops"] + [{"op": "kill", "d": 2, "at": 10 ** 6, "also": []}]} for b in base]
    seen = lib.driver("run_drv.py", probe, shards=8, env=shim())
    cases = []
    for b, o in zip(base, seen):
        r = o["obs"][-1]["r"] if "obs" in o else ["broken"]
        if r[0] != "completed":
            cases.append({**b, "ops": b["ops"] + [{"op": "kill", "d": 2, "at": 10 ** 6, "also": []}]})     # judged below
            continue
        c.count("interruption_points", r[1])
        for at in range(1, r[1] + 2):
            for op in kind(at, r[2].split()):
                cases.append({**b, "ops": b["ops"] + [op] + more})
    return cases


def histories(c, menu, quick, thorough, sample):
    """A sample of the histories of MCRuns, with the points of interruption and the kind of state left to chance."""
    r = c.model(lib.tlc("MCRuns", constants={"Menu": menu, "MaxOps": n(quick, thorough)}, invariants=["Inv", "Emit"], properties=["Kept"],
                        workers=4, heap="6g", timeout=1500))
    rnd = random.Random(SEED)
    cases = []
    for ops in pick(r.printed, sample):
        kinds = ["lazy", "eager"] if any(o["op"] == "serfail" for o in ops) else ["plain", "lazy", "eager"]
        for o in ops:
            if o["op"] in ("kill", "fail", "full"):
                o.update(at=rnd.randint(1, 55), also=[], errno="ENOSPC" if o["op"] == "full" else rnd.choice(["EIO", "EACCES", "EXDEV", "EDQUOT"]))
            elif o["op"] == "serfail":
                o["which"] = "net"
        if menu == "start" and rnd.random() < .3:     # a second checkpoint that is named like an automatic one
            i = rnd.randint(1, len(ops))
            ops = ops[:i] + [{"op": "train", "d": 1}, {"op": "save", "name": "ck/latest-@"}] + ops[i:] + [START]
        # some runs have checkpoint keys that grow beyond twelve digits
        base = rnd.choice([0, 0, 0, 0, 10 ** 6, 10 ** 6 + 1])
        cases.append({"k": "run", "t": SIMPLE, "sk": rnd.choice(kinds), "cross": rnd.random() < .5, "ckey": "tok" if base else "step", "base": base,
                      "blind": rnd.random() < .3, "ops": ops, "file": FILE})
    c.count("histories_of_the_model", len(set(r.printed)))
    return cases


# of the model MCRuns
FILE = ["dict", [["k", ["int", 2]], ["lr", ["sched", "step", [[["float", 80], 0], [["float", 40], 4], [["float", 8], 8]], ["step", "step"], 0]]]]
START = {"op": "start", "dir": True, "init": "file", "ovs": []}
STEP = {"op": "step", "d": 1}
AGAIN = {"op": "step", "d": 0}


BAD = {"C01": [("delete-first", False), ("in-place", False), ("copy-in-place", True), ("state-late", False), ("finds-copies", True)],
       "C02": [("swallows", False), ("cleans-all", True), ("delete-first", True)],
       "C05": [("last-early", False), ("drops-current", False)]}


def design(c):
    """The file operations of a step, as a model: it refines the intended steps, and designs known to be wrong are rejected."""
    def check(variant, cross, keys, faults):
        return lib.tlc("Checkpoint", spec="Fair", constants={"MaxKey": keys, "MaxFaults": faults, "Cross": cross, "Variant": variant},
                       invariants=["Inv"], properties=["Refines", "Ends", "Restarts"], workers=2, heap="4g", timeout=1700,
                       ok_codes=(0,) if variant == "good" else None)
    jobs = [lambda cross=cross: check("good", cross, n(3, 4), n(2, 3)) for cross in (False, True)]
    rs = lib.parallel(jobs + [lambda b=b: check(*b, 3, 2) for b in BAD[c.pid]])
    c.models(rs[:2])
    for b, r in zip(BAD[c.pid], rs[2:]):
        if r.rc not in (12, 13):
            raise lib.MachineryError(f"the design {b} is not rejected")
        c.count("wrong_designs_rejected")


def after(op):
    def keep(clause, o):
        """Whether the history has such an operation before, or at, the failed one."""
        for a, b in zip(o["ops"], o["obs"]):
            if a["op"] in op and b["r"][0] != "completed":
                return True
        return False
    return keep


def crash(c):
    design(c)
    cases = sweep(c, lambda at, names: [{"op": "kill", "d": 2, "at": at, "also": []}], [START, STEP, START])
    cases += histories(c, "crash", 6, 7, n(400, 6000))
    cases += generate("GenRun", {"Mode": "crash"}, n(500, 8000))
    replay(c, cases, keep=after(("kill",)))


def fail(c):
    design(c)
    def kinds(at, names):
        faults = [("fail", "EIO", []), ("full", "ENOSPC", [])]
        if THOROUGH:
            faults += [("fail", e, []) for e in ("EACCES", "EMFILE", "ENOSPC", "EINTR", "EEXIST")]
        # refused renames, then another fault on the way around them
        if at <= len(names) and names[at - 1] in ("rename", "link"):
            for e in ("EXDEV", "EPERM", "ENOTEMPTY", "EEXIST", "EACCES", "EBUSY"):
                faults.append(("fail", e, []))
                for j in range(1, 24):
                    if THOROUGH or e == "EXDEV" or (SEED + j + len(e)) % 4 == 0:
                        faults += [("fail", e, [[k, at + j, x]]) for k, x in (("fail", "EIO"), ("full", "ENOSPC")) if THOROUGH or (j + len(k)) % 2]
        return [{"op": k, "d": 2, "at": at, "errno": e, "also": more} for k, e, more in faults]
    cases = sweep(c, kinds, [STEP, START])
    if THOROUGH:
        cases += sweep(c, kinds, [AGAIN, STEP, START])
        cases += sweep(c, kinds, [START, AGAIN, STEP, START])
    cases += histories(c, "fail", 4, 5, n(400, 6000))
    cases += generate("GenRun", {"Mode": "fail"}, n(500, 8000))
    replay(c, cases, keep=after(("fail", "full", "serfail")))


CONTENT = {"step:wrong-content", "save:wrong-content", "start:start-config", "start:start-state", "start:start-fails", "start:start-no-config",
           "start:start-no-state", "step:config", "step:state", "step:no-config", "step:no-state", "step:step-fails"}


def evolving(c, mode, quick, thorough, only=None):
    """Runs whose config class changes between restarts, or whose files have fields that it does not know."""
    replay(c, generate("GenEvolve", {"Mode": mode}, n(quick, thorough)),
           keep=lambda cl, o: (cl in CONTENT or cl == "start:start-accepts-invalid") and (only is None or cl.startswith(only)))


def restart(c):
    cases = histories(c, "restart", 4, 6, n(600, 6000))
    cases += generate("GenRun", {"Mode": "restart"}, n(1200, 12000))
    replay(c, cases, keep=lambda cl, o: cl in CONTENT)


def start(c):
    cases = histories(c, "start", 4, 5, n(600, 6000))
    cases += generate("GenRun", {"Mode": "start"}, n(1200, 12000))
    replay(c, cases, keep=lambda cl, o: cl.startswith("start:") or cl in CONTENT)
    evolving(c, "evolve", 300, 5000)
    evolving(c, "foreign", 200, 3000)


def retain(c):
    design(c)
    cases = histories(c, "retain", 4, 5, n(600, 6000))
    cases += generate("GenRun", {"Mode": "retain"}, n(1200, 12000))
    replay(c, cases, keep=lambda cl, o: cl not in CONTENT or cl == "step:step-fails")


def grid(c, sample, survive):
    """Schedules of MCSchedule, several per run: followed through steps and a restart, for C07 also replaced by overrides."""
    r = c.model(lib.tlc("MCSchedule", constants={"MaxPoints": 3, "MaxX": n(6, 8)}, invariants=["Inv", "Emit"], workers=4, heap="6g", timeout=1500))
    c.count("schedules_of_the_model", len(set(r.printed)))
    rnd = random.Random(SEED)
    scheds = pick(r.printed, sample)
    for s in scheds:
        s[4] = rnd.randint(0, 7)
    step = {"op": "step", "d": 1}
    cases = []
    for i in range(0, len(scheds) - 11, 12):
        group = scheds[i:i + 12]
        fields, tree = [["k", ["int"], "no", ["none"]]], [["k", ["int", 2]]]
        for j, s in enumerate(group):
            fields.append([f"f{j}", ["float"] if j % 3 else ["int"], "no", ["none"]])
            tree.append([f"f{j}", s if not survive or j % 2 else ["int", j]])
        if survive:
            ovs = [[[f"f{j}"], group[j] if j % 2 == 0 else ["int", 7] if j % 3 == 0 else ["float", 20]] for j in range(12) if rnd.random() < .5]
            again = {**START, "ovs": [[[f"f{j}"], rnd.choice([group[(j + 1) % 12], ["int", 9]])] for j in range(12) if rnd.random() < .2]}
            ops = [{**START, "ovs": ovs if rnd.random() < .5 else []}, step, {**START, "ovs": ovs}, step, START, step, again, step, step, START, step, step]
        else:
            ops = [START] + [step] * 2 + [START] * (i // 12 % 2) + [step] * (n(6, 8) // 2)
        cases.append({"k": "run", "t": ["st", "R", fields, -1, []], "sk": "plain", "cross": False, "ckey": "step", "blind": False, "ops": ops, "file": ["dict", tree]})
    return cases


def schedule(c):
    cases = grid(c, n(3000, 36000), False)
    cases += generate("GenRun", {"Mode": "schedule"}, n(1000, 10000))
    replay(c, cases, keep=lambda cl, o: cl in CONTENT)


def survive(c):
    cases = grid(c, n(3000, 36000), True)
    cases += generate("GenRun", {"Mode": "schedule"}, n(1000, 10000))
    replay(c, cases, keep=lambda cl, o: cl in CONTENT)
    evolving(c, "evolve", 800, 10000)
