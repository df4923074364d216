"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "TLA+ specification model checked with TLC; behaviours generated by TLC replayed through the public API, observations judged by TLC against the specification"
BASE = "Holds for every state TLC enumerated and every replayed case. Trusts TLC, the driver's encoding of Python values, and pyron's parsing of the text the driver writes. "
RUN = "Histories of 4-14 operations (start, train, step, save, stop, crash, fault, litter in the directory) on random configs, three kinds of training state, same and distinct file systems (EXDEV injected by an LD_PRELOAD shim). "
C = {
 "C01": (T, BASE + RUN + "Checkpoint.tla: the file operations of a step as transitions with kills and failures, checked against Saved.tla by refinement and liveness; nine wrong protocols must be rejected. " + "MCRuns.tla: every history of a menu of kinds up to a bounded length, enumerated by TLC; the judge must accept all and reject every damaged one; the histories are replayed. " + "Every file system operation of a step is a kill point (torn writes included) in 22 scenarios, and random kill points in random histories. Power loss (unflushed pages) is not modelled."),
 "C02": (T, BASE + RUN + "Checkpoint.tla: the file operations of a step as transitions with kills and failures, checked against Saved.tla by refinement and liveness; nine wrong protocols must be rejected. " + "MCRuns.tla: every history of a menu of kinds up to a bounded length, enumerated by TLC; the judge must accept all and reject every damaged one; the histories are replayed. " + "Every file system operation of a step is made to fail (EIO; disk full from there on) in the scenarios, random faults and raising serializers in random histories."),
 "C03": (T, BASE + RUN + "MCRuns.tla: every history of a menu of kinds up to a bounded length, enumerated by TLC; the judge must accept all and reject every damaged one; the histories are replayed. "),
 "C04": (T, BASE + RUN + "MCRuns.tla: every history of a menu of kinds up to a bounded length, enumerated by TLC; the judge must accept all and reject every damaged one; the histories are replayed. "),
 "C05": (T, BASE + RUN + "Checkpoint.tla: the file operations of a step as transitions with kills and failures, checked against Saved.tla by refinement and liveness; nine wrong protocols must be rejected. " + "MCRuns.tla: every history of a menu of kinds up to a bounded length, enumerated by TLC; the judge must accept all and reject every damaged one; the histories are replayed. "),
 "C06": (T, BASE + RUN + "MCSchedule.tla: a grid of all small schedules with spec invariants, replayed. " + "Linear segments with power-of-two or multiple-of-24 lengths and holds are compared exactly (or to 1e-5), other cosines as between their neighbours."),
 "C07": (T, BASE + RUN + "MCSchedule.tla: a grid of all small schedules with spec invariants, replayed. "),
 "C08": (T, BASE + "Spec invariant RoundTrip over all values and elisions of small classes; dumps of random nested classes and values."),
 "C09": (T, BASE + "Spec invariant Typed over single edits of valid files; all those files and random ones with mistakes loaded through loads, load and StateManager. bool given for int or float is left open."),
 "C10": (T, BASE + "Spec invariant OverrideSets over all single overrides; those and random lists of overrides (valid and not) on random configs, current and old. Bare words for enum fields are left open."),
 "C11": (T, BASE + "Random rule histories with gaps and nested versioned classes; instrumented custom rules must run exactly once and in order. Schemas in lists: see known findings."),
 "C12": (T, BASE + "Spec invariant Preserved: configs of the first version mean, after every history of class evolutions recorded as rules, the translation of their value; histories replayed, plus random rules on random trees."),
 "C13": (T, BASE + "Spec invariants Compat and Valid over all pairs of classes that differ by up to Size edits; those pairs (sampled) and random pairs with random rules, five configs each, loaded under both classes. Two known findings."),
 "C14": (T, BASE + "All classes of the small model and random ones: schema derived, dumped, read back and checked; the schema read back is compared structurally."),
 "C15": (T, BASE + "Chains of up to three class evolutions followed by registering the proposed rules; configs of each version loaded along the chain. Known findings list the patterns whose proposed rules do not preserve meaning."),
 "C16": (T, BASE + "Spec invariant Kept over all sequences of two (thorough: three) tool commands on two configs and a schema file; those (sampled) and random directories, with schedules evaluated at seven keys and failing or full file systems."),
 "C17": (T, BASE + "Spec invariants (contents stick, snapshots complete, read once) over all histories of three slots up to 4 (thorough 5) operations after a restart; those (sampled) and random histories replayed. Deserialization is observed through the objects, not through system calls."),
 "C18": (T, BASE + "Random payloads (16 dtypes, 12 shapes, 8 memory layouts, nested lists and dicts with keys of any scalar type, 64 bit integers) in random slots over several rounds. torch is not installed, tensors of torch are not covered."),
 "C19": (T, BASE + "Booby trapped pickles behind both legacy markers and in place of the current format, at every kind of field, histories with the opt-in switched on and off."),
 "C20": (T, BASE + RUN + "Spec invariants (Sound, Compose, Untouched) over all starts of two programs with up to two (thorough: three) overrides; those (sampled) and random programs, files, overrides, information requests; histories of runs started from the command line with and without a checkpoint directory. Messages are searched for the name or value of the offending field, their wording is not judged."),
 "C21": (T, BASE + "Spec invariants (Once, Below, Settable) over all classes of a small grammar; those and random documented, inheriting classes listed in full and queried by every field name. The layout of the lines is taken apart by the driver, types are compared by the words in them."),
}
LEVEL = {}
NA = []
checks = []
for pid in sorted(C):
    t, note = C[pid]
    checks.append({"property": pid, "quick_cmd": f"VERIF_TIER=quick python3 harness/check.py {pid}",
                   "thorough_cmd": f"VERIF_TIER=thorough python3 harness/check.py {pid}",
                   "technique": t, "level": LEVEL.get(pid, "model_checking"), "level_note": note})
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for p in props:
    if p not in C and p not in [x["property"] for x in NA]:
        NA.append({"property": p, "reason": "not covered yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NA,
           "notes": "Specification language: TLA+ (spec/), checked with TLC. harness/check.py runs one check; drivers/ run the code under PyPy."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
