"""Runs the check of every planted bug's property on a scratch copy of /repo with the bug (VERIF_REPO). Usage: seeds.py [ID prefix...] [--all]"""
import json, os, shutil, subprocess, sys, tempfile, time
from pathlib import Path
V = Path(__file__).resolve().parent.parent
args = [a for a in sys.argv[1:] if not a.startswith("-")]
ids = sorted(p.name for p in (V / "seeded").iterdir() if not args or any(p.name.startswith(a) for a in args))
claimed = {c["property"] for c in json.load(open(V / "MANIFEST.json"))["checks"]}
base = Path(tempfile.mkdtemp(prefix="seedrun-"))
try:
    for i in ids:
        prop = json.load(open(V / "seeded" / i / "meta.json"))["property"]
        w = base / "w"
        if w.exists():
            shutil.rmtree(w)
        shutil.copytree("/repo", w, symlinks=True)
        if subprocess.run(["git", "apply", str(V / "seeded" / i / "patch.diff")], cwd=w, capture_output=True).returncode:
            print("STALE  " + i, flush=True)
            continue
        for p in (sorted(claimed) if "--all" in sys.argv else [prop] if prop in claimed else []):
            t = time.time()
            r = subprocess.run([sys.executable, str(V / "harness" / "check.py"), p], cwd=V, capture_output=True, text=True,
                               env={**os.environ, "VERIF_REPO": str(w), "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            clauses = " ".join(l.strip().replace("failed clause ", "").replace(" case(s)", "") for l in r.stdout.splitlines() if "failed clause" in l)
            print(f"{'CAUGHT' if hit else 'ERROR' if r.returncode not in (0, 1) else 'missed':7}{i:32}{p}  {time.time() - t:5.1f}s  {clauses[:160]}", flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-800:], r.stderr[-800:])
finally:
    shutil.rmtree(base, ignore_errors=True)
