"""Development tool: runs the check of each seeded bug's property against a scratch copy with the bug.
usage: trybug.py [ID...] [--all-checks]"""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEED = os.path.join(VERIF, "seeded")
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(SEED))
for i in ids:
    meta = json.load(open(os.path.join(SEED, i, "meta.json")))
    d = "/tmp/trywork/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/trywork", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    r = subprocess.run(["git", "apply", os.path.join(SEED, i, "patch.diff")], cwd=d)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY")
        continue
    t = time.time()
    r = subprocess.run(["python3", "check.py", meta["property"], "--tier", "quick"], cwd=VERIF, env=dict(os.environ, OSYM_REPO=d),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
    print(i, meta["property"], "CAUGHT" if r.returncode == 1 and lines else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t),
          (lines or r.stdout.strip().splitlines()[-1:])[:1], flush=True)
    shutil.rmtree(d, ignore_errors=True)
