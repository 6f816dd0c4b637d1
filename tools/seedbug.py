"""Development tool: turns bug descriptions into seeded/<id>/ after confirming them in a scratch copy.
usage: seedbug.py FILE.py   (FILE defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)])"""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(HERE), "seeded")
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# run with cwd /repo
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
'''


def run(cmd, cwd):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=cwd, HOME="/root", LANG="C.UTF-8")
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def one(b):
    d = "/tmp/seedwork/" + b["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.dirname(d), exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    try:
        demo = os.path.join(d, "..", b["id"] + ".py")
        open(demo, "w").write(PRE + b["demo"])
        r = run([PY, "-B", demo], d)
        if r.returncode:
            return b["id"], "demo fails on clean tree\n" + r.stdout[-1500:]
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "edit matches %d times: %s" % (s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        if any("/grammar/" in f for f, _, _ in b["edits"]):
            g = os.path.join(d, "omegaconf/grammar/gen")
            for f in os.listdir(g):
                if f != "__init__.py" and os.path.isfile(os.path.join(g, f)):
                    os.remove(os.path.join(g, f))
            run([PY, "setup.py", "-q", "antlr"], d)
        diff = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        mine = []
        for f, _, _ in b["edits"]:
            base = set(subprocess.run(["git", "show", "c4348f2:" + f], cwd=d, stdout=subprocess.PIPE, text=True).stdout.splitlines())
            now = subprocess.run(["git", "diff", "-U0", f], cwd=d, stdout=subprocess.PIPE, text=True).stdout.splitlines()
            mine += [x[1:] for x in now if x.startswith("-") and not x.startswith("---") and x[1:] not in base]
        if mine:
            return b["id"], "edits lines of a fix: %s" % mine
        r = run([PY, "-B", demo], d)
        if r.returncode == 0:
            return b["id"], "demo passes with the bug\n"
        msg = r.stdout.strip().splitlines()[-1:] or [""]
        r = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", "--deselect", "tests/test_nodes.py::test_eq[node33-hello.txt-False]"], d)
        tail = r.stdout.strip().splitlines()[-5:]
        if r.returncode:
            return b["id"], "TESTS FAIL " + " | ".join(tail)
        out = os.path.join(SEED, b["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(PRE + b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        return b["id"], "OK " + msg[0][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(demo):
            os.remove(demo)


spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
only = set(sys.argv[2:])
with cf.ThreadPoolExecutor(4) as ex:
    for i, msg in ex.map(one, [b for b in m.BUGS if not only or b["id"] in only]):
        print(i, ":", msg, flush=True)
