"""Driver: scratch copy of the code, instrumented import, parallel exploration, evidence."""
import argparse
import collections
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get("OSYM_REPO", "/repo")


def prepare(scratch):
    """Copy the package and regenerate its ANTLR output from the current grammar files."""
    src = os.path.join(REPO, "omegaconf")
    dst = os.path.join(scratch, "omegaconf")
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "*.interp", "*.tokens"))
    gdir = os.path.join(dst, "grammar")
    gen = os.path.join(gdir, "gen")
    os.makedirs(gen, exist_ok=True)
    for f in os.listdir(gen):
        if f != "__init__.py":
            p = os.path.join(gen, f)
            if os.path.isfile(p):
                os.unlink(p)
    jar = os.path.join(REPO, "build_helpers", "bin", "antlr-4.11.1-complete.jar")
    if not os.path.exists(jar):
        c = [f for f in os.listdir(os.path.dirname(jar)) if f.endswith(".jar")]
        jar = os.path.join(os.path.dirname(jar), c[0])
    for g in ("OmegaConfGrammarLexer.g4", "OmegaConfGrammarParser.g4"):
        subprocess.run(["java", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-jar", jar, "-Dlanguage=Python3",
                        "-o", gen, "-Xexact-output-dir", "-visitor", os.path.join(gdir, g)],
                       check=True, stdout=subprocess.DEVNULL)
    for f in os.listdir(gen):
        if f.endswith(".py"):
            p = os.path.join(gen, f)
            with open(p) as fh:
                s = fh.read()
            s = re.sub(r"(^\s*)import antlr4\n", r"\1from omegaconf.vendor import antlr4\n", s, flags=re.M)
            s = re.sub(r"(^\s*)from antlr4(\.|\s+)", r"\1from omegaconf.vendor.antlr4\2", s, flags=re.M)
            with open(p, "w") as fh:
                fh.write(s)
    if not os.path.exists(os.path.join(gen, "__init__.py")):
        open(os.path.join(gen, "__init__.py"), "w").close()


def load_known(verif):
    p = os.path.join(verif, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {e["id"]: e for e in json.load(f)["findings"]}


def module_for(verif, pid):
    name = pid.lower()
    if not os.path.exists(os.path.join(verif, "harness", name + ".py")):
        raise SystemExit("no harness for %s" % pid)
    return name


def main(verif, argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("OSYM_JOBS", "8")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = module_for(verif, a.pid)
    scratch = tempfile.mkdtemp(prefix="osym-%s-" % a.pid)
    try:
        prepare(scratch)
        if a.replay:
            return do_replay(verif, scratch, modname, a)
        return explore(verif, scratch, modname, a, seed, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(verif, scratch, modname, a):
    from .worker import Replay

    with open(a.replay) as f:
        d = json.load(f)
    r = Replay(scratch, modname, verif)
    o, failed, err, det = r(d["harness"], d.get("tier", "quick"), d["inputs"], 30.0)
    r.close()
    print("observations:", o)
    if failed:
        print("fails: %s" % (failed[0],))
        return 1
    if err and (err.startswith("exception") or err == "hang"):
        print("fails: %s %s" % (err, det))
        return 1
    print("does not fail (%s)" % err)
    return 0


PURE_YAML = ("p17", "p26")


def explore(verif, scratch, modname, a, seed, t0):
    from . import antlr, instr
    from .worker import Stats, worker

    sys.setrecursionlimit(6000)
    roots = {"omegaconf": scratch, "harness": verif}
    if modname in PURE_YAML:
        # The pure-Python PyYAML is executed symbolically; replays use libyaml as users do.
        roots["yaml"] = os.path.dirname(os.path.dirname(importlib.util.find_spec("yaml").origin))
    finder = instr.install(roots)
    import omegaconf  # noqa: F401

    assert os.path.realpath(omegaconf.__file__).startswith(os.path.realpath(scratch)), omegaconf.__file__
    antlr.patch(importlib.import_module("omegaconf.vendor.antlr4.atn.LexerATNSimulator"))
    mod = importlib.import_module("harness." + modname)
    common = importlib.import_module("harness.common")
    if hasattr(mod, "symbolic_setup"):
        mod.symbolic_setup()
    instr.SEEN.clear()
    harnesses = [h for h in mod.HARNESSES if not a.only or h[0] in a.only.split(",")]
    tier = a.tier
    budget = a.budget or getattr(mod, "BUDGET", {}).get(tier) or (150 if tier == "quick" else 780)
    path_limit = 20.0 if tier == "quick" else 60.0
    known = load_known(verif)
    jobs = a.jobs
    ctx = mp.get_context("fork")
    conns, procs = [], []
    for i in range(jobs):
        pc, cc = ctx.Pipe()
        p = ctx.Process(target=worker, args=(cc, mod, scratch, verif, modname, tier, seed + i, path_limit, common.reset))
        p.daemon = True
        p.start()
        cc.close()
        conns.append(pc)
        procs.append(p)
    # one queue per harness, served round-robin
    queues = collections.OrderedDict((h[0], collections.deque([(h[0], ())])) for h in harnesses)
    total = Stats()
    per = {h[0]: {"done": False} for h in harnesses}
    idle = set(range(jobs))
    outstanding = {}
    deadline = t0 + budget
    stop = False
    order = [h[0] for h in harnesses]
    rr = 0
    dead = 0

    def take():
        nonlocal rr
        live = [n for n in order if queues[n]]
        if not live:
            return None
        n = live[rr % len(live)]
        rr += 1
        q = queues[n]
        k = max(1, min(64, len(q) // (2 * jobs)))
        return [q.popleft() for _ in range(min(k, len(q)))]

    while True:
        now = time.time()
        if now > deadline or total.violations:
            stop = True
        if not stop:
            for w in sorted(idle):
                items = take()
                if items is None:
                    break
                idle.discard(w)
                outstanding[w] = items
                few = sum(len(q) for q in queues.values()) < 4 * jobs
                conns[w].send((items, 0.05 if few else 0.5, 0))
        if not outstanding:
            break
        ready = mpc.wait([conns[w] for w in outstanding], timeout=1.0)
        for c in ready:
            w = conns.index(c)
            try:
                st, left = c.recv()
            except EOFError:
                dead += 1
                total.problems.append("worker died on %r" % (outstanding[w][:1],))
                del outstanding[w]
                continue
            del outstanding[w]
            idle.add(w)
            total.merge(st)
            for it in left:
                queues[it[0]].append(it)
        if dead >= jobs:
            break
        if stop and time.time() > deadline + 3 * path_limit:
            break
        if stop and total.violations:
            break
    pending = sum(len(q) for q in queues.values()) + sum(len(v) for v in outstanding.values())
    for w, p in enumerate(procs):
        try:
            conns[w].send(None)
        except (OSError, ValueError):
            pass
    time.sleep(0.05)
    for p in procs:
        p.join(timeout=0.5)
        if p.is_alive():
            p.terminate()
    return report(verif, mod, modname, a, seed, t0, total, queues, pending, known, harnesses, finder, dead)


def _js(v):
    return v if isinstance(v, (int, str, bool, float, type(None))) else repr(v)


def report(verif, mod, modname, a, seed, t0, total, queues, pending, known, harnesses, finder, dead):
    from . import instr

    pid = a.pid
    evdir = os.path.join(verif, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for n in os.listdir(evdir):
        if n.startswith(pid + "-violation-"):
            os.unlink(os.path.join(evdir, n))
    rc = 0
    lines = []
    # known findings reproduced on this run
    seen_known = {}
    viol = list(total.violations)
    for kid, label, name, env, obs in total.known:
        if kid in known and known[kid].get("status", "open") == "open" and known[kid]["property"] == pid:
            seen_known.setdefault(kid, (label, name, env))
        else:
            viol.append({"harness": name, "label": label, "inputs": env, "observations": obs})
    for kid, (label, name, env) in sorted(seen_known.items()):
        lines.append("KNOWN-FINDING: property=%s %s: %s" % (pid, kid, known[kid]["what"]))
    uniq = {}
    for v in viol:
        uniq.setdefault((v["harness"], v["label"]), v)
    for i, (k, v) in enumerate(sorted(uniq.items())):
        path = os.path.join(evdir, "%s-violation-%d.json" % (pid, i))
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": a.tier, "harness": v["harness"], "label": v["label"],
                       "inputs": v["inputs"], "observations": v["observations"], "detail": v.get("detail")}, f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        lines.append("  %s: %s  %s" % (v["harness"], v["label"], (v.get("detail") or "")[:300]))
        rc = 1
    expect = set()
    for h in harnesses:
        if len(h) > 3:
            expect |= set(h[3])
    missing = sorted(expect - set(total.labels)) if not (rc or a.only) else []
    funcs = sorted({instr.HITS[k] for k in total.seen if k in instr.HITS})
    code = [f for f in funcs if f.startswith("omegaconf.")]
    bad = total.mismatch + total.errors + total.unsupported + total.limits
    exhausted = pending == 0
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2),
        "violations": len(uniq),
        "coverage": {
            "states": total.paths + total.decisions, "transitions": total.decisions,
            "traces_validated_against_impl": total.validated,
            "samples": total.samples or [{"note": "stopped at a violation"}],
            "exhaustive": bool(exhausted and not bad and not total.pinned and not total.incon and not total.unknown),
            "symbolic_paths": total.paths, "infeasible_prefixes": total.infeasible, "pending_prefixes": pending,
            "assertions_checked_on_paths": total.proofs,
            "solver": {"z3_queries": total.queries, "validity_queries": total.valid_q, "path_model_queries": total.model_q,
                       "solver_time_s": round(total.sat_time, 2), "unknown": total.unknown},
            "inconclusive": {"model_mismatch": total.mismatch, "symbolic_only_errors": total.errors,
                             "unsupported": total.unsupported, "path_limits": total.limits,
                             "unknown_proofs": total.incon, "pinned_paths": total.pinned, "problems": total.problems[:12]},
            "realised_or_stubbed": dict(sorted(total.notes.items())),
            "assertions": dict(sorted(total.labels.items())),
            "unreached_witnesses": missing,
            "functions_encoded": code,
            "functions_encoded_count": len(code),
            "bounds": {h[0]: (h[2].get(a.tier) or h[2]["quick"]) for h in harnesses},
            "bounds_text": getattr(mod, "BOUNDS", ""),
            "known_findings_reproduced": sorted(seen_known),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "exception and message texts are not compared; message formatting on symbolic values is stubbed",
            "builtins on symbolic values are modelled (osym/models.py, osym/rx.py); every explored path is replayed "
            "on the uninstrumented code with a solver model and its observations compared",
        ],
    }
    with open(os.path.join(evdir, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1, default=_js)
    for ln in lines:
        print(ln)
    print("%s %s: paths=%d (infeasible %d, pending %d) validated=%d mismatch=%d errors=%d unsupported=%d limits=%d "
          "pinned=%d queries=%d solver=%.1fs exhaustive=%s wall=%.1fs" % (
              pid, a.tier, total.paths, total.infeasible, pending, total.validated, total.mismatch, total.errors,
              total.unsupported, total.limits, total.pinned, total.queries, total.sat_time,
              ev["coverage"]["exhaustive"], wall))
    if a.v or bad:
        for p in total.problems[:12]:
            print("  problem:", p)
    if a.v:
        print("  notes:", total.notes)
        print("  labels:", total.labels)
    if rc == 0:
        if total.paths == 0 or total.validated == 0:
            print("ERROR: nothing was explored")
            rc = 2
        elif missing:
            print("ERROR: assertions never reached: %s" % missing)
            rc = 2
        elif bad > max(20, 0.25 * total.paths):
            print("ERROR: too many inconclusive paths")
            rc = 2
    return rc
