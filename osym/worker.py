"""Explores paths of one property's harnesses (runs in the z3-equipped interpreter)."""
import os
import pickle
import random
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import core, csx, instr
from .core import E, EndPath, Infeasible, PathLimit, Steer, Unsupported, concretize
from .sx import Sx


class Replay:
    def __init__(self, scratch, modname, verif):
        self.args = (scratch, modname, verif)
        self.p = None

    def start(self):
        py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([py, os.path.join(self.args[2], "osym", "server.py"), *self.args],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                  cwd=self.args[0])

    def __call__(self, name, tier, env, limit=10.0):
        if self.p is None or self.p.poll() is not None:
            self.start()
        d = pickle.dumps((name, tier, env, limit))
        try:
            self.p.stdin.write(struct.pack("<I", len(d)) + d)
            self.p.stdin.flush()
            h = self.p.stdout.read(4)
            if len(h) < 4:
                raise OSError("server died")
            return pickle.loads(self.p.stdout.read(struct.unpack("<I", h)[0]))
        except OSError:
            self.close()
            return "", [], "crash", None

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None


class Timeout(Steer):
    pass


def _alarm(*a):
    raise Timeout("path time limit")


class Stats:
    KEYS = ("paths", "infeasible", "validated", "mismatch", "limits", "unsupported", "pinned", "decisions", "unknown",
            "queries", "valid_q", "proofs", "model_q", "errors")

    def __init__(self):
        for k in self.KEYS:
            setattr(self, k, 0)
        self.sat_time = 0.0
        self.labels = {}
        self.notes = {}
        self.violations = []  # dicts
        self.known = []
        self.problems = []
        self.samples = []
        self.incon = {}
        self.seen = set()

    def merge(self, o):
        for k in self.KEYS:
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.sat_time += o.sat_time
        for a in ("labels", "notes", "incon"):
            d = getattr(self, a)
            for k, v in getattr(o, a).items():
                d[k] = d.get(k, 0) + v
        self.violations += o.violations
        self.known += o.known
        self.problems = (self.problems + o.problems)[:40]
        self.samples = (self.samples + o.samples)[:8]
        self.seen |= o.seen


def run_path(harness, tier, prefix, replay, st, path_limit, reset):
    """Execute one symbolic path; replay its model on the real code."""
    name, fn, params = harness[0], harness[1], harness[2]
    q0, t0, v0, d0 = E.queries, E.sat_time, E.nvalid, E.decisions
    E.start(prefix)
    sx = Sx(params.get(tier) or params["quick"])
    status, exc, detail = "done", None, None
    try:
        signal.setitimer(signal.ITIMER_REAL, path_limit)
        try:
            reset()
            fn(sx)
        except EndPath:
            status = "end"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Infeasible:
        status = "infeasible"
    except Timeout as e:
        status = "timeout"
    except PathLimit as e:
        status, detail = "limit", str(e)
    except Unsupported as e:
        status, detail = "unsupported", str(e)
    except Exception as e:  # noqa
        status, exc = "exception", e
        detail = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
    E.aborting = False
    st.decisions += len(E.trace)
    obs = E.obs
    fails = list(E.fails)
    known = list(E.known)
    for lab in E.inconclusive:
        st.incon[lab] = st.incon.get(lab, 0) + 1
    model = None
    if status != "infeasible":
        # the path model comes from the solver, over the whole path condition
        try:
            r = E.check()
            st.model_q += 1
            if r == "sat":
                model = E.last_env
            elif r == "unsat":
                if status in ("done", "exception", "timeout") and not fails:
                    status = "infeasible"
            else:
                st.unknown += 1
        except Steer:
            pass
    rep_obs = None
    if model is not None:
        try:
            rep_obs = csx.rep([(t, concretize(v, model)) for t, v in obs])
        except Steer:
            rep_obs = None
    E.active = False
    st.queries += E.queries - q0
    st.sat_time += E.sat_time - t0
    st.valid_q += E.nvalid - v0
    st.proofs += len(E.proofs)
    for k, v in sx.labels.items():
        st.labels[k] = st.labels.get(k, 0) + v
    for k, v in E.notes.items():
        st.notes[k] = st.notes.get(k, 0) + v
    E.notes.clear()
    if E.pinned:
        st.pinned += 1
    if status == "infeasible":
        st.infeasible += 1
    else:
        st.paths += 1
    if status in ("limit", "timeout"):
        st.limits += 1
        if len(st.problems) < 5:
            st.problems.append("%s: %s %s" % (name, status, detail))
    if status == "unsupported":
        st.unsupported += 1
        if len(st.problems) < 5:
            st.problems.append("%s: unsupported %s" % (name, detail))

    def confirm(env, label, kid=None):
        o, failed, err, det = replay(name, tier, env)
        if failed:
            lab, ids = failed[0]
            if ids:
                st.known.append((ids[0], lab, name, env, o))
                return True
            st.violations.append({"harness": name, "label": lab, "inputs": env, "observations": o})
            return True
        if err and (err.startswith("exception") or err == "hang"):
            st.violations.append({"harness": name, "label": err, "inputs": env, "observations": o, "detail": det})
            return True
        st.mismatch += 1
        if len(st.problems) < 5:
            st.problems.append("%s: counterexample to '%s' did not reproduce: %s (%s) inputs=%r" % (name, label, err, o[:200], env))
        return False

    for label, env in fails:
        confirm(env, label)
    for kid, label, env in known:
        confirm(env, label, kid)
    if model is not None and status in ("done", "end", "exception", "timeout", "limit", "unsupported"):
        o, failed, err, det = replay(name, tier, model)
        if failed:
            lab, ids = failed[0]
            if ids:
                st.known.append((ids[0], lab, name, model, o))
            else:
                st.violations.append({"harness": name, "label": lab, "inputs": model, "observations": o})
        elif err in ("hang", "crash") and status in ("done", "end", "exception", "timeout"):
            st.violations.append({"harness": name, "label": err, "inputs": model, "observations": o})
        elif err and err.startswith("exception"):
            st.violations.append({"harness": name, "label": err, "inputs": model, "observations": o, "detail": det})
        elif status == "exception":
            st.errors += 1
            if len(st.problems) < 8:
                st.problems.append("%s: symbolic run raised %s, real run did not: inputs=%r\n%s" % (name, type(exc).__name__, model, detail))
        elif status in ("done", "end"):
            if err is None and o == rep_obs:
                st.validated += 1
                if len(st.samples) < 2:
                    st.samples.append({"harness": name, "inputs": {k: v for k, v in list(model.items())[:24]},
                                       "observed": o[:400]})
            elif not (status == "end" and fails):
                st.mismatch += 1
                if len(st.problems) < 8:
                    st.problems.append("%s: real run differs (%s): inputs=%r\n  symbolic %s\n  real     %s" % (
                        name, err, model, (rep_obs or "")[:600], o[:600]))
    return E.alts


def worker(conn, mod, scratch, verif, modname, tier, seed, path_limit, reset):
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    replay = Replay(scratch, modname, verif)
    table = {h[0]: h for h in mod.HARNESSES}
    rnd = random.Random(seed)
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                return
            items, budget, maxdepth = msg
            st = Stats()
            stack = list(items)
            end = time.time() + budget
            instr.SEEN.clear()
            while stack and time.time() < end:
                name, prefix = stack.pop()
                try:
                    alts = run_path(table[name], tier, prefix, replay, st, path_limit, reset)
                except Timeout:
                    continue
                for a in alts:
                    stack.append((name, a))
            st.seen |= instr.SEEN
            conn.send((st, stack))
    except (EOFError, KeyboardInterrupt, BrokenPipeError):
        pass
    finally:
        replay.close()
