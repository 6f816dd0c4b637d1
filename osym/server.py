"""Replay server: runs harnesses on the real, uninstrumented code with concrete inputs.
argv: scratch directory holding the omegaconf package, harness module name."""
import os
import pickle
import signal
import struct
import sys

sys.dont_write_bytecode = True


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def main():
    scratch, modname, verif = sys.argv[1:4]
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    sys.path.insert(0, verif)
    sys.path.insert(0, scratch)
    sys.meta_path[:] = [f for f in sys.meta_path if "__editable__" not in getattr(f, "__module__", "") and
                        "__editable__" not in getattr(f, "__name__", "")]
    import importlib

    import omegaconf

    assert os.path.realpath(omegaconf.__file__).startswith(os.path.realpath(scratch) + os.sep), omegaconf.__file__
    mod = importlib.import_module("harness." + modname)
    from harness import common
    from osym import csx

    table = {h[0]: h for h in mod.HARNESSES}
    signal.signal(signal.SIGALRM, _alarm)

    def run(name, tier, env, limit):
        h = table[name]
        sx = csx.Sx(h[2].get(tier) or h[2]["quick"], env)
        err = None
        try:
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                common.reset()
                h[1](sx)
            except csx.EndPath:
                pass
            except csx.Infeasible:
                err = "infeasible"
            except csx.Diverged as e:
                err = "diverged: %s" % e
            except Exception as e:  # noqa
                err = "exception: %s" % type(e).__name__
                sx.detail = "%s: %s" % (type(e).__name__, e)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Hang:
            err = "hang"
        return csx.rep(sx.obs), sx.failed, err, getattr(sx, "detail", None)

    while True:
        head = inp.read(4)
        if len(head) < 4:
            return
        name, tier, env, limit = pickle.loads(inp.read(struct.unpack("<I", head)[0]))
        r = pickle.dumps(run(name, tier, env, limit))
        out.write(struct.pack("<I", len(r)) + r)
        out.flush()


main()
