"""Symbolic side of the harness API (the concrete side is osym/csx.py)."""
import os

from . import expr as ex
from .core import (E, EndPath, Infeasible, SYM, SymBool, SymFloat, SymInt, SymStr, X, and_, concretize,
                   ebool, mkbool, mkint, mkstr, not_, or_, ite)
from . import models

PIN = dict(x.split("=", 1) for x in os.environ.get("OSYM_PIN", "").split(";") if x)  # development only
TB = os.environ.get("OSYM_TB")


class Res:
    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def kind(self):
        return "ok" if self.ok else type(self.exc).__name__

    def isa(self, *types):
        return (not self.ok) and isinstance(self.exc, types)


class Sx:
    symbolic = True

    def __init__(self, params):
        self.p = params
        self.labels = {}

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        return mkint(E.new_var(name, lo=lo, hi=hi))

    def bool(self, name):
        return mkbool(E.new_var(name, is_bool=True))

    def flag(self, name):
        """A concrete bool, both values explored."""
        return bool(self.bool(name))

    def choice(self, name, options):
        options = list(options)
        v = E.new_var(name, dom=range(len(options)))
        if name in PIN:
            return options[E.assume(ex.eq(v, [str(o) for o in options].index(PIN[name])))
                           or [str(o) for o in options].index(PIN[name])]
        k = E.nfork([ex.eq(v, i) for i in range(len(options))])
        return options[k]

    def char(self, name, alphabet):
        return E.new_var(name, dom=tuple(map(ord, alphabet)))

    def str(self, name, minlen, maxlen, alphabet):
        n = minlen if minlen == maxlen else self.choice(name + ".len", range(minlen, maxlen + 1))
        return mkstr([self.char("%s.%d" % (name, i), alphabet) for i in range(n)])

    # ---- logic
    def And(self, *xs):
        return and_(*xs)

    def Or(self, *xs):
        return or_(*xs)

    def Not(self, x):
        return not_(x)

    def Implies(self, a, b):
        return or_(not_(a), b)

    def ite(self, c, a, b):
        return ite(c, a, b)

    def eq(self, a, b):
        return deep_eq(a, b)

    # ---- steering
    def assume(self, c):
        E.assume(ebool(c))

    def stop(self):
        raise EndPath()

    def attempt(self, f, /, *a, **k):
        try:
            return Res(True, models.call(f, *a, **k), None)
        except Exception as e:  # noqa
            if TB:
                import traceback
                traceback.print_exc()
            return Res(False, None, e)

    # ---- outputs
    def observe(self, tag, v):
        E.obs.append((tag, v))

    def reach(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def prove(self, cond, label, known=()):
        """Assert cond on every model of the current path.  known: [(finding id, condition)] under which
        a failure is an already recorded defect."""
        e = ebool(cond)
        self.labels[label] = self.labels.get(label, 0) + 1
        E.proofs.append(label)
        if type(e) is not X and e:
            return
        E.nvalid += 1
        kexpr = [(k, ebool(c)) for k, c in known]
        e2 = ex.or_(e, *[c for _, c in kexpr])
        r = E.valid(e2)
        if r is None:
            E.inconclusive.append(label)
        elif r is False:
            E.fails.append((label, dict(E.last_env)))
        if kexpr:
            for k, c in kexpr:
                if E.check(ex.not_(e), c) == "sat":
                    E.known.append((k, label, dict(E.last_env)))
        if type(e2) is not X:
            if not e2:
                raise EndPath()
            if type(e) is X:
                E.assume(e)
            elif not e:
                raise EndPath()
            return
        E.assume(e)


def deep_eq(a, b):
    """Type-strict structural equality of plain data."""
    ta, tb = type(a), type(b)
    pa, pb = models.PYT.get(ta, ta), models.PYT.get(tb, tb)
    if pa is not pb:
        return False
    if pa in (list, tuple):
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            r = deep_eq(x, y)
            if r is False:
                return False
            out.append(r)
        return and_(*out)
    if pa is dict:
        if len(a) != len(b):
            return False
        out = []
        for k, v in a.items():
            kk = models.dfind(b, k)
            if kk is models.NOTFOUND:
                return False
            r = models.PYT.get(type(kk), type(kk)) is models.PYT.get(type(k), type(k)) and deep_eq(v, b[kk])
            if r is False:
                return False
            out.append(r)
        return and_(*out)
    if pa is float and ta is tb is float:
        return a == b or (a != a and b != b)
    r = a == b
    return r if type(r) is SymBool else bool(r)
