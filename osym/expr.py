"""Expression DAG used by the symbolic executor.

Two sorts: int (mathematical integers, Python semantics) and bool.  Nodes are
immutable, constant-folded on construction, evaluable in plain Python (used for
model evaluation) and convertible to z3 (used for every satisfiability and
validity query).
"""
import z3


class X:
    __slots__ = ("op", "a", "fv", "b", "_z")

    def __init__(self, op, a, fv, b):
        self.op = op
        self.a = a
        self.fv = fv  # frozenset of variable names
        self.b = b  # True: boolean sort
        self._z = None

    def __repr__(self):
        if self.op == "v":
            return self.a[0]
        return "(%s %s)" % (self.op, " ".join(map(repr, self.a)))


NOFV = frozenset()


def var(name, is_bool=False):
    return X("v", (name,), frozenset((name,)), is_bool)


def _fv(args):
    r = NOFV
    for x in args:
        if type(x) is X:
            f = x.fv
            if f is not r:
                r = f if not r else (r | f)
    return r


def _mk(op, args, b):
    return X(op, args, _fv(args), b)


# ---- integers ------------------------------------------------------------
def add(a, b):
    if type(a) is not X and type(b) is not X:
        return a + b
    if type(b) is not X:
        if b == 0:
            return a
        if a.op == "+" and type(a.a[1]) is not X:
            return add(a.a[0], a.a[1] + b)
    elif type(a) is not X:
        return add(b, a)
    return _mk("+", (a, b), False)


def neg(a):
    if type(a) is not X:
        return -a
    if a.op == "neg":
        return a.a[0]
    return _mk("neg", (a,), False)


def sub(a, b):
    if type(b) is not X:
        return add(a, -b)
    if type(a) is X and a is b:
        return 0
    return _mk("-", (a, b), False)


def mul(a, b):
    if type(a) is not X and type(b) is not X:
        return a * b
    if type(a) is not X:
        a, b = b, a
    if type(b) is not X:
        if b == 0:
            return 0
        if b == 1:
            return a
    return _mk("*", (a, b), False)


def fdiv(a, b):
    if type(a) is not X and type(b) is not X:
        return a // b
    return _mk("//", (a, b), False)


def fmod(a, b):
    if type(a) is not X and type(b) is not X:
        return a % b
    return _mk("%", (a, b), False)


def ite(c, a, b):
    if type(c) is not X:
        return a if c else b
    if a is b or (type(a) is not X and type(b) is not X and a == b and type(a) is type(b)):
        return a
    is_b = a.b if type(a) is X else (b.b if type(b) is X else isinstance(a, bool))
    return _mk("ite", (c, a, b), is_b)


# ---- comparisons ---------------------------------------------------------
def eq(a, b):
    if type(a) is not X:
        if type(b) is not X:
            return a == b
        a, b = b, a
    if a is b:
        return True
    if a.b:
        if type(b) is not X:
            return a if b else not_(a)
        return _mk("iff", (a, b), True)
    if type(b) is not X and a.op == "+" and type(a.a[1]) is not X:
        return eq(a.a[0], b - a.a[1])
    if type(b) is not X and a.op == "ite":
        c, t, e = a.a
        if type(t) is not X or type(e) is not X:
            return or_(and_(c, eq(t, b)), and_(not_(c), eq(e, b)))
    return _mk("==", (a, b), True)


def ne(a, b):
    return not_(eq(a, b))


def lt(a, b):
    if type(a) is not X and type(b) is not X:
        return a < b
    if a is b:
        return False
    return _mk("<", (a, b), True)


def le(a, b):
    if type(a) is not X and type(b) is not X:
        return a <= b
    if a is b:
        return True
    return _mk("<=", (a, b), True)


# ---- booleans ------------------------------------------------------------
def not_(a):
    if type(a) is not X:
        return not a
    if a.op == "not":
        return a.a[0]
    return X("not", (a,), a.fv, True)


def and_(*xs):
    out = []
    for x in xs:
        if type(x) is not X:
            if not x:
                return False
            continue
        if x.op == "and":
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), True)


def or_(*xs):
    out = []
    for x in xs:
        if type(x) is not X:
            if x:
                return True
            continue
        if x.op == "or":
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), True)


def in_ranges(a, ranges):
    """a in union of [lo,hi] (inclusive) ranges; ranges is a tuple of pairs."""
    if type(a) is not X:
        for lo, hi in ranges:
            if lo <= a <= hi:
                return True
        return False
    if not ranges:
        return False
    return X("in", (a, ranges), a.fv, True)


# ---- evaluation ----------------------------------------------------------
def ev(x, env):
    if type(x) is not X:
        return x
    op = x.op
    a = x.a
    if op == "v":
        return env[a[0]]
    if op == "in":
        v = ev(a[0], env)
        for lo, hi in a[1]:
            if lo <= v <= hi:
                return True
        return False
    if op == "==" or op == "iff":
        return ev(a[0], env) == ev(a[1], env)
    if op == "not":
        return not ev(a[0], env)
    if op == "and":
        for y in a:
            if not ev(y, env):
                return False
        return True
    if op == "or":
        for y in a:
            if ev(y, env):
                return True
        return False
    if op == "<":
        return ev(a[0], env) < ev(a[1], env)
    if op == "<=":
        return ev(a[0], env) <= ev(a[1], env)
    if op == "+":
        return ev(a[0], env) + ev(a[1], env)
    if op == "-":
        return ev(a[0], env) - ev(a[1], env)
    if op == "neg":
        return -ev(a[0], env)
    if op == "*":
        return ev(a[0], env) * ev(a[1], env)
    if op == "//":
        d = ev(a[1], env)
        return ev(a[0], env) // d if d else 0
    if op == "%":
        d = ev(a[1], env)
        return ev(a[0], env) % d if d else 0
    if op == "ite":
        return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
    raise AssertionError(op)


# ---- z3 ------------------------------------------------------------------
def _zi(x):
    return x if type(x) is X else x


def z(x):
    """z3 term for x."""
    if type(x) is not X:
        if isinstance(x, bool):
            return z3.BoolVal(x)
        return z3.IntVal(x)
    r = x._z
    if r is not None:
        return r
    op = x.op
    a = x.a
    if op == "v":
        r = z3.Bool(a[0]) if x.b else z3.Int(a[0])
    elif op == "in":
        v = z(a[0])
        r = z3.Or(*[(v == lo) if lo == hi else z3.And(v >= lo, v <= hi) for lo, hi in a[1]])
    elif op == "==" or op == "iff":
        r = z(a[0]) == z(a[1])
    elif op == "not":
        r = z3.Not(z(a[0]))
    elif op == "and":
        r = z3.And(*[z(y) for y in a])
    elif op == "or":
        r = z3.Or(*[z(y) for y in a])
    elif op == "<":
        r = z(a[0]) < z(a[1])
    elif op == "<=":
        r = z(a[0]) <= z(a[1])
    elif op == "+":
        r = z(a[0]) + z(a[1])
    elif op == "-":
        r = z(a[0]) - z(a[1])
    elif op == "neg":
        r = -z(a[0])
    elif op == "*":
        r = z(a[0]) * z(a[1])
    elif op == "//" or op == "%":
        # Python floor semantics; z3 div/mod are Euclidean (mod >= 0).
        n, d = z(a[0]), z(a[1])
        if type(a[1]) is not X and a[1] > 0:
            r = n / d if op == "//" else n % d
        else:
            q = z3.If(z3.And(d < 0, n % d != 0), n / d - 1, n / d)
            r = q if op == "//" else n - d * q
    elif op == "ite":
        r = z3.If(z(a[0]), z(a[1]), z(a[2]))
    else:
        raise AssertionError(op)
    x._z = r
    return r
