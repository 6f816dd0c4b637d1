"""Path-exploring symbolic executor: engine and symbolic values.

A path is one execution of the harness under a decision prefix.  Every branch on
a symbolic condition goes through Engine.decide/nfork, which asks for the
feasible outcomes (finite-domain filtering for conditions on one un-entangled
variable, z3 otherwise), follows one and queues the others as prefixes.
"""
import time

import z3

from . import expr as ex
from .expr import X, ev


class Steer(BaseException):
    """Engine control flow; never caught by the code under analysis."""

    def __init__(self, *a):
        BaseException.__init__(self, *a)
        E.aborting = True


class Infeasible(Steer):
    pass


class EndPath(Steer):
    pass


class PathLimit(Steer):
    pass


class Unsupported(Steer):
    pass


class Engine:
    def __init__(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.queries = 0
        self.sat_time = 0.0
        self.unknowns = 0
        self.decisions = 0
        self.nvalid = 0
        self.notes = {}
        self.aborting = False
        self.active = False
        self.max_decisions = 4000

    # -- path lifecycle ----------------------------------------------------
    def start(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.alts = []  # (prefix tuple)
        self.cons = []
        self.flushed = 0
        self.dom = {}
        self.env = {}
        self.env_ok = True
        self.entangled = set()
        self.inputs = []
        self.names = {}
        self.obs = []
        self.proofs = []
        self.fails = []
        self.known = []
        self.inconclusive = []
        self.memo = {}
        self.symkeys = 0
        self.pinned = False
        self.unknown_here = False
        self.aborting = False
        self.active = True
        self.serial = 0
        self.solver.reset()

    def note(self, what):
        self.notes[what] = self.notes.get(what, 0) + 1

    # -- variables ---------------------------------------------------------
    def fresh(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else "%s#%d" % (name, k)

    def new_var(self, name, dom=None, lo=None, hi=None, is_bool=False):
        name = self.fresh(name)
        v = ex.var(name, is_bool)
        if is_bool:
            self.dom[name] = (False, True)
            self.env[name] = False
        elif dom is not None:
            self.dom[name] = tuple(dom)
            self.env[name] = self.dom[name][0]
            self.cons.append(ex.in_ranges(v, ranges_of(self.dom[name])))
        elif lo is not None and hi is not None and hi - lo <= 256:
            self.dom[name] = tuple(range(lo, hi + 1))
            self.env[name] = 0 if lo <= 0 <= hi else lo
            self.cons.append(ex.in_ranges(v, ((lo, hi),)))
        else:
            self.dom[name] = None
            self.entangled.add(name)
            self.env[name] = 0
            if lo is not None:
                self.cons.append(ex.le(lo, v))
                if self.env[name] < lo:
                    self.env[name] = lo
            if hi is not None:
                self.cons.append(ex.le(v, hi))
                if self.env[name] > hi:
                    self.env[name] = hi
        return v

    # -- solver ------------------------------------------------------------
    def _flush(self):
        for c in self.cons[self.flushed:]:
            self.solver.add(ex.z(c))
        self.flushed = len(self.cons)

    def check(self, *extra):
        """Returns 'sat'/'unsat'/'unknown'; on sat stores the model in self.last_env."""
        self._flush()
        t = time.perf_counter()
        r = self.solver.check(*[ex.z(e) for e in extra])
        self.sat_time += time.perf_counter() - t
        self.queries += 1
        if r == z3.sat:
            m = self.solver.model()
            env = dict(self.env)
            # every variable mentioned in a constraint gets the z3 value
            for n in self.dom:
                b = self._is_bool(n)
                t_ = z3.Bool(n) if b else z3.Int(n)
                val = m.eval(t_, model_completion=False)
                if z3.is_true(val):
                    env[n] = True
                elif z3.is_false(val):
                    env[n] = False
                elif z3.is_int_value(val):
                    env[n] = val.as_long()
                else:  # unconstrained: keep a domain value
                    d = self.dom[n]
                    if d is not None and env[n] not in d:
                        env[n] = d[0]
            self.last_env = env
            return "sat"
        if r == z3.unsat:
            return "unsat"
        self.unknowns += 1
        self.unknown_here = True
        return "unknown"

    def _is_bool(self, n):
        d = self.dom[n]
        return d is not None and isinstance(d[0], bool)

    def ensure_env(self):
        if not self.env_ok:
            r = self.check()
            if r == "sat":
                self.env = self.last_env
                self.env_ok = True
            elif r == "unsat":
                raise Infeasible()
            else:
                raise PathLimit("solver unknown")

    def _add(self, e):
        """Add a constraint known to be feasible with the current path."""
        if type(e) is not X:
            if not e:
                raise Infeasible()
            return
        if e.op == "and":
            for y in e.a:
                self._add(y)
            return
        if e.op == "not" and e.a[0].op == "or":
            for y in e.a[0].a:
                self._add(ex.not_(y))
            return
        if len(e.fv) == 1:
            (n,) = e.fv
            d = self.dom[n]
            if d is not None:
                t = tuple(v for v in d if ev(e, {n: v}))
                if len(t) == len(d) and n not in self.entangled:
                    return
                if not t:
                    raise Infeasible()
                self.dom[n] = t
                if n not in self.entangled:
                    if self.env[n] not in t:
                        self.env[n] = t[0]
                    self.cons.append(e)
                    return
        else:
            self.entangled |= e.fv
        self.cons.append(e)
        if self.env_ok and not ev(e, self.env):
            self.env_ok = False

    def _free_unary(self, e):
        """Outcome set of e by domain filtering if exact, else None."""
        if len(e.fv) == 1:
            (n,) = e.fv
            d = self.dom[n]
            if d is None or n in self.entangled:
                return None
            t = f = False
            for v in d:
                if ev(e, {n: v}):
                    t = True
                    if f:
                        break
                else:
                    f = True
                    if t:
                        break
            return (t, f)
        return None

    def _outcomes(self, e):
        r = self._free_unary(e)
        if r is not None:
            return r
        if e.op == "and":
            seen = set()
            tt, ff = True, False
            for y in e.a:
                if len(y.fv) != 1 or (y.fv & seen):
                    return None
                seen |= y.fv
                r = self._free_unary(y)
                if r is None:
                    return None
                tt = tt and r[0]
                ff = ff or r[1]
            return (tt, ff)
        return None

    def decide(self, e):
        if type(e) is not X:
            return bool(e)
        if self.aborting:
            return True
        if e.op == "not":
            return not self.decide(e.a[0])
        r = self._outcomes(e)
        if r is not None:
            t, f = r
            if not f:
                return True
            if not t:
                return False
            return self._fork(e, True)
        key = repr(e)
        m = self.memo.get(key)
        if m is not None:
            return m
        i = len(self.trace)
        if i < len(self.prefix):
            out = bool(self.prefix[i] & 1)
            self.trace.append(self.prefix[i])
            self._add(e if out else ex.not_(e))
            self.memo[key] = out
            return out
        self.ensure_env()
        v = bool(ev(e, self.env))
        other = ex.not_(e) if v else e
        self._tick()
        r = self.check(other)
        if r == "unsat":
            self.trace.append(2 | v)
            self._add(e if v else ex.not_(e))
        else:
            self.alts.append(tuple(self.trace) + (int(not v),))
            self.trace.append(int(v))
            self._add(e if v else ex.not_(e))
        self.memo[key] = v
        return v

    def _tick(self):
        self.decisions += 1
        if len(self.trace) > self.max_decisions:
            raise PathLimit("decision limit")

    def _fork(self, e, both):
        i = len(self.trace)
        if i < len(self.prefix):
            out = bool(self.prefix[i])
        else:
            self._tick()
            # follow the side the current model satisfies
            out = bool(ev(e, self.env)) if self.env_ok else True
            self.alts.append(tuple(self.trace) + (int(not out),))
        self.trace.append(int(out))
        self._add(e if out else ex.not_(e))
        return out

    def nfork(self, conds):
        """Mutually exclusive, exhaustive conditions: fork on which one holds."""
        if self.aborting:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.trace.append(k)
            self._add(conds[k])
            return k
        feas = []
        for k, c in enumerate(conds):
            if type(c) is not X:
                if c:
                    feas.append(k)
                continue
            r = self._outcomes(c)
            if r is not None:
                if r[0]:
                    feas.append(k)
            elif self.check(c) != "unsat":
                feas.append(k)
        if not feas:
            raise Infeasible()
        self._tick()
        for k in reversed(feas[1:]):
            self.alts.append(tuple(self.trace) + (k,))
        k = feas[0]
        self.trace.append(k)
        self._add(conds[k])
        return k

    # -- assume / prove ----------------------------------------------------
    def assume(self, e):
        if type(e) is not X:
            if not e:
                raise Infeasible()
            return
        if self.aborting:
            return
        r = self._outcomes(e)
        if r is not None:
            if not r[0]:
                raise Infeasible()
            self._add(e)
            return
        self._add(e)
        i = len(self.trace)
        if i < len(self.prefix):
            self.trace.append(self.prefix[i])
            return
        self.ensure_env()
        self.trace.append(1)

    def valid(self, e):
        """True if e holds on every model of the path; else False with last_env a counterexample.
        None: unknown."""
        if type(e) is not X:
            if e:
                return True
            self.ensure_env()
            self.last_env = self.env
            return False
        r = self.check(ex.not_(e))
        if r == "unsat":
            return True
        if r == "sat":
            return False
        return None


def ranges_of(vals):
    vs = sorted(set(vals))
    out = []
    for v in vs:
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return tuple((a, b) for a, b in out)


E = Engine()
E.start(())
E.active = False


# ======================= symbolic values ==================================
class SymBase:
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymBool(SymBase):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return E.decide(self.e)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(ex.eq(self.e, o.e))
        if type(o) is bool:
            return mkbool(self.e if o else ex.not_(self.e))
        if isinstance(o, (int, float)):
            return int(bool(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if type(o) in (SymBool, bool):
            return mkbool(ex.and_(self.e, ebool(o)))
        return int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (SymBool, bool):
            return mkbool(ex.or_(self.e, ebool(o)))
        return int(self) | o

    __ror__ = __or__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __lt__(self, o):
        return int(self) < o

    def __le__(self, o):
        return int(self) <= o

    def __gt__(self, o):
        return int(self) > o

    def __ge__(self, o):
        return int(self) >= o

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "True" if self else "False"

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __reduce__(self):
        return (_unpickle, (_pickle(self),))


_pickled = {}


def _pickle(o):
    k = len(_pickled)
    _pickled[k] = o
    return k


def _unpickle(k):
    return _pickled[k]


def mkbool(e):
    return SymBool(e) if type(e) is X else bool(e)


def mkint(e):
    return SymInt(e) if type(e) is X else e


def ebool(b):
    """boolean expression of a (sym)bool."""
    if type(b) is SymBool:
        return b.e
    if b is True or b is False:
        return b
    return bool(b)


def not_(b):
    return mkbool(ex.not_(ebool(b)))


def and_(*bs):
    return mkbool(ex.and_(*[ebool(b) for b in bs]))


def or_(*bs):
    return mkbool(ex.or_(*[ebool(b) for b in bs]))


def ite(c, a, b):
    c = ebool(c)
    if type(c) is not X:
        return a if c else b
    if type(a) in (SymInt, int) and type(b) in (SymInt, int):
        return mkint(ex.ite(c, eint(a), eint(b)))
    if type(a) in (SymBool, bool) and type(b) in (SymBool, bool):
        return mkbool(ex.or_(ex.and_(c, ebool(a)), ex.and_(ex.not_(c), ebool(b))))
    return a if E.decide(c) else b


def eint(o):
    if type(o) is SymInt:
        return o.e
    if type(o) is SymBool:
        return int(o)
    if isinstance(o, bool):
        return int(o)
    return o


def _isint(o):
    return type(o) is SymInt or (isinstance(o, int) and not isinstance(o, SymBase)) or type(o) is SymBool


class SymInt(SymBase):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: int)

    def _cmp(self, o, f, g):
        if _isint(o):
            return mkbool(f(self.e, eint(o)))
        if type(o) is SymFloat:
            return g(o)
        if isinstance(o, float):
            return _int_float_cmp(self, o, f)
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, ex.eq, lambda o: o == self)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        return self._cmp(o, ex.lt, lambda o: o > self)

    def __le__(self, o):
        return self._cmp(o, ex.le, lambda o: o >= self)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: ex.lt(b, a), lambda o: o < self)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: ex.le(b, a), lambda o: o <= self)

    def __hash__(self):
        return 77731

    def __bool__(self):
        return E.decide(ex.ne(self.e, 0))

    def __add__(self, o):
        return mkint(ex.add(self.e, eint(o))) if _isint(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return mkint(ex.sub(self.e, eint(o))) if _isint(o) else NotImplemented

    def __rsub__(self, o):
        return mkint(ex.sub(eint(o), self.e)) if _isint(o) else NotImplemented

    def __mul__(self, o):
        if _isint(o):
            return mkint(ex.mul(self.e, eint(o)))
        if isinstance(o, (list, str, tuple)):
            return o * realize_int(self)
        return NotImplemented

    __rmul__ = __mul__

    def _div(self, a, b, f):
        if E.decide(ex.eq(b, 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(f(a, b))

    def __floordiv__(self, o):
        return self._div(self.e, eint(o), ex.fdiv) if _isint(o) else NotImplemented

    def __rfloordiv__(self, o):
        return self._div(eint(o), self.e, ex.fdiv) if _isint(o) else NotImplemented

    def __mod__(self, o):
        return self._div(self.e, eint(o), ex.fmod) if _isint(o) else NotImplemented

    def __rmod__(self, o):
        return self._div(eint(o), self.e, ex.fmod) if _isint(o) else NotImplemented

    def __divmod__(self, o):
        return (self // o, self % o)

    def __neg__(self):
        return mkint(ex.neg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(ex.ite(ex.lt(self.e, 0), ex.neg(self.e), self.e))

    def __invert__(self):
        return -self - 1

    def __truediv__(self, o):
        return realize_int(self) / o

    def __pow__(self, o):
        return realize_int(self) ** o

    def __and__(self, o):
        return realize_int(self) & o

    def __or__(self, o):
        return realize_int(self) | o

    def __int__(self):
        return realize_int(self)

    def __index__(self):
        return realize_int(self)

    def __float__(self):
        return float(realize_int(self))

    def __repr__(self):
        return "<symint>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symint>"

    def bit_length(self):
        return realize_int(self).bit_length()

    def is_integer(self):
        return True

    def __reduce__(self):
        return (_unpickle, (_pickle(self),))


def _int_float_cmp(si, f, op):
    import math

    if math.isnan(f):
        return False
    if math.isinf(f):
        return bool(op(0, 1 if f > 0 else -1))
    if f.is_integer():
        return mkbool(op(si.e, int(f)))
    fl = math.floor(f)
    # no integer equals f: int < f  <=>  int <= floor(f)
    if op is ex.eq:
        return False
    if op in (ex.lt, ex.le):
        return mkbool(ex.le(si.e, fl))
    return mkbool(ex.lt(fl, si.e))


REALIZE_CAP = 300


def realize_int(s):
    """Concretise by case split over all feasible values (finite domains), else pin one value."""
    if type(s) is not SymInt:
        return int(s)
    e = s.e
    if E.aborting:
        return 0
    if len(e.fv) == 1:
        (n,) = e.fv
        d = E.dom[n]
        if d is not None and n not in E.entangled:
            vals = sorted({ev(e, {n: v}) for v in d})
            if len(vals) == 1:
                return vals[0]
            return vals[E.nfork([ex.eq(e, v) for v in vals])]
    bounded = all(E.dom[n] is not None for n in e.fv)
    for _ in range(REALIZE_CAP if bounded else 12):
        i = len(E.trace)
        if i < len(E.prefix):
            # outcome recorded as pair (value token, taken)
            tok = E.prefix[i]
            v, taken = tok
            E.trace.append(tok)
        else:
            E.ensure_env()
            v = ev(e, E.env)
            c = ex.eq(e, v)
            r = E.check(ex.not_(c))
            E._tick()
            if r != "unsat":
                E.alts.append(tuple(E.trace) + ((v, 0),))
            E.trace.append((v, 1))
            taken = 1
        if taken:
            E._add(ex.eq(e, v))
            return v
        E._add(ex.ne(e, v))
    E.note("pinned int")
    E.pinned = True
    E.ensure_env()
    v = ev(e, E.env)
    E._add(ex.eq(e, v))
    return v


# ------------------------------------------------------------------ floats
class SymFloat(SymBase):
    """Either the exact value of a bounded int expression ('int', X) or the value of
    float(<string>) ('str', chars), equal to itself only when the strings are equal."""

    __slots__ = ("kind", "v")

    def __init__(self, kind, v):
        self.kind = kind
        self.v = v

    __class__ = property(lambda self: float)

    def _pin(self):
        if self.kind == "int":
            return float(realize_int(SymInt(self.v)))
        return float(pin_str(SymStr(self.v)))

    def __eq__(self, o):
        if self.kind == "int":
            if type(o) is SymFloat:
                if o.kind == "int":
                    return mkbool(ex.eq(self.v, o.v))
                return self._pin() == o._pin()
            if _isint(o):
                return mkbool(ex.eq(self.v, eint(o)))
            if isinstance(o, float):
                return SymInt(self.v) == o
            return NotImplemented
        if type(o) is SymFloat and o.kind == "str" and o.v == self.v:
            return not_(self.isnan())
        if type(o) is SymFloat:
            return self._pin() == o._pin()
        if isinstance(o, (int, float)):
            return self._pin() == o
        return NotImplemented

    def isnan(self):
        if self.kind == "int":
            return False
        s = SymStr(self.v).strip().lower()
        s = s.lstrip("+-") if len(s) else s
        return s == "nan"

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _i(self):
        return SymInt(self.v) if self.kind == "int" else self._pin()

    def __lt__(self, o):
        return self._i() < (o._i() if type(o) is SymFloat else o)

    def __le__(self, o):
        return self._i() <= (o._i() if type(o) is SymFloat else o)

    def __gt__(self, o):
        return self._i() > (o._i() if type(o) is SymFloat else o)

    def __ge__(self, o):
        return self._i() >= (o._i() if type(o) is SymFloat else o)

    def __bool__(self):
        return bool(self._i() != 0)

    def __hash__(self):
        return 77732

    def __float__(self):
        return self._pin()

    def __neg__(self):
        if self.kind == "str":
            t = SymStr(self.v)
            if len(t) and not t[0].isspace() and t[0] != "+" and t[0] != "-":
                return SymFloat("str", ("-" + t).chars)
        return -self._pin()

    def __mul__(self, o):
        if type(o) is int and o in (1, -1):
            return self if o == 1 else -self
        return self._pin() * o

    __rmul__ = __mul__

    def __int__(self):
        return int(self._pin())

    def __neg__(self):
        return -self._pin()

    def __repr__(self):
        return "<symfloat>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symfloat>"

    def __reduce__(self):
        return (_unpickle, (_pickle(self),))


# ----------------------------------------------------------------- strings
WS = ((9, 13), (28, 32), (133, 133), (160, 160))
DIGIT = ((48, 57),)
UPPER = ((65, 90),)
LOWER = ((97, 122),)


def cstr(chars):
    return "".join(map(chr, chars))


def mkstr(chars):
    for c in chars:
        if type(c) is X:
            return SymStr(chars)
    return cstr(chars)


def chars_of(s):
    if type(s) is SymStr:
        return s.chars
    if type(s) is str or isinstance(s, str):
        return tuple(map(ord, s))
    raise TypeError("expected str, got %r" % type(s))


def eqchars(a, b):
    if len(a) != len(b):
        return False
    return ex.and_(*[ex.eq(x, y) for x, y in zip(a, b)])


def is_str(o):
    return type(o) is SymStr or isinstance(o, str)


class SymStr(SymBase):
    """String of concrete length whose characters are code-point expressions.  `parts`
    holds an unmaterialised concatenation (f-strings, str(int)), expanded on demand."""

    __slots__ = ("_c", "parts")

    def __init__(self, chars, parts=None):
        self._c = tuple(chars) if chars is not None else None
        self.parts = parts

    __class__ = property(lambda self: str)

    @property
    def chars(self):
        if self._c is None:
            out = []
            for p in self.parts:
                if type(p) is SymInt:
                    out.extend(int_chars(p))
                elif type(p) is SymFloat:
                    out.extend(map(ord, str(p._pin())))
                else:
                    out.extend(chars_of(p))
            self._c = tuple(out)
            self.parts = None
        return self._c

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        if self._c is None:
            for p in self.parts:
                if type(p) is SymInt or len(p):
                    return True
            return False
        return len(self._c) > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.chars[i])
        n = len(self.chars)
        if type(i) is SymInt:
            i = realize_int(i)
        if not -n <= i < n:
            raise IndexError("string index out of range")
        return mkstr((self.chars[i],))

    def __iter__(self):
        for c in self.chars:
            yield mkstr((c,))

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        if self._c is None or (type(o) is SymStr and o._c is None):
            return SymStr(None, [self, o])
        return mkstr(self.chars + chars_of(o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        if self._c is None:
            return SymStr(None, [o, self])
        return mkstr(chars_of(o) + self.chars)

    def __mul__(self, n):
        return mkstr(self.chars * int(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if type(o) is SymStr or type(o) is str:
            return mkbool(eqchars(self.chars, chars_of(o)))
        if isinstance(o, str):
            return mkbool(eqchars(self.chars, chars_of(str(o))))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return 77733

    def _lex(self, o, strict):
        a, b = self.chars, chars_of(o)
        n = min(len(a), len(b))
        res = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for x, y in zip(reversed(a[:n]), reversed(b[:n])):
            res = ex.or_(ex.lt(x, y), ex.and_(ex.eq(x, y), res))
        return mkbool(res)

    def __lt__(self, o):
        return self._lex(o, True) if is_str(o) else NotImplemented

    def __le__(self, o):
        return self._lex(o, False) if is_str(o) else NotImplemented

    def __gt__(self, o):
        return not_(self._lex(o, False)) if is_str(o) else NotImplemented

    def __ge__(self, o):
        return not_(self._lex(o, True)) if is_str(o) else NotImplemented

    def contains(self, sub):
        s, t = self.chars, chars_of(sub)
        n, m = len(s), len(t)
        return mkbool(ex.or_(*[eqchars(s[i:i + m], t) for i in range(n - m + 1)]))

    def __contains__(self, sub):
        if not is_str(sub):
            raise TypeError("'in <string>' requires string as left operand")
        return bool(self.contains(sub))

    # searching (forking on the position)
    def find(self, sub, start=0, end=None):
        s, t = self.chars, chars_of(sub)
        start, end, _ = slice(start, end).indices(len(s))
        m = len(t)
        for i in range(start, end - m + 1):
            if E.decide(eqchars(s[i:i + m], t)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        s, t = self.chars, chars_of(sub)
        start, end, _ = slice(start, end).indices(len(s))
        m = len(t)
        for i in range(end - m, start - 1, -1):
            if E.decide(eqchars(s[i:i + m], t)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, *a):
        s, t = self.chars, chars_of(sub)
        n, i, m = 0, 0, len(t)
        if m == 0:
            return len(s) + 1
        while i <= len(s) - m:
            if E.decide(eqchars(s[i:i + m], t)):
                n += 1
                i += m
            else:
                i += 1
        return n

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return or_(*[self.startswith(q, start, end) for q in p])
        s = self.chars[slice(start, end)]
        t = chars_of(p)
        return mkbool(len(s) >= len(t) and eqchars(s[:len(t)], t))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return or_(*[self.endswith(q, start, end) for q in p])
        s = self.chars[slice(start, end)]
        t = chars_of(p)
        if not t:
            return True
        return mkbool(len(s) >= len(t) and eqchars(s[-len(t):], t))

    def removeprefix(self, p):
        return self[len(p):] if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if len(p) and bool(self.endswith(p)) else self

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur = [], []
            s = self.chars
            i = 0
            while i < len(s):
                if E.decide(ex.in_ranges(s[i], WS)):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                else:
                    if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                        out.append(mkstr(s[i:]).rstrip())
                        return out
                    cur.append(s[i])
                i += 1
            if cur:
                out.append(mkstr(cur))
            return out
        t = chars_of(sep)
        if not t:
            raise ValueError("empty separator")
        s, m = self.chars, len(t)
        out, last, i = [], 0, 0
        while i <= len(s) - m:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if E.decide(eqchars(s[i:i + m], t)):
                out.append(mkstr(s[last:i]))
                i += m
                last = i
            else:
                i += 1
        out.append(mkstr(s[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            return self.split(sep)
        t = chars_of(sep)
        s, m = self.chars, len(t)
        out, last, i = [], len(s), len(s) - m
        while i >= 0:
            if len(out) >= maxsplit:
                break
            if E.decide(eqchars(s[i:i + m], t)):
                out.append(mkstr(s[i + m:last]))
                last = i
                i -= m
            else:
                i -= 1
        out.append(mkstr(s[:last]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def splitlines(self, keepends=False):
        return pin_str(self).splitlines(keepends)

    def _inset(self, c, chars):
        if chars is None:
            return ex.in_ranges(c, WS)
        return ex.or_(*[ex.eq(c, d) for d in chars_of(chars)])

    def lstrip(self, chars=None):
        s = self.chars
        i = 0
        while i < len(s) and E.decide(self._inset(s[i], chars)):
            i += 1
        return mkstr(s[i:])

    def rstrip(self, chars=None):
        s = self.chars
        i = len(s)
        while i > 0 and E.decide(self._inset(s[i - 1], chars)):
            i -= 1
        return mkstr(s[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def lower(self):
        return mkstr([ex.ite(ex.in_ranges(c, UPPER), ex.add(c, 32), c) for c in self.chars])

    casefold = lower

    def upper(self):
        return mkstr([ex.ite(ex.in_ranges(c, LOWER), ex.sub(c, 32), c) for c in self.chars])

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def replace(self, old, new, count=-1):
        s, t, u = self.chars, chars_of(old), chars_of(new)
        m = len(t)
        if m == 0:
            return pin_str(self).replace(old, new, count)
        out, i, n = [], 0, 0
        while i < len(s):
            if i <= len(s) - m and (count < 0 or n < count) and E.decide(eqchars(s[i:i + m], t)):
                out.extend(u)
                i += m
                n += 1
            else:
                out.append(s[i])
                i += 1
        return mkstr(out)

    def join(self, it):
        return sym_join(self, it)

    def _all(self, ranges):
        if not self.chars:
            return False
        return mkbool(ex.and_(*[ex.in_ranges(c, ranges) for c in self.chars]))

    def isdigit(self):
        return self._all(DIGIT)

    isdecimal = isdigit
    isnumeric = isdigit

    def isalpha(self):
        return self._all(UPPER + LOWER)

    def isalnum(self):
        return self._all(DIGIT + UPPER + LOWER)

    def isspace(self):
        return self._all(WS)

    def isascii(self):
        return mkbool(ex.and_(*[ex.in_ranges(c, ((0, 127),)) for c in self.chars]))

    def isprintable(self):
        return mkbool(ex.and_(*[ex.in_ranges(c, ((32, 126),)) for c in self.chars]))

    def isidentifier(self):
        if not self.chars:
            return False
        return mkbool(ex.and_(
            ex.in_ranges(self.chars[0], UPPER + LOWER + ((95, 95),)),
            *[ex.in_ranges(c, DIGIT + UPPER + LOWER + ((95, 95),)) for c in self.chars[1:]]))

    def isupper(self):
        up = ex.or_(*[ex.in_ranges(c, UPPER) for c in self.chars])
        lo = ex.or_(*[ex.in_ranges(c, LOWER) for c in self.chars])
        return mkbool(ex.and_(up, ex.not_(lo)))

    def islower(self):
        up = ex.or_(*[ex.in_ranges(c, UPPER) for c in self.chars])
        lo = ex.or_(*[ex.in_ranges(c, LOWER) for c in self.chars])
        return mkbool(ex.and_(lo, ex.not_(up)))

    def encode(self, *a):
        return pin_str(self).encode(*a)

    def format(self, *a, **k):
        return pin_str(self).format(*a, **k)

    def __mod__(self, o):
        return pin_str(self) % o

    def title(self):
        return pin_str(self).title()

    def translate(self, t):
        return pin_str(self).translate(t)

    def zfill(self, w):
        return pin_str(self).zfill(w)

    def ljust(self, w, *a):
        return pin_str(self).ljust(w, *a)

    def expandtabs(self, *a):
        return pin_str(self).expandtabs(*a)

    def __str__(self):
        return "<symstr>"

    def __repr__(self):
        return "'<symstr>'"

    def __format__(self, spec):
        return "<symstr>"

    def __reduce__(self):
        return (_unpickle, (_pickle(self),))


def pin_str(s):
    """Concretise a string to one model value; exploration becomes incomplete unless the
    value is unique (small finite products are split exhaustively)."""
    if type(s) is not SymStr:
        return s
    if E.aborting:
        return "".join(chr(c) if type(c) is not X else "?" for c in s.chars)
    cs = s.chars
    total = 1
    for c in cs:
        if type(c) is X:
            for n in c.fv:
                total *= len(E.dom[n]) if E.dom[n] is not None else 10 ** 9
    if total <= 200:
        return cstr([realize_int(SymInt(c)) if type(c) is X else c for c in cs])
    E.note("pinned str")
    E.pinned = True
    E.ensure_env()
    out = []
    for c in cs:
        if type(c) is X:
            i = len(E.trace)
            if i < len(E.prefix):
                v = E.prefix[i][0]
            else:
                E.ensure_env()
                v = ev(c, E.env)
            E.trace.append((v, 1))
            E._add(ex.eq(c, v))
            out.append(v)
        else:
            out.append(c)
    return cstr(out)


def int_chars(si):
    """Decimal representation of a SymInt: fork on sign and number of digits."""
    if E.decide(ex.lt(si.e, 0)):
        head, e = (45,), ex.neg(si.e)
    else:
        head, e = (), si.e
    k = 1
    while k < 25 and not E.decide(ex.lt(e, 10 ** k)):
        k += 1
    digs = []
    for j in range(k - 1, -1, -1):
        q = ex.fdiv(e, 10 ** j) if j else e
        digs.append(ex.add(ex.fmod(q, 10) if j < k - 1 else q, 48))
    return head + tuple(digs)


def sym_join(sep, it):
    items = list(it)
    if not any(type(x) is SymStr for x in items) and type(sep) is not SymStr:
        return sep.join(items)
    out = []
    sc = chars_of(sep)
    for i, x in enumerate(items):
        if not is_str(x):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
        if i:
            out.extend(sc)
        out.extend(chars_of(x))
    return mkstr(out)


def parse_int(s):
    """int(str) for a SymStr: same language as Python's int(), base 10 (ASCII)."""
    t = s.strip()
    cs = chars_of(t)
    bad = ValueError("invalid literal for int() with base 10")
    if not cs:
        raise bad
    sign = 1
    i = 0
    if E.decide(ex.eq(cs[0], 45)):
        sign, i = -1, 1
    elif E.decide(ex.eq(cs[0], 43)):
        i = 1
    if i >= len(cs):
        raise bad
    val = 0
    prev_us = True
    for c in cs[i:]:
        if E.decide(ex.in_ranges(c, DIGIT)):
            val = ex.add(ex.mul(val, 10), ex.sub(c, 48))
            prev_us = False
        elif not prev_us and E.decide(ex.eq(c, 95)):
            prev_us = True
        else:
            raise bad
    if prev_us:
        raise bad
    return mkint(ex.neg(val) if sign < 0 else val)


def parse_float(s):
    """float(str) for a SymStr: acceptance per Python's grammar; value kept opaque."""
    t = s.strip()
    cs = list(chars_of(t))
    bad = ValueError("could not convert string to float")
    if not cs:
        raise bad
    i = 0
    if E.decide(ex.in_ranges(cs[0], ((43, 43), (45, 45)))):
        i = 1
    rest = cs[i:]
    if not rest:
        raise bad
    low = [ex.ite(ex.in_ranges(c, UPPER), ex.add(c, 32), c) for c in rest]
    for w in ("inf", "nan", "infinity"):
        if len(w) == len(rest) and E.decide(eqchars(low, tuple(map(ord, w)))):
            return _mkfloat(t)
    # digitpart [. digitpart] [e [+-] digitpart]; '_' only between digits
    st = "start"  # start,int,us,dot0,frac,fus,exp,esign,edig,eus
    seen_int = False
    for c in rest:
        isd = E.decide(ex.in_ranges(c, DIGIT))
        if isd:
            st = {"start": "int", "int": "int", "us": "int", "dot": "frac", "frac": "frac",
                  "fus": "frac", "exp": "edig", "esign": "edig", "edig": "edig", "eus": "edig"}[st]
            if st == "int":
                seen_int = True
            continue
        if st in ("int", "frac", "edig") and E.decide(ex.eq(c, 95)):
            st = {"int": "us", "frac": "fus", "edig": "eus"}[st]
            continue
        if st in ("start", "int") and E.decide(ex.eq(c, 46)):
            st = "dot"
            continue
        if (st in ("int", "frac") or (st == "dot" and seen_int)) and E.decide(
                ex.in_ranges(c, ((69, 69), (101, 101)))):
            st = "exp"
            continue
        if st == "exp" and E.decide(ex.in_ranges(c, ((43, 43), (45, 45)))):
            st = "esign"
            continue
        raise bad
    if st in ("int", "frac", "edig") or (st == "dot" and seen_int):
        return _mkfloat(t)
    raise bad


def _mkfloat(t):
    if type(t) is SymStr:
        return SymFloat("str", t.chars)
    return float(t)


SYM = frozenset((SymBool, SymInt, SymStr, SymFloat))


# ---------------------------------------------------------- model evaluation
def concretize(v, env):
    """Deep evaluation of a (possibly symbolic) observation under env."""
    t = type(v)
    if t is SymBool:
        return bool(ev(v.e, env))
    if t is SymInt:
        return ev(v.e, env)
    if t is SymStr:
        if v._c is None:
            return "".join(str(concretize(p, env)) for p in v.parts)
        return "".join(chr(ev(c, env)) for c in v._c)
    if t is SymFloat:
        if v.kind == "int":
            return float(ev(v.v, env))
        return float("".join(chr(ev(c, env)) for c in v.v))
    if t is list:
        return [concretize(x, env) for x in v]
    if t is tuple:
        return tuple(concretize(x, env) for x in v)
    if t is dict:
        return {concretize(k, env): concretize(x, env) for k, x in v.items()}
    if t in (set, frozenset):
        return sorted((concretize(x, env) for x in v), key=repr)
    return v


# ------------------------------------------------------------------ completion
# Operations of the real type without a symbolic model are carried out on one concrete value of the
# operand (the path is then reported as pinned, i.e. not exhaustive) instead of failing.
def _realize(x):
    t = type(x)
    if t is SymInt:
        return realize_int(x)
    if t is SymBool:
        return bool(x)
    if t is SymStr:
        return pin_str(x)
    if t is SymFloat:
        E.pinned = True
        return x._pin()
    return x


_SKIP = frozenset(("__class__", "__new__", "__init__", "__getattribute__", "__setattr__", "__delattr__", "__init_subclass__",
                   "__subclasshook__", "__dir__", "__doc__", "__sizeof__", "__getnewargs__", "__reduce__", "__reduce_ex__",
                   "__getstate__", "__getformat__"))
_ARITH = ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__floordiv__",
          "__rfloordiv__", "__mod__", "__rmod__", "__pow__", "__rpow__", "__and__", "__rand__", "__or__", "__ror__", "__xor__", "__rxor__")


def _concrete(real, name):
    def op(self, *a, **k):
        E.note("realized at %s.%s" % (real.__name__, name))
        r = getattr(_realize(self), name)
        return r(*[_realize(x) for x in a], **{n: _realize(v) for n, v in k.items()})
    op.__name__ = name
    return op


def _completed(orig, real, name):
    def op(self, o, *a):
        r = orig(self, o, *a)
        if r is NotImplemented and isinstance(o, (int, float, complex)) and real is not str:
            r = getattr(_realize(self), name)(_realize(o), *a)
        return r
    op.__name__ = name
    return op


def _complete():
    for sym, real in ((SymBool, bool), (SymInt, int), (SymFloat, float), (SymStr, str)):
        for name in dir(real):
            if name in _SKIP:
                continue
            if getattr(sym, name, None) is getattr(object, name, None):
                if callable(getattr(real, name)):
                    setattr(sym, name, _concrete(real, name))
                else:
                    setattr(sym, name, property(lambda self, n=name: getattr(_realize(self), n)))
        for name in _ARITH:
            if name in sym.__dict__ and hasattr(real, name):
                setattr(sym, name, _completed(sym.__dict__[name], real, name))


_complete()
