"""Runtime hooks inserted by the instrumentation, and models of builtins on symbolic values."""
import enum
import io
import math
import operator
import os
import pathlib
import re
import string
import types

from . import expr as ex
from . import rx
from .core import (E, SYM, SymBool, SymFloat, SymInt, SymStr, Unsupported, X, and_, chars_of, eint,
                   int_chars, ite, mkbool, mkint, mkstr, not_, or_, parse_float, parse_int, pin_str,
                   realize_int, sym_join)

PYT = {SymBool: bool, SymInt: int, SymStr: str, SymFloat: float}
_FUNC = types.FunctionType
_METH = types.MethodType
_BUILTIN = types.BuiltinFunctionType
_CMETH = type(re.compile("").match)
_dict_keys = type({}.keys())


def _anysym(a, k):
    for x in a:
        if type(x) in SYM:
            return True
    if k:
        for x in k.values():
            if type(x) in SYM:
                return True
    return False


# ---------------------------------------------------------------- dict model
def _compat(k, key):
    tk, t = type(k), type(key)
    if t is SymStr:
        return tk is str or tk is SymStr or (isinstance(k, str) and tk not in SYM)
    if tk is SymStr:
        return t is str or isinstance(key, str)
    if t is SymInt:
        return tk in (int, SymInt, bool, float) or isinstance(k, (int, float))
    if tk is SymInt:
        return isinstance(key, (int, float))
    return tk in SYM or t in SYM


NOTFOUND = object()


def dfind(d, key):
    """The key object stored in d equal to key, or NOTFOUND (forks)."""
    t = type(key)
    if t is SymBool:
        key = bool(key)
        t = bool
    if t not in SYM:
        if t is tuple and any(type(x) in SYM for x in key):
            for k in d:
                if type(k) is tuple and len(k) == len(key) and all(bool(a == b) for a, b in zip(k, key)):
                    return k
            return NOTFOUND
        if key in d:
            return key
        if E.symkeys:
            for k in d:
                if type(k) in SYM and _compat(k, key) and k == key:
                    return k
        return NOTFOUND
    for k in list(d):
        if k is key:
            return k
    for k in list(d):
        if _compat(k, key) and k == key:
            return k
    return NOTFOUND


def symkey(key):
    t = type(key)
    return t in SYM or (t is tuple and any(type(x) in SYM for x in key))


def dset(d, key, val):
    k = dfind(d, key)
    if k is NOTFOUND:
        if type(key) is SymBool:
            key = bool(key)
        if symkey(key):
            E.symkeys += 1
        k = key
    dict.__setitem__(d, k, val) if type(d) is dict else d.__setitem__(k, val)


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        if symkey(k) or E.symkeys:
            dset(d, k, v)
        else:
            d[k] = v
    return d


def _keyerr(key):
    return KeyError(key)


_MISS = object()


def dict_method(d, name, a, k):
    if name in ("get", "pop", "setdefault", "__contains__", "__getitem__", "__setitem__", "__delitem__"):
        key = a[0] if a else None
        kk = dfind(d, key)
        if name == "get":
            dflt = a[1] if len(a) > 1 else None
            return dflt if kk is NOTFOUND else d[kk]
        if name == "__contains__":
            return kk is not NOTFOUND
        if name == "pop":
            if kk is NOTFOUND:
                if len(a) > 1:
                    return a[1]
                raise _keyerr(key)
            return dict.pop(d, kk)
        if name == "setdefault":
            if kk is NOTFOUND:
                v = a[1] if len(a) > 1 else None
                dset(d, key, v)
                return v
            return d[kk]
        if name == "__getitem__":
            if kk is NOTFOUND:
                return _missing(d, key)
            return d[kk]
        if name == "__setitem__":
            return dset(d, key, a[1])
        if kk is NOTFOUND:
            raise _keyerr(key)
        return dict.__delitem__(d, kk)
    if name == "update":
        for src in a:
            it = list(src.items()) if hasattr(src, "items") else list(src)
            for kk, v in it:
                dset(d, kk, v)
        for kk, v in k.items():
            dset(d, kk, v)
        return None
    return getattr(d, name)(*a, **k)


def _missing(d, key):
    m = getattr(type(d), "__missing__", None)
    if m is not None:
        f = getattr(d, "default_factory", None)
        if f is None:
            raise _keyerr(key)
        v = f()
        dset(d, key, v)
        return v
    raise _keyerr(key)


# ------------------------------------------------------------ indices/slices
def list_pos(i, n):
    """Resolve index expression i in a sequence of length n: returns concrete position or None."""
    if type(i) is not SymInt:
        i = operator.index(i)
        if i < 0:
            i += n
        return i if 0 <= i < n else None
    e = i.e
    conds = [ex.or_(ex.eq(e, p), ex.eq(e, p - n)) for p in range(n)]
    conds.append(ex.or_(ex.lt(e, -n), ex.le(n, e)))
    k = E.nfork(conds)
    return k if k < n else None


def clamp_pos(i, n):
    """list.insert position."""
    if type(i) is not SymInt:
        i = operator.index(i)
        if i < 0:
            i = max(0, i + n)
        return min(i, n)
    e = i.e
    conds = []
    for p in range(n + 1):
        c = [ex.eq(e, p), ex.eq(e, p - n)] if p < n else [ex.le(n, e)]
        if p == 0:
            c.append(ex.lt(e, -n))
        conds.append(ex.or_(*c))
    return E.nfork(conds)


def slice_parts(sl, n):
    """slice.indices with symbolic members: (start, stop, step) possibly SymInt."""
    step = sl.step
    if step is None:
        step = 1
    if not isinstance(step, int):
        step = operator.index(step)
    if bool(step == 0):
        raise ValueError("slice step cannot be zero")
    neg = bool(step < 0)
    lower, upper = (-1, n - 1) if neg else (0, n)

    def fix(v, dflt):
        if v is None:
            return dflt
        if type(v) is not SymInt:
            v = operator.index(v)
            v = max(v + n, lower) if v < 0 else min(v, upper)
            return v
        e = v.e
        r = ex.ite(ex.lt(e, 0),
                   ex.ite(ex.lt(ex.add(e, n), lower), lower, ex.add(e, n)),
                   ex.ite(ex.lt(upper, e), upper, e))
        return mkint(r)

    start = fix(sl.start, upper if neg else lower)
    stop = fix(sl.stop, lower if neg else upper)
    return start, stop, step


def has_symslice(s):
    return type(s.start) is SymInt or type(s.stop) is SymInt or type(s.step) is SymInt


def slice_positions(sl, n):
    start, stop, step = slice_parts(sl, n)
    if type(step) is SymInt:
        e = step.e
        m = max(n, 1)
        cand = [k for k in range(-m, m + 1) if k]
        conds = [ex.eq(e, k) for k in cand] + [ex.lt(m, e), ex.lt(e, -m)]
        k = E.nfork(conds)
        step = cand[k] if k < len(cand) else (m + 1 if k == len(cand) else -(m + 1))
    start, stop = realize_int(start), realize_int(stop)
    return range(start, stop, step)


def native_slice(r):
    """A native slice meaning the same as the clamped (start, stop, step) kept in range r."""
    if r.step > 0:
        return slice(r.start, r.stop, r.step)
    far = -(2 ** 60)
    return slice(r.start if r.start >= 0 else far, r.stop if r.stop >= 0 else far, r.step)


# -------------------------------------------------------------- subscripting
def getitem(o, i):
    ti = type(i)
    if ti not in SYM:
        if ti is slice:
            if has_symslice(i):
                to = type(o)
                if to is SymStr or isinstance(o, (list, tuple, str)):
                    r = slice_positions(i, len(o))
                    if to is SymStr or isinstance(o, str):
                        cs = chars_of(o)
                        return mkstr([cs[p] for p in r])
                    return type(o)([o[p] for p in r]) if to in (list, tuple) else [o[p] for p in r]
            return o[i]
        if E.symkeys and isinstance(o, dict):
            k = dfind(o, i)
            if k is NOTFOUND:
                return _missing(o, i)
            return o[k]
        if ti is tuple and isinstance(o, dict) and symkey(i):
            k = dfind(o, i)
            if k is NOTFOUND:
                return _missing(o, i)
            return o[k]
        return o[i]
    if isinstance(o, dict):
        k = dfind(o, i)
        if k is NOTFOUND:
            return _missing(o, i)
        return o[k]
    if ti is SymInt:
        to = type(o)
        if to is SymStr or isinstance(o, (list, tuple, str)):
            p = list_pos(i, len(o))
            if p is None:
                raise IndexError("index out of range")
            return o[p]
        if to is range:
            p = list_pos(i, len(o))
            if p is None:
                raise IndexError("range object index out of range")
            return o[p]
    if ti is SymBool and isinstance(o, (list, tuple, str)):
        return o[int(i)]
    if ti is SymStr:
        if isinstance(o, enum.EnumMeta):
            for name, m in o.__members__.items():
                if i == name:
                    return m
            raise KeyError(i)
        if o is os.environ:
            for name in list(o):
                if len(name) == len(i) and i == name:
                    return o[name]
            raise KeyError(i)
        if isinstance(o, types.MappingProxyType):
            for name in o:
                if isinstance(name, str) and i == name:
                    return o[name]
            raise KeyError(i)
    return o[i]


def setitem(v, o, i):
    ti = type(i)
    if isinstance(o, dict) and type(o).__setitem__ in (dict.__setitem__,):
        if ti in SYM or E.symkeys or (ti is tuple and symkey(i)):
            dset(o, i, v)
            return
        o[i] = v
        return
    if isinstance(o, list):
        if ti is SymInt:
            p = list_pos(i, len(o))
            if p is None:
                raise IndexError("list assignment index out of range")
            o[p] = v
            return
        if ti is slice and has_symslice(i):
            r = slice_positions(i, len(o))
            o[native_slice(r)] = v
            return
    o[i] = v


def delitem(o, i):
    ti = type(i)
    if isinstance(o, dict) and type(o).__delitem__ is dict.__delitem__:
        if ti in SYM or E.symkeys:
            k = dfind(o, i)
            if k is NOTFOUND:
                raise KeyError(i)
            del o[k]
            return
    elif isinstance(o, list):
        if ti is SymInt:
            p = list_pos(i, len(o))
            if p is None:
                raise IndexError("list assignment index out of range")
            del o[p]
            return
        if ti is slice and has_symslice(i):
            r = slice_positions(i, len(o))
            for p in sorted(r, reverse=True):
                del o[p]
            return
    del o[i]


# ------------------------------------------------------------- in / is / fstr
def contains(a, b):
    ta, tb = type(a), type(b)
    if tb is SymStr:
        return b.contains(a) if (ta is str or ta is SymStr) else (a in b)
    if ta in SYM:
        if tb is str and ta is SymStr:
            return SymStr(chars_of(b)).contains(a)
        if isinstance(b, dict):
            return dfind(b, a) is not NOTFOUND
        if tb in (set, frozenset, _dict_keys):
            return dfind(b, a) is not NOTFOUND
        if tb is types.MappingProxyType:
            return any(isinstance(k, str) and bool(k == a) for k in b)
        if b is os.environ:
            return any(len(k) == len(a) and bool(k == a) for k in list(b))
        if ta is SymInt and tb is range:
            if b.step == 1:
                return mkbool(ex.and_(ex.le(b.start, a.e), ex.lt(a.e, b.stop)))
            return mkbool(ex.or_(*[ex.eq(a.e, v) for v in b]))
        if tb in (list, tuple):
            if ta is SymStr and all(type(x) in (str, SymStr) for x in b):
                return or_(*[a == x for x in b])
        return a in b
    if E.symkeys and (isinstance(b, dict) or tb in (set, frozenset, _dict_keys)):
        return dfind(b, a) is not NOTFOUND
    if ta is tuple and isinstance(b, dict) and symkey(a):
        return dfind(b, a) is not NOTFOUND
    if tb is SymRange:
        return b.has(a)
    return a in b


def not_contains(a, b):
    return not_(contains(a, b))


def is_(a, b):
    ta, tb = type(a), type(b)
    if ta is SymBool or tb is SymBool:
        if ta is SymBool and tb is SymBool:
            return mkbool(ex.eq(a.e, b.e))
        if ta is SymBool:
            return mkbool(a.e if b else ex.not_(a.e)) if tb is bool else False
        return mkbool(b.e if a else ex.not_(b.e)) if ta is bool else False
    return a is b


def isnot(a, b):
    return not_(is_(a, b))


def fstr(*parts):
    """parts: str literals or (value, conversion, spec) tuples."""
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if type(v) in SYM:
            if conv in (-1, 115) and not spec:
                r = to_str(v)
                if type(r) is SymStr:
                    sym = True
                out.append(r)
                continue
            if type(v) is SymBool:
                v = bool(v)
            elif conv == 114:
                out.append(repr(v))
                continue
            else:
                out.append("<sym>")
                continue
        if conv == 114:
            v = repr(v)
        elif conv == 97:
            v = ascii(v)
        elif not spec and type(v) is not str:
            v = to_str(v)
            if type(v) is SymStr:
                sym = True
                out.append(v)
                continue
        out.append(format(v, spec) if spec else v if type(v) is str else format(v))
    if not sym:
        return "".join(out)
    return SymStr(None, out)


# ------------------------------------------------------------------- classes
def to_str(x="", *a, **k):
    t = type(x)
    if a or k:
        return str(x, *a, **k)
    if t is str:
        return x
    if t is SymStr:
        return x
    if t is SymInt or t is SymFloat:
        return SymStr(None, [x])
    if t is SymBool:
        return "True" if x else "False"
    if isinstance(x, BaseException) and type(x).__str__ is BaseException.__str__:
        if len(x.args) == 1 and type(x.args[0]) in SYM:
            return to_str(x.args[0])
        return str(x)
    f = t.__str__
    if type(f) is _FUNC:
        return f(x)
    return str(x)


def to_repr(x):
    f = type(x).__repr__
    if type(f) is _FUNC and type(x) not in SYM:
        return f(x)
    return repr(x)


def to_int(x=0, *a, **k):
    t = type(x)
    if t is SymStr:
        if a or k:
            return int(pin_str(x), *a, **k)
        return parse_int(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return int(x)
    if t is SymFloat:
        return mkint(x.v) if x.kind == "int" else int(x._pin())
    return int(x, *a, **k)


def to_float(x=0.0):
    t = type(x)
    if t is SymStr:
        return parse_float(x)
    if t is SymInt:
        return SymFloat("int", x.e)
    if t is SymBool:
        return float(bool(x))
    if t is SymFloat:
        return x
    return float(x)


def to_bool(x=False):
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return mkbool(ex.ne(x.e, 0))
    return bool(x)


def typeof(*a):
    if len(a) == 1:
        return PYT.get(type(a[0])) or type(a[0])
    return type(*a)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        if bool(self.step > 0):
            while bool(i < self.stop):
                yield i
                i = i + self.step
        else:
            while bool(i > self.stop):
                yield i
                i = i + self.step

    def __len__(self):
        n = 0
        for _ in self:
            n += 1
        return n

    def __bool__(self):
        return bool(self.start < self.stop) if bool(self.step > 0) else bool(self.start > self.stop)

    def __getitem__(self, i):
        return list(self)[i]

    def __reversed__(self):
        return reversed(list(self))

    def has(self, x):
        return any(bool(x == v) for v in self)


def mkrange(*a):
    if not _anysym(a, None):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0], 1)
    st = a[2] if len(a) > 2 else 1
    if bool(st == 0):
        raise ValueError("range() arg 3 must not be zero")
    return SymRange(a[0], a[1], st)


class SymStringIO:
    """io.StringIO accepting symbolic strings."""

    def __init__(self, init=""):
        self.p = [init] if len(init) else []

    def write(self, s):
        self.p.append(s)
        return len(s)

    def getvalue(self):
        return sym_join("", self.p)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class _TmplStub(string.Template):
    pass


def mk_template(template):
    t = template
    # message formatting is stubbed for symbolic messages
    if type(t) is SymStr:
        t = "<symbolic message>"
    return string.Template(t)


def mkdict_ctor(*a, **k):
    if len(a) == 1 and not isinstance(a[0], dict) and not hasattr(a[0], "keys"):
        pairs = [tuple(p) for p in a[0]]
        d = mkdict(pairs)
        for kk, v in k.items():
            d[kk] = v
        return d
    return dict(*a, **k)


def mkset(*a):
    if len(a) == 1:
        items = list(a[0])
        if E.symkeys or any(symkey(x) for x in items):
            s = set()
            for x in items:
                set_add(s, x)
            return s
        return set(items)
    return set(*a)


def set_add(s, x):
    if dfind(s, x) is NOTFOUND:
        if symkey(x):
            E.symkeys += 1
        s.add(x)


def mkpath(*a):
    return pathlib.Path(*[pin_str(x) if type(x) is SymStr else x for x in a])


CLS = {str: to_str, int: to_int, float: to_float, bool: to_bool, type: typeof, range: mkrange,
       io.StringIO: SymStringIO, string.Template: mk_template, dict: mkdict_ctor, set: mkset,
       frozenset: lambda *a: frozenset(mkset(*a)), pathlib.Path: mkpath}


def enum_call(f, a, k):
    v = a[0]
    for m in f:
        mv = m.value
        if isinstance(mv, (int, str, float)) and bool(v == mv):
            return m
    raise ValueError("not a valid %s" % f.__qualname__)


# ----------------------------------------------------------------- functions
def m_len(x):
    if type(x) is SymRange:
        return len(x)
    return len(x)


def m_ord(c):
    if type(c) is SymStr:
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return mkint(c.chars[0])
    return ord(c)


def m_chr(i):
    if type(i) is SymInt:
        return SymStr((i.e,))
    return chr(i)


def m_isnan(x):
    if type(x) is SymFloat:
        return x.isnan()
    if type(x) in (SymInt, SymBool):
        return False
    return math.isnan(x)


def m_isinf(x):
    if type(x) is SymFloat:
        if x.kind == "int":
            return False
        return math.isinf(x._pin())
    if type(x) in (SymInt, SymBool):
        return False
    return math.isinf(x)


def m_isfinite(x):
    if type(x) in (SymFloat, SymInt, SymBool):
        return not_(or_(m_isnan(x), m_isinf(x)))
    return math.isfinite(x)


def m_format(v, spec=""):
    if type(v) in SYM and not spec:
        return to_str(v)
    return format(v, spec)


def m_isinstance(o, c):
    return isinstance(o, c)


def m_hash(x):
    return hash(x)


def m_repr(x):
    return to_repr(x)


def _str_method_index(f):
    pass


def _attr_of(o, name):
    """The existing attribute name of o equal to the symbolic name, or None (forks)."""
    for n in dir(o):
        if isinstance(n, str) and len(n) == len(name) and name == n:
            return n
    return None


def m_getattr(o, name, *d):
    if type(name) is not SymStr:
        return getattr(o, name, *d)
    n = _attr_of(o, name)
    if n is not None:
        return getattr(o, n, *d)
    f = getattr(type(o), "__getattr__", None)
    try:
        if f is None:
            raise AttributeError("no attribute")
        return f(o, name)
    except AttributeError:
        if d:
            return d[0]
        raise


def m_hasattr(o, name):
    try:
        m_getattr(o, name)
    except AttributeError:
        return False
    return True


def m_setattr(o, name, v):
    if type(name) is not SymStr:
        return setattr(o, name, v)
    f = type(o).__setattr__
    if f is object.__setattr__:
        return setattr(o, pin_str(name), v)
    return f(o, name, v)


def m_delattr(o, name):
    if type(name) is not SymStr:
        return delattr(o, name)
    f = type(o).__delattr__
    if f is object.__delattr__:
        return delattr(o, pin_str(name))
    return f(o, name)


FUN = {getattr: m_getattr, hasattr: m_hasattr, setattr: m_setattr, delattr: m_delattr, len: m_len, ord: m_ord, chr: m_chr, math.isnan: m_isnan, math.isinf: m_isinf,
       math.isfinite: m_isfinite, format: m_format, repr: m_repr}

# builtins that work natively with symbolic arguments (through the dunder protocol)
NATIVE_OK = frozenset((isinstance, issubclass, abs, min, max, sum, all, any, sorted, iter, next, callable, id, print, divmod, pow, hash, vars, dir,
                       operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge,
                       operator.add, operator.sub, operator.not_, operator.truth))
PYSTUBS = {}


def _re_fn(name):
    native = getattr(re, name)

    def f(pattern, s, *a, **k):
        if type(s) is SymStr:
            pat = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, *a, **k)
            return rx.pattern_call(pat, name, (s,), {})
        return native(pattern, s, *a, **k)

    PYSTUBS[native] = f


for _n in ("match", "fullmatch", "search", "findall", "finditer"):
    _re_fn(_n)


def _re_sub(pattern, repl, s, *a, **k):
    if type(s) is SymStr:
        return re.sub(pattern, repl, pin_str(s), *a, **k)
    return re.sub(pattern, repl, s, *a, **k)


PYSTUBS[re.sub] = _re_sub

LIST_NATIVE = frozenset(("append", "extend", "sort", "reverse", "clear", "copy", "count", "remove", "index", "__iter__"))


def realize(x):
    t = type(x)
    if t is SymInt:
        return realize_int(x)
    if t is SymBool:
        return bool(x)
    if t is SymStr:
        return pin_str(x)
    if t is SymFloat:
        E.pinned = True
        return x._pin()
    return x


def realize_args(f, a, k):
    E.note("realized at %s" % getattr(f, "__qualname__", repr(f)))
    return tuple(realize(x) for x in a), {n: realize(v) for n, v in k.items()}


def call(f, /, *a, **k):
    t = type(f)
    if t is _FUNC:
        s = PYSTUBS.get(f)
        if s is not None:
            return s(*a, **k)
        return f(*a, **k)
    if t is _METH:
        return f(*a, **k)
    if t is _BUILTIN or t is _CMETH:
        s = FUN.get(f)
        if s is not None:
            return s(*a, **k)
        self = f.__self__
        ts = type(self)
        if ts is types.ModuleType or self is None:
            if _anysym(a, k) and f not in NATIVE_OK:
                a, k = realize_args(f, a, k)
            return f(*a, **k)
        name = f.__name__
        if ts is str:
            if name == "join":
                return sym_join(self, a[0])
            if _anysym(a, k) or (a and type(a[0]) is tuple and _anysym(a[0], None)):
                if name == "format":
                    a, k = realize_args(f, a, k)
                    return f(*a, **k)
                return getattr(SymStr(chars_of(self)), name)(*a, **k)
            return f(*a, **k)
        if isinstance(self, dict):
            if E.symkeys or (a and symkey(a[0])):
                return dict_method(self, name, a, k)
            if name == "update" and a and hasattr(a[0], "keys") is False:
                return dict_method(self, name, a, k)
            return f(*a, **k)
        if isinstance(self, list):
            if _anysym(a, k) and name not in LIST_NATIVE:
                if name == "insert":
                    return self.insert(clamp_pos(a[0], len(self)), a[1])
                if name == "pop":
                    n = len(self)
                    p = list_pos(a[0], n)
                    if p is None:
                        raise IndexError("pop from empty list" if not n else "pop index out of range")
                    return self.pop(p)
                if name == "__getitem__":
                    return getitem(self, a[0])
                if name == "__setitem__":
                    return setitem(a[1], self, a[0])
                if name == "__delitem__":
                    return delitem(self, a[0])
                if name == "__contains__":
                    return contains(a[0], self)
            return f(*a, **k)
        if ts is set:
            if name == "add":
                return set_add(self, a[0])
            if name in ("remove", "discard") and (E.symkeys or symkey(a[0])):
                kk = dfind(self, a[0])
                if kk is NOTFOUND:
                    if name == "remove":
                        raise KeyError(a[0])
                    return None
                return self.discard(kk)
            return f(*a, **k)
        if ts is re.Pattern:
            if a and type(a[0]) is SymStr:
                return rx.pattern_call(self, name, a, k)
            return f(*a, **k)
        if ts is slice:
            if name == "indices" and (has_symslice(self) or _anysym(a, k)):
                return slice_parts(self, realize_int(a[0]))
            return f(*a, **k)
        if _anysym(a, k):
            if f in NATIVE_OK or ts.__module__ in ("_thread", "itertools", "collections"):
                return f(*a, **k)
            a, k = realize_args(f, a, k)
        return f(*a, **k)
    if isinstance(f, type):
        s = CLS.get(f)
        if s is not None:
            return s(*a, **k)
        if isinstance(f, enum.EnumMeta) and a and type(a[0]) in SYM:
            return enum_call(f, a, k)
        s = EXTRA_CLS.get(f.__name__)
        if s is not None:
            r = s(f, a, k)
            if r is not NotImplemented:
                return r
        if f is enumerate or f is zip or f is map or f is filter or f is list or f is tuple:
            return f(*a, **k)
        return f(*a, **k)
    # method descriptors such as str.lower(x), dict.__setitem__(d, k, v)
    if t in (types.MethodDescriptorType, types.WrapperDescriptorType) and a:
        o = a[0]
        if type(o) in SYM:
            return getattr(o, f.__name__)(*a[1:], **k)
        if isinstance(o, dict) and (E.symkeys or (len(a) > 1 and symkey(a[1]))):
            return dict_method(o, f.__name__, a[1:], k)
    elif t is types.MethodWrapperType:
        o = f.__self__
        if isinstance(o, dict) and a and (E.symkeys or symkey(a[0])):
            return dict_method(o, f.__name__, a, k)
        if isinstance(o, str) and _anysym(a, k):
            return getattr(SymStr(chars_of(o)), f.__name__)(*a, **k)
    elif _is_islice(f):
        pass
    return f(*a, **k)


def _is_islice(f):
    return False


EXTRA_CLS = {}


def _islice(f, a, k):
    import itertools

    if f is not itertools.islice or not _anysym(a, k):
        return NotImplemented
    it = a[0]
    lst = list(it)
    n = len(lst)
    if len(a) == 2:
        start, stop, step = 0, a[1], 1
    else:
        start, stop, step = a[1], a[2], a[3] if len(a) > 3 else 1
    start = 0 if start is None else start
    step = 1 if step is None else step
    for v in (start, stop):
        if v is not None and bool(v < 0):
            raise ValueError("Indices for islice() must be None or an integer: 0 <= x <= sys.maxsize.")
    if bool(step < 1):
        raise ValueError("Step for islice() must be a positive integer or None.")
    r = slice_positions(slice(start, stop, step), n)
    return iter([lst[p] for p in r])


EXTRA_CLS["islice"] = _islice
