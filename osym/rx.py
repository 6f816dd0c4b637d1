"""Regular expressions over symbolic strings (works on Python's own parse tree)."""
import re

try:
    from re import _constants as C
    from re import _parser as P
except ImportError:  # pragma: no cover
    import sre_constants as C
    import sre_parse as P

from . import expr as ex
from .core import E, SymStr, Unsupported, chars_of, mkstr

MAXCP = 0x10FFFF
_WORD = ((48, 57), (65, 90), (95, 95), (97, 122))
_DIG = ((48, 57),)
_SPC = ((9, 13), (32, 32))
_SPC_U = ((9, 13), (28, 32), (133, 133), (160, 160))


def _neg(r):
    out = []
    p = 0
    for lo, hi in sorted(r):
        if lo > p:
            out.append((p, lo - 1))
        p = max(p, hi + 1)
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


def _cat(c, ascii_):
    sp = _SPC if ascii_ else _SPC_U
    t = {C.CATEGORY_WORD: _WORD, C.CATEGORY_DIGIT: _DIG, C.CATEGORY_SPACE: sp,
         C.CATEGORY_NOT_WORD: _neg(_WORD), C.CATEGORY_NOT_DIGIT: _neg(_DIG),
         C.CATEGORY_NOT_SPACE: _neg(sp)}
    return t[c]


def _casefold(r):
    out = list(r)
    for lo, hi in r:
        for c in range(max(lo, 65), min(hi, 90) + 1):
            out.append((c + 32, c + 32))
        for c in range(max(lo, 97), min(hi, 122) + 1):
            out.append((c - 32, c - 32))
    return tuple(out)


class Rx:
    cache = {}

    def __init__(self, pat):
        self.tree = P.parse(pat.pattern, pat.flags & ~re.DEBUG)
        self.flags = pat.flags
        self.groups = pat.groups
        self.ascii = bool(pat.flags & re.ASCII)

    @classmethod
    def of(cls, pat):
        k = (pat.pattern, pat.flags)
        r = cls.cache.get(k)
        if r is None:
            r = cls.cache[k] = cls(pat)
        return r

    def ranges(self, op, av):
        if op is C.LITERAL:
            r = ((av, av),)
        elif op is C.NOT_LITERAL:
            r = ((av, av),)
            if self.flags & re.IGNORECASE:
                r = _casefold(r)
            return _neg(r)
        elif op is C.ANY:
            return ((0, MAXCP),) if self.flags & re.DOTALL else _neg(((10, 10),))
        elif op is C.IN:
            neg = False
            out = []
            for o, v in av:
                if o is C.NEGATE:
                    neg = True
                elif o is C.LITERAL:
                    out.append((v, v))
                elif o is C.RANGE:
                    out.append(v)
                elif o is C.CATEGORY:
                    out.extend(_cat(v, self.ascii))
                else:
                    raise Unsupported("regex set %s" % o)
            r = tuple(out)
            if self.flags & re.IGNORECASE:
                r = _casefold(r)
            return _neg(r) if neg else r
        else:
            raise Unsupported("regex op %s" % op)
        if self.flags & re.IGNORECASE:
            r = _casefold(r)
        return r

    def at(self, av, s, pos, start_ok=True):
        n = len(s)
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if av is C.AT_BEGINNING and self.flags & re.MULTILINE and pos > 0:
                return ex.eq(s[pos - 1], 10)
            return pos == 0
        if av is C.AT_END_STRING:
            return pos == n
        if av is C.AT_END:
            if self.flags & re.MULTILINE:
                return True if pos == n else ex.eq(s[pos], 10)
            if pos == n:
                return True
            if pos == n - 1:
                return ex.eq(s[pos], 10)
            return False
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = ex.in_ranges(s[pos - 1], _WORD) if pos > 0 else False
            b = ex.in_ranges(s[pos], _WORD) if pos < n else False
            r = ex.or_(ex.and_(a, ex.not_(b)), ex.and_(b, ex.not_(a)))
            return r if av is C.AT_BOUNDARY else ex.not_(r)
        raise Unsupported("regex at %s" % av)

    # ---- reach sets: {end position: formula}, no forking -----------------
    def reach(self, seq, s, st):
        for op, av in seq:
            st = self._step(op, av, s, st)
            if not st:
                break
        return st

    def _step(self, op, av, s, st):
        n = len(s)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            r = self.ranges(op, av)
            out = {}
            for p, c in st.items():
                if p < n:
                    f = ex.and_(c, ex.in_ranges(s[p], r))
                    if f is not False:
                        out[p + 1] = f
            return out
        if op is C.BRANCH:
            out = {}
            for alt in av[1]:
                _merge(out, self.reach(alt, s, dict(st)))
            return out
        if op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("regex inline flags")
            return self.reach(av[3], s, st)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av
            cur = st
            out = dict(cur) if lo == 0 else {}
            k = 0
            while cur and (hi is C.MAXREPEAT or k < hi) and k <= n + lo:
                nxt = self.reach(body, s, cur)
                k += 1
                if k >= lo:
                    before = {p: f for p, f in out.items()}
                    _merge(out, nxt)
                    if k > lo and all(p in before and before[p] is out[p] for p in nxt):
                        break
                cur = nxt
            return out
        if op is C.AT:
            out = {}
            for p, c in st.items():
                f = ex.and_(c, self.at(av, s, p))
                if f is not False:
                    out[p] = f
            return out
        if op in (C.ASSERT, C.ASSERT_NOT):
            if av[0] != 1:
                raise Unsupported("regex lookbehind")
            out = {}
            for p, c in st.items():
                ends = self.reach(av[1], s, {p: True})
                f = ex.or_(*ends.values())
                if op is C.ASSERT_NOT:
                    f = ex.not_(f)
                f = ex.and_(c, f)
                if f is not False:
                    out[p] = f
            return out
        raise Unsupported("regex op %s" % op)

    def match_formula(self, s, full=False):
        ends = self.reach(self.tree, s, {0: True})
        if full:
            return ends.get(len(s), False)
        return ex.or_(*ends.values())

    # ---- backtracking matcher (forks on every character test) ------------
    def gen(self, seq, i, s, pos, caps):
        if i == len(seq):
            yield pos, caps
            return
        op, av = seq[i]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos < len(s) and E.decide(ex.in_ranges(s[pos], self.ranges(op, av))):
                yield from self.gen(seq, i + 1, s, pos + 1, caps)
        elif op is C.BRANCH:
            for alt in av[1]:
                for p, c in self.gen(list(alt), 0, s, pos, caps):
                    yield from self.gen(seq, i + 1, s, p, c)
        elif op is C.SUBPATTERN:
            g = av[0]
            for p, c in self.gen(list(av[3]), 0, s, pos, caps):
                if g is not None:
                    c = dict(c)
                    c[g] = (pos, p)
                yield from self.gen(seq, i + 1, s, p, c)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av
            yield from self._rep(op, lo, hi, list(body), seq, i, s, pos, caps, 0)
        elif op is C.AT:
            if E.decide(self.at(av, s, pos)):
                yield from self.gen(seq, i + 1, s, pos, caps)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            ok = any(True for _ in self.gen(list(av[1]), 0, s, pos, caps))
            if ok == (op is C.ASSERT):
                yield from self.gen(seq, i + 1, s, pos, caps)
        else:
            raise Unsupported("regex op %s" % op)

    def _rep(self, op, lo, hi, body, seq, i, s, pos, caps, k):
        def more():
            if hi is C.MAXREPEAT or k < hi:
                for p, c in self.gen(body, 0, s, pos, caps):
                    if p == pos and k >= lo:
                        continue
                    yield from self._rep(op, lo, hi, body, seq, i, s, p, c, k + 1)

        if op is C.MAX_REPEAT:
            yield from more()
            if k >= lo:
                yield from self.gen(seq, i + 1, s, pos, caps)
        else:
            if k >= lo:
                yield from self.gen(seq, i + 1, s, pos, caps)
            yield from more()

    def run(self, text, pos=0, full=False):
        s = chars_of(text)
        for p, caps in self.gen(list(self.tree), 0, s, pos, {}):
            if full and p != len(s):
                continue
            return SymMatch(self, text, pos, p, caps)
        return None


def _merge(out, add):
    for p, f in add.items():
        g = out.get(p)
        if g is None:
            out[p] = f
        elif g is not True:
            out[p] = True if f is True else ex.or_(g, f)


class SymMatch:
    def __init__(self, rx, text, start, end, caps):
        self.rx, self.string, self.pos0, self.e, self.caps = rx, text, start, end, caps

    def span(self, g=0):
        if g == 0:
            return (self.pos0, self.e)
        return self.caps.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        gs = gs or (0,)
        r = []
        for g in gs:
            a, b = self.span(g)
            r.append(None if a < 0 else mkstr(chars_of(self.string)[a:b]))
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self.span(g)[0] < 0 else self.group(g) for g in range(1, self.rx.groups + 1))


class LazyMatch:
    """Match known to exist; spans computed only on demand."""

    def __init__(self, rx, text, full):
        self._a = (rx, text, full)
        self._m = None

    def __getattr__(self, n):
        if self._m is None:
            rx, text, full = self._a
            self._m = rx.run(text, 0, full)
        return getattr(self._m, n)


def pattern_call(pat, name, args, kw):
    rx = Rx.of(pat)
    text = args[0]
    s = chars_of(text)
    if name in ("match", "fullmatch") and len(args) == 1 and not kw:
        f = rx.match_formula(s, name == "fullmatch")
        if not E.decide(f):
            return None
        return LazyMatch(rx, text, name == "fullmatch")
    if name == "search" and len(args) == 1:
        for p in range(len(s) + 1):
            m = rx.run(text, p)
            if m is not None:
                return m
        return None
    if name in ("findall", "finditer"):
        out = []
        p = 0
        while p <= len(s):
            m = rx.run(text, p)
            if m is None:
                p += 1
                continue
            out.append(m)
            p = m.e if m.e > p else p + 1
        if name == "finditer":
            return iter(out)
        if rx.groups == 0:
            return [m.group() for m in out]
        if rx.groups == 1:
            return [m.group(1) if m.span(1)[0] >= 0 else "" for m in out]
        return [m.groups("") for m in out]
    raise Unsupported("regex method %s" % name)
