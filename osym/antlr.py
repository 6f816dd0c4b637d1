"""ANTLR runtime on symbolic text: the lexer's own ATN simulator is run with the characters
partitioned into the classes its current state distinguishes."""
from . import expr as ex
from . import models
from .core import E, SymStr, X, chars_of, mkstr

EOF = -1


class SymInputStream:
    def __init__(self, data):
        self.name = "<empty>"
        self.strdata = data
        self.chars = chars_of(data)
        self._index = 0
        self._size = len(self.chars)

    index = property(lambda self: self._index)
    size = property(lambda self: self._size)

    def reset(self):
        self._index = 0

    def consume(self):
        if self._index >= self._size:
            raise Exception("cannot consume EOF")
        self._index += 1

    def LA(self, offset):
        if offset == 0:
            return 0
        if offset < 0:
            offset += 1
        pos = self._index + offset - 1
        if pos < 0 or pos >= self._size:
            return EOF
        c = self.chars[pos]
        if type(c) is X:  # only ever compared with EOF and newline (line counting) by the callers
            return 0x110001
        return c

    LT = LA

    def mark(self):
        return -1

    def release(self, marker):
        pass

    def seek(self, i):
        self._index = i if i <= self._index else min(i, self._size)

    def getText(self, start, stop):
        if stop >= self._size:
            stop = self._size - 1
        if start >= self._size:
            return ""
        return mkstr(self.chars[start:stop + 1])

    def __str__(self):
        return "<symbolic text>"


def _input_stream(cls, a, k):
    if len(a) == 1 and type(a[0]) is SymStr:
        return SymInputStream(a[0])
    return NotImplemented


models.EXTRA_CLS["InputStream"] = _input_stream


def minterms(atn, maxc):
    """Partition of the character space into classes the automaton cannot distinguish:
    list of (representative, ranges)."""
    trs = []
    for s in atn.states:
        if s is None:
            continue
        for t in s.transitions:
            if not t.isEpsilon:
                trs.append(t)
    cuts = {0, maxc + 1}
    for t in trs:
        lab = t.label
        if lab is None:
            continue
        for r in lab.intervals:
            cuts.add(r.start)
            cuts.add(r.stop)
    cuts = sorted(c for c in cuts if 0 <= c <= maxc + 1)
    groups = {}
    for lo, hi in zip(cuts, cuts[1:]):
        sig = tuple(bool(t.matches(lo, 0, maxc)) for t in trs)
        groups.setdefault(sig, []).append((lo, hi - 1))
    return [(rs[0][0], tuple(rs)) for rs in groups.values()]


_terms = {}
_targets = {}


def patch(sim_mod):
    """Replace execATN for symbolic input streams (every other step is the real simulator)."""
    Sim = sim_mod.LexerATNSimulator
    orig = Sim.execATN

    def execATN(self, input, ds0):
        if type(input) is not SymInputStream:
            return orig(self, input, ds0)
        key = id(self.atn)
        terms = _terms.get(key)
        if terms is None:
            terms = _terms[key] = minterms(self.atn, self.MAX_CHAR_VALUE)
        if ds0.isAcceptState:
            self.captureSimState(self.prevAccept, input, ds0)
        s = ds0
        while True:
            pos = input._index
            if pos >= input._size:
                t = EOF
                target = self._sx_target(input, s, t)
            else:
                c = input.chars[pos]
                t = c
                if type(c) is not X:
                    target = self._sx_target(input, s, c)
                else:
                    by = {}
                    for rep, ranges in terms:
                        if not _possible(c, ranges):
                            continue
                        tg = self._sx_target(input, s, rep)
                        by.setdefault(id(tg), (tg, []))[1].extend(ranges)
                    opts = list(by.values())
                    k = E.nfork([ex.in_ranges(c, tuple(r)) for _, r in opts]) if len(opts) > 1 else 0
                    target = opts[k][0]
            if target is self.ERROR or target is sim_mod.ATNSimulator.ERROR:
                break
            if t != EOF:
                input.consume()
                self.column += 1
            if target.isAcceptState:
                self.captureSimState(self.prevAccept, input, target)
                if t == EOF:
                    break
            s = target
        if type(t) is X:
            t = 0x110001
        return self.failOrAccept(self.prevAccept, input, s.configs, t)

    def _sx_target(self, input, s, t):
        tg = self.getExistingTargetState(s, t)
        if tg is None:
            k = (id(s), t)
            tg = _targets.get(k)
            if tg is None:
                tg = self.computeTargetState(input, s, t)
                _targets[k] = tg
                _keep.append(s)
        return tg

    Sim.execATN = execATN
    Sim._sx_target = _sx_target


_keep = []


def _possible(c, ranges):
    if len(c.fv) == 1:
        (n,) = c.fv
        d = E.dom[n]
        if d is not None:
            if c.op == "v":
                for v in d:
                    for lo, hi in ranges:
                        if lo <= v <= hi:
                            return True
                return False
    return True
