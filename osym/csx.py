"""Concrete side of the harness API: the same harness runs on the real code with the values of one model."""


class Diverged(BaseException):
    pass


class EndPath(BaseException):
    pass


class Infeasible(BaseException):
    pass


class Res:
    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def kind(self):
        return "ok" if self.ok else type(self.exc).__name__

    def isa(self, *types):
        return (not self.ok) and isinstance(self.exc, types)


class Sx:
    symbolic = False

    def __init__(self, params, env):
        self.p = params
        self.env = env
        self.names = {}
        self.obs = []
        self.failed = []  # [(label, [known ids that apply])]

    def _get(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        n = name if k == 0 else "%s#%d" % (name, k)
        if n not in self.env:
            raise Diverged(n)
        return self.env[n]

    def int(self, name, lo=None, hi=None):
        return self._get(name)

    def bool(self, name):
        return bool(self._get(name))

    flag = bool

    def choice(self, name, options):
        return list(options)[self._get(name)]

    def str(self, name, minlen, maxlen, alphabet):
        n = minlen if minlen == maxlen else self.choice(name + ".len", range(minlen, maxlen + 1))
        return "".join(chr(self._get("%s.%d" % (name, i))) for i in range(n))

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return deep_eq(a, b)

    def assume(self, c):
        if not c:
            raise Infeasible()

    def stop(self):
        raise EndPath()

    def attempt(self, f, /, *a, **k):
        try:
            return Res(True, f(*a, **k), None)
        except Exception as e:  # noqa
            return Res(False, None, e)

    def observe(self, tag, v):
        self.obs.append((tag, v))

    def reach(self, label):
        pass

    def prove(self, cond, label, known=()):
        if not cond:
            self.failed.append((label, [k for k, c in known if c]))
            raise EndPath()


def deep_eq(a, b):
    if type(a) is not type(b):
        return False
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if type(a) is dict:
        if len(a) != len(b):
            return False
        bk = {(type(k).__name__, k): v for k, v in b.items()}
        return all((type(k).__name__, k) in bk and deep_eq(v, bk[(type(k).__name__, k)]) for k, v in a.items())
    if type(a) is float:
        return a == b or (a != a and b != b)
    return bool(a == b)


def norm(v):
    t = type(v)
    if t in (list,):
        return [norm(x) for x in v]
    if t is tuple:
        return tuple(norm(x) for x in v)
    if t is dict:
        return {"d": [(norm(k), norm(x)) for k, x in v.items()]}
    if t in (set, frozenset):
        return sorted((norm(x) for x in v), key=repr)
    if t in (int, bool, float, str, bytes, type(None)):
        return v
    return "<%s>" % t.__name__ if not hasattr(v, "name") or not hasattr(v, "value") else str(v)


def rep(obs):
    return repr([(t, norm(v)) for t, v in obs])
