"""Resolver registration and caching follow their contract."""
import copy
import pickle

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.errors import InterpolationResolutionError, UnsupportedInterpolationType

from .common import plain, reset, snap

TEXTS = {"p": "${f:1,${z}}", "q": "${f: 1 , ${z}}", "r": "${f:2}", "s": "${g:2}", "t": "v${f:2}"}
ARGS = {"p": ("1", "${z}"), "q": ("1", "${z}"), "r": ("2",), "s": ("2",), "t": ("2",)}
NAME = {"p": "f", "q": "f", "r": "f", "s": "g", "t": "f"}


class World:
    """Reference: registry, caches, calls, next to the real thing."""
    def __init__(self, sx):
        self.sx = sx
        reset()
        self.reg, self.calls, self.n = {}, [], 0
        z = sx.int("z")
        mk = lambda: OmegaConf.create({"z": z, "n": {k: TEXTS[k] for k in TEXTS}, "l": [TEXTS["p"], TEXTS["s"]], "in": "${n.p}"})
        self.cfg, self.cache, self.z = [mk(), mk()], [{}, {}], [z, z]

    def function(self, version, fails=False):
        def f(*args):
            self.n += 1
            self.calls.append((version, args))
            if fails:
                raise ZeroDivisionError
            return (version, self.n)
        return f

    def register(self, name, version, replace, cached, fails=False):
        r = self.sx.attempt(lambda: OmegaConf.register_new_resolver(name, self.function(version, fails), replace=replace, use_cache=cached))
        if name in self.reg and not replace:
            self.sx.prove(not r.ok and isinstance(r.exc, ValueError), "registering an existing name without replace raises")
        else:
            self.sx.prove(r.ok, "registering succeeds")
            self.reg[name] = (version, cached, fails)

    def read(self, i, key, how):
        sx, cfg = self.sx, self.cfg[i]
        before, n = snap(cfg), len(self.calls)
        name, args = NAME[key], ARGS[key]
        val = {"attr": lambda: cfg.n[key], "select": lambda: OmegaConf.select(cfg, "n." + key), "get": lambda: cfg.n.get(key, 0),
               "via": lambda: cfg["in"] if key == "p" else cfg.n[key], "list": lambda: cfg.l[{"p": 0, "s": 1}[key]] if key in "ps" else cfg.n[key]}[how]
        r = sx.attempt(val)
        sx.observe("read", (i, key, r.kind))
        new = self.calls[n:]
        if name not in self.reg:
            sx.prove(not r.ok and isinstance(r.exc, UnsupportedInterpolationType) and not new, "an unknown resolver raises")
            return
        version, cached, fails = self.reg[name]
        want = (1, self.z[i]) if "," in TEXTS[key] else (2,)
        if cached and (name, args) in self.cache[i]:
            sx.prove(not new, "a cached result is not computed again")
            exp = self.cache[i][name, args]
        else:
            sx.prove(len(new) == 1 and new[0][0] == version, "a resolver is called once per read, in its current version")
            sx.prove(sx.eq(list(new[0][1]), list(want)) if new else False, "with the parsed arguments")
            if fails:
                sx.prove(not r.ok and isinstance(r.exc, InterpolationResolutionError), "an error of the resolver is raised")
                return
            exp = (version, self.n)
            if cached:
                self.cache[i][name, args] = exp
        sx.prove(r.ok and (r.value == exp if key != "t" else r.value == "v" + str(exp)), "the result is the resolver's")
        sx.prove(sx.eq(snap(cfg), before), "reading changes nothing")

    def step(self, j):
        sx = self.sx
        op = sx.choice("op%d" % j, sx.p["ops"])
        if op == "read":
            self.read(sx.choice("c%d" % j, (0, 1)), sx.choice("k%d" % j, sx.p["keys"]), sx.choice("how%d" % j, sx.p["how"]))
        elif op in ("reg", "rep", "rep_nocache", "rep_fail"):
            self.register("f", 10 + j, op != "reg", op != "rep_nocache", op == "rep_fail")
        elif op == "clear":
            r = sx.attempt(lambda: OmegaConf.clear_resolver("f"))
            sx.prove(r.ok and r.value is ("f" in self.reg), "clear_resolver says whether there was one")
            self.reg.pop("f", None)
        elif op == "clear_all":
            OmegaConf.clear_resolvers()
            self.reg = {}
        elif op == "clear_cache":
            OmegaConf.clear_cache(self.cfg[0])
            self.cache[0] = {}
        elif op == "copy_cache":
            OmegaConf.copy_cache(self.cfg[0], self.cfg[1])
            self.cache[1] = dict(self.cache[0])
        elif op in ("deepcopy", "pickle"):
            self.cfg[1] = copy.deepcopy(self.cfg[0]) if op == "deepcopy" else pickle.loads(pickle.dumps(self.cfg[0]))
            self.cache[1], self.z[1] = dict(self.cache[0]), self.z[0]
        elif op == "merge":
            self.cfg[1] = OmegaConf.merge(self.cfg[0], {"new": 1})
            self.cache[1], self.z[1] = dict(self.cache[0]), self.z[0]
        elif op == "set_z":
            self.z[0] = sx.int("z%d" % j)
            self.cfg[0].z = self.z[0]
        for n in ("f", "g", "nope"):
            sx.prove(OmegaConf.has_resolver(n) is (n in self.reg), "has_resolver")
        sx.prove(OmegaConf.has_resolver("oc.env"), "built-in resolvers stay")


def history(sx):
    w = World(sx)
    w.register("f", 1, False, sx.flag("cached"))
    w.register("g", 2, False, True)
    w.read(0, sx.choice("k", sx.p["keys"]), "attr")
    for j in range(sx.p["n"]):
        w.step(j)
    w.read(sx.choice("cz", (0, 1)), sx.choice("kz", sx.p["keys"]), "attr")
    reset()


def texts(sx):
    """The cache distinguishes exactly the argument texts."""
    reset()
    calls = []
    OmegaConf.register_new_resolver("f", lambda *a: calls.append(a) or (len(calls),), use_cache=True)
    a, b = sx.str("a", 1, sx.p["len"], "1a +"), sx.str("b", 1, sx.p["len"], "1a +")
    sx.assume(sx.And(a.strip(" ") != "", b.strip(" ") != ""))
    two = sx.flag("two")
    c = OmegaConf.create({"x": "${f:" + a + ",k}" if two else "${f:" + a + "}", "y": "${f:" + b + ",k}" if two else "${f:" + b + "}"})
    r1 = sx.attempt(lambda: c.x)
    sx.prove(r1.ok and len(calls) == 1, "the first read calls")
    r2 = sx.attempt(lambda: c.y)
    same = a.strip(" ") == b.strip(" ")
    sx.observe("n", len(calls))
    sx.prove(r2.ok and sx.eq(len(calls) == 1, same), "the second read calls exactly when its arguments are written differently")
    sx.prove((r2.value is r1.value) == (len(calls) == 1), "and gives the same result exactly when it does not")
    r3, r4 = sx.attempt(lambda: c.x), sx.attempt(lambda: c.y)
    sx.prove(r3.value is r1.value and r4.value is r2.value and len(calls) <= 2, "ever after")
    OmegaConf.clear_cache(c)
    n = len(calls)
    r5 = sx.attempt(lambda: c.x)
    sx.prove(r5.ok and len(calls) == n + 1, "until the cache is cleared")
    reset()


class Thing:
    def __eq__(self, other):
        return self is other

    def __bool__(self):
        return False

    __hash__ = None


RESULTS = {"none": lambda sx: None, "false": lambda sx: False, "bool": lambda sx: sx.bool("r"), "int": lambda sx: sx.int("r"), "str": lambda sx: sx.str("r", 0, 2, "a$?"), "missing": lambda sx: "???",
           "inter": lambda sx: "${z}", "list": lambda sx: [], "dict": lambda sx: {}, "cfg": lambda sx: OmegaConf.create({"q": 1}), "obj": lambda sx: Thing(), "marker": lambda sx: NotImplemented, "nan": lambda sx: float("nan")}
ARGTEXT = ("", "null", "${z}", "{a: 1}")
PLACES = ("x", "n0", "ny", "get", "select")


def results(sx):
    """Whatever a resolver returns: cached results are computed once, others each time, and are what is read."""
    reset()
    kind, cached = sx.choice("kind", sorted(RESULTS)), sx.flag("cached")
    v = RESULTS[kind](sx)
    calls = []

    def f(*a):
        calls.append(a)
        return v
    OmegaConf.register_new_resolver("f", f, use_cache=cached)
    txt = "${f:" + sx.choice("args", ARGTEXT) + "}"
    c = OmegaConf.create({"z": 1, "x": txt, "n": [txt, {"y": txt}]})
    n = 0
    for j in range(sx.p["reads"]):
        where = sx.choice("w%d" % j, PLACES)
        r = sx.attempt({"x": lambda: c.x, "n0": lambda: c.n[0], "ny": lambda: c.n[1].y, "get": lambda: c.get("x", 5), "select": lambda: OmegaConf.select(c, "x")}[where])
        n = 1 if cached else n + 1
        sx.observe("r%d" % j, r.kind)
        sx.prove(r.ok and len(calls) == n, "a cached resolver runs once per config, another one at each read")
        if where == "select" and isinstance(v, str) and v == "???":
            sx.prove(r.value is None, "selecting a missing value gives the default")
        elif kind in ("bool", "int", "str"):
            sx.prove(sx.eq(r.value, v), "the result is what the resolver returned")
        elif kind in ("list", "dict"):
            sx.prove(plain(r.value) == v and type(plain(r.value)) is type(v), "the result is the container the resolver returned")
        else:
            sx.prove(r.value is v, "the result is the object the resolver returned")
    if cached and sx.flag("clear"):
        OmegaConf.clear_cache(c)
        r = sx.attempt(lambda: c.x)
        sx.prove(r.ok and len(calls) == 2, "after clearing the cache it runs again")
    reset()


LITS = {"1": 1, "-2": -2, "1.5": 1.5, "true": True, "null": None, "abc": "abc", "a b": "a b", "'q,r'": "q,r", "[1,a]": [1, "a"], "{x:1,y:[z]}": {"x": 1, "y": ["z"]}, "[]": [], "''": "", "\\,": ",", "???": "???", "${z}": "Z", "${l}": "L", "k${z}": "kZ", "${n.k}": "V"}
SHAPES = ("value", "list", "nested", "via", "string", "arg")


def arguments(sx):
    """Arguments are parsed; _parent_, _node_ and _root_ are passed when declared, and only then."""
    reset()
    seen = []
    decl = sx.choice("decl", ("none", "p", "n", "r", "pnr", "kw"))
    f = {"none": lambda *a: seen.append((a, {})) or 5, "p": lambda *a, _parent_: seen.append((a, {"p": _parent_})) or 5, "n": lambda *a, _node_: seen.append((a, {"n": _node_})) or 5, "r": lambda *a, _root_: seen.append((a, {"r": _root_})) or 5,
         "pnr": lambda *a, _root_, _node_, _parent_: seen.append((a, {"p": _parent_, "n": _node_, "r": _root_})) or 5, "kw": lambda *a, _parent_=None: seen.append((a, {"p": _parent_})) or 5}[decl]
    bad = sx.attempt(lambda: OmegaConf.register_new_resolver("f", f, use_cache=True))
    sx.prove(bad.ok if decl == "none" else isinstance(bad.exc, ValueError) and not OmegaConf.has_resolver("f"), "special parameters exclude the cache")
    OmegaConf.register_new_resolver("f", f, replace=True)
    OmegaConf.register_new_resolver("id", lambda x: x)
    lits = tuple(LITS)
    m = sx.int("m", 0, 2)
    args = [sx.choice("a%d" % i, lits if i == 0 else sx.p["second"]) for i in range(2) if i < m]
    z = sx.int("z")
    v = sx.choice("v", (7, "s")) if "${n.k}" in args else 7
    txt = "${f:" + ",".join(args) + "}"
    shape = sx.choice("shape", SHAPES)
    x = {"value": txt, "list": [0, txt], "nested": {"y": txt}, "via": "${far.x}", "string": "p" + txt, "arg": "${id:" + txt + "}"}[shape]
    c = OmegaConf.create({"z": z, "l": [1, z], "n": {"k": v}, "o": {"x": x}, "far": {"x": txt}})
    r = sx.attempt({"value": lambda: c.o.x, "list": lambda: c.o.x[1], "nested": lambda: c.o.x.y, "via": lambda: c.o.x, "string": lambda: c.o.x, "arg": lambda: c.o.x}[shape])
    sx.observe("r", r.kind)
    sx.prove(r.ok and r.value == (5 if shape != "string" else "p5") and len(seen) == 1, "called once, its result returned")
    got, kw = seen[0]
    real = {"Z": z, "L": c.l, "kZ": "k" + str(z) if "k${z}" in args else None, "V": v}
    for g, t in zip(got, args):
        w = real.get(LITS[t], LITS[t]) if isinstance(LITS[t], str) else LITS[t]
        sx.prove(g is w if t == "${l}" else sx.And(type(plain(g)) is type(w) or t in ("${z}", "k${z}"), sx.eq(plain(g), w)), "arguments are the parsed values")
    sx.prove(len(got) == len(args), "as many as were written")
    holder = {"value": c.o, "list": c.o._get_node("x"), "nested": c.o._get_node("x"), "via": c.far, "string": c.o, "arg": c.o}[shape]
    node = holder._get_node({"list": 1, "nested": "y"}.get(shape, "x"))
    for k, w in (("p", holder), ("n", node), ("r", c)):
        sx.prove(k not in kw or kw[k] is w, "special parameters are the parent, the node and the root")
    sx.prove(set(kw) == set({"none": "", "kw": "p"}.get(decl, decl)), "exactly the declared ones are passed")
    reset()


def misuse(sx):
    """Wrong registrations raise and change nothing."""
    reset()
    f = lambda *a: 1
    OmegaConf.register_new_resolver("f", f)
    before = dict(OmegaConf._get_resolver.__globals__["BaseContainer"]._resolvers)
    what = sx.choice("what", ("empty", "noncallable", "existing", "builtin", "parent", "root", "legacy", "clear_unknown"))
    r = sx.attempt({"empty": lambda: OmegaConf.register_new_resolver("", f, replace=True), "noncallable": lambda: OmegaConf.register_new_resolver("h", 3, replace=True), "existing": lambda: OmegaConf.register_new_resolver("f", lambda: 2),
                    "builtin": lambda: OmegaConf.register_new_resolver("oc.env", f), "parent": lambda: OmegaConf.register_new_resolver("f", lambda _parent_: 1, replace=True, use_cache=True), "root": lambda: OmegaConf.register_new_resolver("h", lambda _root_: 1, use_cache=True),
                    "legacy": lambda: OmegaConf.legacy_register_resolver("f", f), "clear_unknown": lambda: OmegaConf.clear_resolver("zz")}[what])
    kinds = {"empty": ValueError, "noncallable": TypeError, "legacy": AssertionError}
    sx.prove(r.ok and r.value is False if what == "clear_unknown" else not r.ok and isinstance(r.exc, kinds.get(what, ValueError)), "wrong registrations raise")
    after = OmegaConf._get_resolver.__globals__["BaseContainer"]._resolvers
    sx.prove(set(after) == set(before) and all(after[k] is before[k] for k in after), "and change nothing")
    reset()


def legacy(sx):
    """Legacy resolvers get strings and are cached per config and argument texts."""
    reset()
    calls = []
    OmegaConf.legacy_register_resolver("f", lambda *a: calls.append(a) or len(calls))
    a, b = sx.str("a", 1, 2, "1a"), sx.str("b", 1, 2, "1a")
    c, d = OmegaConf.create({"x": "${f:" + a + "}", "y": "${f:" + b + "}"}), OmegaConf.create({"x": "${f:" + a + "}"})
    x, y = sx.attempt(lambda: c.x), sx.attempt(lambda: c.y)
    same = a == b
    sx.prove(x.ok and y.ok and sx.eq(len(calls) == 1, same) and sx.eq(list(calls[0]), [a]), "cached by argument texts")
    n = len(calls)
    sx.prove(c.x == x.value and c.y == y.value and len(calls) == n, "ever after")
    sx.prove(d.x == n + 1 and d.x == n + 1, "caches of different configs are independent")
    reset()


OPS = ("read", "reg", "rep", "rep_nocache", "rep_fail", "clear", "clear_all", "clear_cache", "copy_cache", "deepcopy", "pickle", "merge", "set_z")
LAB = ["a cached result is not computed again", "a resolver is called once per read, in its current version", "with the parsed arguments"]
HARNESSES = [
    ("history", history, {"quick": {"n": 2, "ops": OPS, "keys": ("p", "r"), "how": ("attr",)}, "thorough": {"n": 3, "ops": OPS, "keys": ("p", "q", "r"), "how": ("attr",)}}, LAB),
    ("reads", history, {"quick": {"n": 1, "ops": ("read", "deepcopy", "clear_cache"), "keys": ("p", "q", "s", "t"), "how": ("select", "via", "list")}, "thorough": {"n": 2, "ops": ("read", "rep", "clear_cache", "copy_cache"), "keys": ("p", "q", "s", "t"), "how": ("attr", "select", "get", "via", "list")}}, LAB),
    ("texts", texts, {"quick": {"len": 2}, "thorough": {"len": 3}}, ["the second read calls exactly when its arguments are written differently"]),
    ("results", results, {"quick": {"reads": 2}, "thorough": {"reads": 3}}, ["a cached resolver runs once per config, another one at each read"]),
    ("arguments", arguments, {"quick": {"second": ("1", "${l}")}, "thorough": {"second": tuple(LITS)}}, ["arguments are the parsed values", "special parameters are the parent, the node and the root"]),
    ("misuse", misuse, {"quick": {}, "thorough": {}}, ["wrong registrations raise"]),
    ("legacy", legacy, {"quick": {}, "thorough": {}}, ["cached by argument texts"]),
]
BOUNDS = ("all sequences of 2 (3) operations of 13 kinds (reads, registrations with and without replace, cache and failures, clearing, copying caches and configs, assignments) after an initial read, with a final read, over two configs and 2-5 interpolations, a symbolic int being passed as argument; "
          "all pairs of argument texts of ≤ 2 (3) characters over '1', 'a', '+' and space; 13 kinds of results read twice (3 times) at 5 places with 8 argument lists; 18 argument texts in lists of ≤ 2, 6 kinds of declared special parameters, 6 positions of the interpolation")
