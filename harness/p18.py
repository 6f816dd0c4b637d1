"""resolve replaces every interpolation by its value and nothing else."""
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Union

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.errors import InterpolationResolutionError, ReadonlyConfigError, ValidationError

from .common import all_nodes, children, keys_ok, plain, snap
from .p12 import Err, I, at, follow


class T:
    """Text around an interpolation (model)."""
    def __init__(self, pre, i):
        self.pre, self.i = pre, i


def build(m):
    if isinstance(m, I):
        return m.text()
    if isinstance(m, T):
        return m.pre + m.i.text()
    if isinstance(m, dict):
        return {k: build(v) for k, v in m.items()}
    if isinstance(m, list):
        return [build(v) for v in m]
    return m


def value(m, pos, depth=0):
    """Plain data the position reads as, '???' where missing."""
    if depth > 20:
        raise Err("other")
    x = at(m, pos)
    if isinstance(x, T):
        try:
            w = value(m, follow(m, pos, x.i), depth + 1)
        except Err as e:
            if e.kind == "missing":
                return "???"
            raise
        return "???" if isinstance(w, str) and w == "???" else x.pre + str(w)
    if isinstance(x, I):
        try:
            t = follow(m, pos, x)
        except Err as e:
            if e.kind == "missing":
                return "???"
            raise
        return value(m, t, depth + 1)
    if isinstance(x, dict):
        return {k: value(m, pos + (k,), depth + 1) for k in x}
    if isinstance(x, list):
        return [value(m, pos + (i,), depth + 1) for i in range(len(x))]
    return x


KINDS = {
    "t": lambda: I(0, ("t",)), "d": lambda: I(0, ("d",)), "da": lambda: I(0, ("d", "a")), "db": lambda: I(0, ("d", "b")), "l": lambda: I(0, ("l",)), "l0": lambda: I(0, ("l", 0)),
    "sy": lambda: I(0, ("s", "y")), "x": lambda: I(0, ("x",)), "xa": lambda: I(0, ("x", "a")), "nope": lambda: I(0, ("nope",)), "m": lambda: I(0, ("m",)), "n": lambda: I(0, ("n",)),
    "rel": lambda: I(1, ("z",)), "up": lambda: I(2, ("t",)), "str": lambda: T("p", I(0, ("d", "a"))), "mstr": lambda: T("p", I(0, ("m",))), "e": lambda: I(0, ("e",)), "k": lambda: I(0, ("k",)),
}
SLOTS = (("x",), ("d", "b"), ("l", 0), ("s", "y"), ("s", "q", 1))


def put(m, pos, v):
    at(m, pos[:-1])[pos[-1]] = v


def make(sx):
    v = sx.int("v")
    w = sx.str("w", 1, 2, "a\\$")
    m = {"t": v, "d": {"a": w, "b": 7, "z": "dz"}, "l": [8, {"w": 5}], "x": None, "s": {"y": True, "z": 1.5, "q": [None, "li"]}, "m": "???", "n": None, "e": {}, "k": {"c": "???"}, "z": b"z"}
    for i in range(sx.p["n"]):
        pos = sx.choice("pos%d" % i, SLOTS)
        if sx.p["n"] > 1 and i and SLOTS.index(pos) <= last:
            sx.stop()
        last = SLOTS.index(pos)
        put(m, pos, KINDS[sx.choice("k%d" % i, sx.p["kinds"])]())
    return m


def same(sx, a, b):
    if isinstance(a, dict):
        return type(b) is dict and len(a) == len(b) and all(x == y for x, y in zip(a, b)) and all(same(sx, a[k], b[k]) for k in a)
    if isinstance(a, list):
        return type(b) is list and len(a) == len(b) and all(same(sx, x, y) for x, y in zip(a, b))
    return (type(a) is type(b) and bool(sx.eq(a, b))) if a is not None else b is None


def untouched(sx, sa, sb, m):
    """Nodes of the snapshots that the model has no interpolation at are the same."""
    if isinstance(m, (I, T)):
        return True
    if isinstance(m, dict) or isinstance(m, list):
        if sa[:3] != sb[:3] or len(sa[3]) != len(sb[3]):
            return False
        return all(ka == kb and untouched(sx, na, nb, m[ka]) for (ka, na), (kb, nb) in zip(sa[3], sb[3]))
    return bool(sx.eq(sa, sb))


def resolve(sx):
    m = make(sx)
    cfg = OmegaConf.create(build(m))
    fl = sx.choice("flag", sx.p["flags"])
    if fl == "struct":
        OmegaConf.set_struct(cfg, True)
    elif fl == "ro":
        OmegaConf.set_readonly(cfg.s, True)
    elif fl == "rwin":
        OmegaConf.set_readonly(cfg, True)
        OmegaConf.set_readonly(cfg.s, False)
    before = snap(cfg)
    r = sx.attempt(lambda: OmegaConf.resolve(cfg))
    sx.observe("r", r.kind)
    try:
        want = value(m, ())
    except Err:
        sx.prove(not r.ok, "an interpolation that cannot be resolved raises")
        if fl not in ("ro", "rwin"):
            sx.prove(isinstance(r.exc, InterpolationResolutionError), "the interpolation error")
        return
    inter = [s for s in SLOTS if isinstance(at(m, s), (I, T))]
    blocked = [s for s in inter if fl == "ro" and s[0] == "s" or fl == "rwin" and s[0] != "s"]
    if blocked:
        sx.prove(not r.ok and isinstance(r.exc, ReadonlyConfigError), "read-only nodes are not resolved")
        after = snap(cfg)
        return
    sx.prove(r.ok, "every resolvable config is resolved")
    sx.prove(not any(n._is_interpolation() for n in all_nodes(cfg)), "no interpolation is left")
    sx.prove(same(sx, want, plain(cfg)), "every value is what it read as, missing stays missing")
    sx.prove(untouched(sx, before, snap(cfg), m), "everything else keeps value, type and flags")
    nodes = all_nodes(cfg)
    sx.prove(keys_ok(cfg) and len({id(n) for n in nodes}) == len(nodes), "the tree is well formed")
    again = snap(cfg)
    OmegaConf.resolve(cfg)
    sx.prove(sx.eq(snap(cfg), again), "resolving again changes nothing")


def subtree(sx):
    """Resolving a subtree: what the rest of the tree reads as does not change."""
    m = make(sx)
    cfg = OmegaConf.create(build(m))
    sub = sx.choice("sub", ("s", "d", "l"))
    r = sx.attempt(lambda: OmegaConf.resolve(cfg[sub]))
    sx.observe("r", r.kind)
    try:
        want = value(m, (sub,))
    except Err:
        sx.prove(not r.ok, "an interpolation that cannot be resolved raises")
        return
    sx.prove(r.ok, "a subtree whose interpolations can be resolved is resolved")
    sx.prove(same(sx, want, plain(cfg[sub])), "the subtree has the values it read as")
    for k in m:
        a = sx.attempt(lambda: OmegaConf.to_container(cfg[k], resolve=True) if OmegaConf.is_config(cfg[k]) else cfg[k])
        try:
            w = value(m, (k,))
        except Err:
            sx.prove(not a.ok, "what could not be read cannot be read")
            continue
        if w is None or not isinstance(w, (dict, list)):
            sx.prove(a.ok and same(sx, w, a.value) if not (isinstance(w, str) and w == "???") else not a.ok, "the rest reads as before")
    sx.prove(keys_ok(cfg), "the tree is well formed")


@dataclass
class In:
    a: int = 1
    b: str = "q"


@dataclass
class S:
    i: int = 0
    oi: Optional[int] = None
    s: str = "x"
    u: Union[int, str] = 3
    l: List[int] = field(default_factory=lambda: [1])
    ol: Optional[List[int]] = None
    d: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    n: In = field(default_factory=In)
    on: Optional[In] = None
    a: Any = None
    ti: Any = 5
    ts: Any = "12"
    tl: Any = field(default_factory=lambda: [4, 5])
    td: Any = field(default_factory=lambda: {"k": 9})
    tn: In = field(default_factory=lambda: In(a=3))
    tx: Any = "zz"
    tz: Any = None
    tm: Any = "???"


def typed(sx):
    """Interpolations in typed fields: the value is converted to the field's type and the field keeps it."""
    f = sx.choice("field", sx.p["fields"])
    t = sx.choice("target", sx.p["targets"])
    v = sx.int("v", -12, 105) if f in ("s", "u", "a", "n", "on") else sx.int("v")
    cfg = OmegaConf.structured(S)
    cfg.ti = v
    e = sx.flag("inlist") if f in ("l", "d", "n") else False
    if e:
        if f == "l":
            cfg.l = [1, "${%s}" % t]
        elif f == "d":
            cfg.d = {"p": "${%s}" % t}
        else:
            cfg.n.a = "${%s}" % t
        cont, key = {"l": (cfg.l, 1), "d": (cfg.d, "p"), "n": (cfg.n, "a")}[f]
    else:
        cfg[f] = "${%s}" % t
        cont, key = cfg, f
    node = cont._get_node(key)
    meta = (type(node).__name__, node._metadata.ref_type, node._metadata.optional)
    rd = sx.attempt(lambda: cont[key])
    val = OmegaConf.to_container(rd.value, resolve=True) if rd.ok and OmegaConf.is_config(rd.value) else rd.value
    others = {k: snap(cfg._get_node(k)) for k in cfg if k != f} if not sx.flag("skip") else {}
    missing = t == "tm"
    r = sx.attempt(lambda: OmegaConf.resolve(cfg))
    sx.observe("r", (rd.kind, r.kind))
    if not rd.ok and not missing:
        sx.prove(not r.ok, "what cannot be read cannot be resolved")
        return
    if not r.ok:
        # reading a container field that is an interpolation does not validate its value
        fits = f == "a" or not (f == "u" and t == "tz") and not isinstance(val, (dict, list)) and (e or f not in ("l", "ol", "d", "n", "on")) or (f, t) in (("l", "tl"), ("ol", "tl"), ("d", "td"), ("n", "tn"), ("on", "tn")) or t in ("tm", "tz") and f in ("ol", "on")
        sx.prove(isinstance(r.exc, (ValidationError, InterpolationResolutionError)) and not fits, "what can be read is resolved unless its type does not fit the field")
        return
    sx.prove(not any(n._is_interpolation() for n in all_nodes(cfg)), "no interpolation is left")
    node = cont._get_node(key)
    if missing:
        sx.prove(node._is_missing(), "missing stays missing")
    else:
        now = cont[key]
        sx.prove(same(sx, val, plain(now)), "the field has the value it read as")
    m2 = (type(node).__name__, node._metadata.ref_type, node._metadata.optional)
    if f != "a":
        sx.prove(m2 == meta, "the field keeps its declared type")
    for k, s in others.items():
        sx.prove(sx.eq(snap(cfg._get_node(k)), s), "other fields are unchanged")
    sx.prove(keys_ok(cfg), "the tree is well formed")


RES = {
    "dict": lambda v: {"p": v, "q": "${t}"}, "cfg": lambda v: OmegaConf.create({"p": v, "q": "${p}", "t": 4}), "list": lambda v: [v, "${t}"], "lcfg": lambda v: OmegaConf.create([v, "${0}", "${.0}"]),
    "int": lambda v: v, "none": lambda v: None, "text": lambda v: "${t}", "missing": lambda v: "???", "deep": lambda v: OmegaConf.create({"p": {"q": {"r": "${...z}"}}, "z": v}),
    "listdict": lambda v: OmegaConf.create([{"a": v, "b": "${.a}"}]), "nodes": lambda v: OmegaConf.create({"p": "x${q}", "q": v}), "miss2": lambda v: OmegaConf.create({"p": "???", "q": "${p}", "r": v}),
    "bad": lambda v: OmegaConf.create({"p": "${nope}"}), "raise": lambda v: 1 // 0, "tuple": lambda v: (v, 2), "empty": lambda v: OmegaConf.create({}), "bytes": lambda v: b"x", "esc": lambda v: "\\${t}",
    "root": lambda v, _root_: _root_.d, "rootl": lambda v, _root_: _root_.l,
}


def lists(x):
    """The data with tuples (a resolver's result) as lists (in a config)."""
    if isinstance(x, dict):
        return {k: lists(v) for k, v in x.items()}
    return [lists(v) for v in x] if isinstance(x, (list, tuple)) else x


def results(sx):
    """Values computed by resolvers, configs with interpolations of their own included."""
    v = sx.int("v", -12, 105) if sx.flag("free") else 3
    k = sx.choice("result", tuple(RES))
    calls = []
    fn = RES[k]
    OmegaConf.clear_resolver("p18r")
    OmegaConf.register_new_resolver("p18r", fn, use_cache=sx.flag("cache") if k[:4] != "root" else False)
    # (the text of a container shows its interpolations unresolved)
    where = sx.choice("where", ("x", "in", "item", "chain", "text") if k in ("int", "none", "text", "missing", "raise", "bytes", "esc") else ("x", "in", "item", "chain"))
    i = "${p18r:${t}}"
    cfg = OmegaConf.create({"t": v, "d": {"a": 5, "b": "${t}", "z": 1}, "l": [1, "${t}"], "s": {"x": i if where in ("x", "chain") else 0, "in": {"y": i if where == "in" else 0}, "it": [0, i if where == "item" else 1]},
                            "c": "${s.x}" if where == "chain" else "p" + i if where == "text" else 2})
    want = sx.attempt(lambda: OmegaConf.to_container(cfg, resolve=True))
    r = sx.attempt(lambda: OmegaConf.resolve(cfg))
    sx.observe("r", (k, want.kind, r.kind))
    if k == "tuple" and want.ok:
        want.value = lists(want.value)
    OmegaConf.clear_resolver("p18r")
    if not want.ok:
        sx.prove(not r.ok or k == "miss2", "what cannot be read cannot be resolved")
        return
    sx.prove(r.ok, "a config that can be read is resolved")
    got = sx.attempt(lambda: OmegaConf.to_container(cfg, resolve=True))
    sx.prove(got.ok, "and can be read afterwards")
    sx.prove(same(sx, want.value, got.value), "reading the config gives the same data as before")
    if k not in ("esc", "text", "dict", "list"):  # text that looks like an interpolation is kept escaped
        sx.prove(not any(n._is_interpolation() for n in all_nodes(cfg)), "no interpolation is left")
        sx.prove(same(sx, want.value, plain(cfg)), "every value is what it read as, missing stays missing")
    sx.prove(keys_ok(cfg), "the tree is well formed")


def escaped(sx):
    """Strings that only look like interpolations."""
    s = sx.str("s", 1, sx.p["len"], "\\$a")
    t = s + sx.choice("tail", ("${x}", "\\${x}", "{x}", "", "\\\\${x}b", "${x}\\${y}"))
    cfg = OmegaConf.create({"x": sx.choice("x", (3, "q\\", "???", "\\${y}", "$")), "a": t, "b": sx.choice("b", ("${a}", "${.a}", "p${a}", "${x}"))})
    before = sx.attempt(lambda: (cfg.a, cfg.b))
    r = sx.attempt(lambda: OmegaConf.resolve(cfg))
    sx.observe("r", r.kind)
    if not before.ok:
        sx.stop()
    sx.prove(r.ok, "what can be read is resolved")
    now = sx.attempt(lambda: (cfg.a, cfg.b))
    sx.prove(now.ok, "and can be read afterwards")
    sx.prove(sx.eq(now.value, before.value), "as the same value")
    sx.prove(sx.attempt(lambda: OmegaConf.resolve(cfg)).ok and sx.eq((cfg.a, cfg.b), before.value), "resolving again changes nothing")


A = ["every value is what it read as, missing stays missing", "an interpolation that cannot be resolved raises"]
QK = ("t", "d", "db", "l", "xa", "nope", "m", "rel", "up", "str", "k", "sy")
F = ("i", "oi", "s", "u", "l", "ol", "d", "n", "on", "a")
TG = ("ti", "ts", "tl", "td", "tn", "tx", "tz", "tm")
HARNESSES = [
    ("one", resolve, {"quick": {"n": 1, "kinds": tuple(KINDS), "flags": ("none", "struct", "ro", "rwin")}, "thorough": {"n": 1, "kinds": tuple(KINDS), "flags": ("none", "struct", "ro", "rwin")}}, A + ["read-only nodes are not resolved"]),
    ("two", resolve, {"quick": {"n": 2, "kinds": QK, "flags": ("none",)}, "thorough": {"n": 2, "kinds": tuple(KINDS), "flags": ("none", "struct", "ro", "rwin")}}, A),
    ("three", resolve, {"quick": {"n": 3, "kinds": ("d", "db", "xa"), "flags": ("none",)}, "thorough": {"n": 3, "kinds": ("t", "d", "db", "l", "xa", "m", "sy", "rel"), "flags": ("none",)}}, A[:1]),
    ("subtree", subtree, {"quick": {"n": 1, "kinds": tuple(KINDS)}, "thorough": {"n": 2, "kinds": tuple(KINDS)}}, ["the subtree has the values it read as", "the rest reads as before"]),
    ("typed", typed, {"quick": {"fields": F, "targets": TG}, "thorough": {"fields": F, "targets": TG}}, ["the field keeps its declared type", "what cannot be read cannot be resolved", "missing stays missing"]),
    ("results", results, {"quick": {}, "thorough": {}}, ["reading the config gives the same data as before", "what cannot be read cannot be resolved"]),
    ("escaped", escaped, {"quick": {"len": 3}, "thorough": {"len": 6}}, ["as the same value"]),
]
BOUNDS = ("a tree of depth 3 with one, two or three (thorough: three with 8 kinds) of five positions holding one of 18 kinds of interpolation (to every kind of target, relative, through other interpolations, inside text, missing, "
          "unresolvable, cyclic), symbolic int and string leaves, four flag settings; resolving the root and each subtree (for a subtree, what the rest of the tree reads as is claimed, not its raw text: resolving also resolves "
          "the containers that interpolations of the subtree lead to); every kind of typed field against 8 targets; strings of up to 3 (6) free backslashes, dollars and letters in front of 6 tails. Not claimed: a container or union field "
          "whose interpolation leads to a value of another type (resolve raises a validation error); 20 kinds of results of a resolver in 5 positions, with and without cache; other resolvers")
