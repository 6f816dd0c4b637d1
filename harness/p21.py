"""Copies are equal to and independent of the original."""
import copy
import pickle
from dataclasses import dataclass, field
from enum import Enum
from pathlib import Path
from typing import Any, Dict, List, Optional, Tuple, Union

from omegaconf import DictConfig, ListConfig, OmegaConf, flag_override

from .common import all_nodes, children, keys_ok, plain, snap
from .p01 import dict_ops, list_ops


class Color(Enum):
    RED = 1
    BLUE = 2


@dataclass
class In:
    i: int = 1
    s: Optional[str] = None


@dataclass
class S:
    li: List[int] = field(default_factory=lambda: [1, 2])
    lln: List[List[int]] = field(default_factory=lambda: [[1]])
    di: Dict[str, int] = field(default_factory=lambda: {"e": 5})
    dn: Dict[str, In] = field(default_factory=lambda: {"e": In()})
    de: Dict[Color, float] = field(default_factory=lambda: {Color.RED: 1.5})
    dd: Dict[int, Dict[str, List[int]]] = field(default_factory=lambda: {1: {"x": [1]}})
    n: In = field(default_factory=In)
    on: Optional[In] = None
    mn: In = "???"  # type: ignore
    ol: Optional[List[int]] = None
    il: List[int] = "${.li}"  # type: ignore
    u: Union[int, str] = 3
    lu: List[Union[int, str]] = field(default_factory=lambda: [1, "a"])
    t: Tuple[int, int] = (1, 2)
    bl: list = field(default_factory=lambda: [1])
    bd: dict = field(default_factory=lambda: {"k": 1})
    pl: "list[int]" = field(default_factory=lambda: [3])
    pd: "dict[str, int]" = field(default_factory=lambda: {"k": 3})
    ldo: List[Optional[int]] = field(default_factory=lambda: [None, 1])
    p: Path = Path("a")
    c: Color = Color.BLUE
    b: bytes = b"x"
    m: int = "???"  # type: ignore
    a: Any = 1
    la: List[Any] = field(default_factory=lambda: [1, {"z": [2]}])


FIELDS = tuple(S.__dataclass_fields__)


def deep(n):
    """snap plus all metadata."""
    m = n._metadata
    out = [snap(n) if not isinstance(n, (DictConfig, ListConfig)) else None, type(n).__name__, m.key, m.optional, m.ref_type, m.object_type,
           getattr(m, "element_type", None), getattr(m, "key_type", None), [n._get_node_flag(f) for f in ("readonly", "struct", "allow_objects")]]
    if isinstance(n, (DictConfig, ListConfig)):
        ch = children(n)
        out.append([(k, deep(v)) for k, v in ch] if isinstance(n._content, (dict, list)) else n._content)
    return out


def data(sx):
    return OmegaConf.create({"a": {"b": sx.int("x"), "l": [sx.int("y"), [2], {"k": "${t}"}], "i": "${a.b}", "r": "${..t}", "w": "???", "im": "${.m}"}, "t": "top", "n": None, "dn": DictConfig(None), "dm": DictConfig("???"), "li": ListConfig("${a.l}")})


NODES = {"": "d", "a": "d", "a.l": "l", "a.l.1": "l", "a.l.2": "d", "dn": "x", "dm": "x", "li": "x"}


def at(cfg, path):
    n = cfg
    for p in path.split(".") if path else ():
        n = n._get_node(int(p) if isinstance(n, ListConfig) else p)
    return n


COPY = {"copy": copy.copy, "deepcopy": copy.deepcopy, "method": lambda c: c.copy(), "pickle": lambda c: pickle.loads(pickle.dumps(c)), "pickle0": lambda c: pickle.loads(pickle.dumps(c, protocol=0)),
        "deepdeep": lambda c: copy.deepcopy(copy.deepcopy(c)), "inlist": lambda c: copy.deepcopy([c, 1])[0], "twice": lambda c: copy.deepcopy({"p": c, "q": c})["q"]}


def ids(n):
    return {id(x) for x in all_nodes(n)}


def make(sx, cfg, path, how):
    o = at(cfg, path)
    before = deep(cfg)
    r = sx.attempt(lambda: COPY[how](o))
    sx.prove(r.ok, "copying succeeds")
    c = r.value
    sx.prove(sx.eq(deep(cfg), before), "copying leaves the original unchanged")
    sx.prove(type(c) is type(o), "of the same class")
    sx.prove(sx.eq(deep(c), deep(o)), "equal contents, types and flags")
    sx.prove(not (ids(c) & ids(cfg)), "no node is shared")
    sx.prove(keys_ok(c) and keys_ok(cfg), "links")
    p = o._get_parent()
    if how.startswith("pickle"):
        sx.prove((c._get_parent() is None) == (p is None) and (p is None or c._get_parent() is not p and sx.eq(deep(c._get_parent()), deep(p))), "a pickled subtree brings its own copy of the tree")
    else:
        sx.prove(c._get_parent() is p, "a copied subtree belongs to the same tree")
    a, b = (sx.attempt(lambda: OmegaConf.to_container(z, resolve=True)) for z in (o, c))
    sx.prove(a.kind == b.kind and (not a.ok or sx.eq(a.value, b.value)), "interpolations resolve as in the original")
    return o, c


def independent(sx):
    """A mutation of either side leaves the other as it was."""
    cfg = data(sx)
    fl = sx.choice("flag", sx.p["flags"])
    path = sx.choice("node", sx.p["nodes"])
    o = at(cfg, path)
    if fl != "none":
        OmegaConf.set_struct(o, True) if fl == "struct" else o._set_flag("allow_objects", fl == "ao") if fl in ("ao", "nao") else None
    if fl == "parent" and path:
        OmegaConf.set_struct(cfg, True)
    leafkey = {"": "t", "a": "b", "a.l": 0, "a.l.2": "k"}.get(path)
    if leafkey is not None:
        o._get_node(leafkey)._set_flag("readonly", False)
    o, c = make(sx, cfg, path, sx.choice("how", sx.p["how"]))
    side = sx.choice("side", ("copy", "orig"))
    x, y = (c, o) if side == "copy" else (o, c)
    other, tree = deep(y), deep(cfg)
    v = sx.int("v")
    kind = NODES[path]
    if kind == "x":
        ops = {"set": lambda z: z._set_value({"q": v} if isinstance(z, DictConfig) else [v])}
    else:
        ops = dict_ops(sx, {"": "t", "a": "b", "a.l.2": "k"}[path], v) if kind == "d" else list_ops(sx, v)
    sub = {"": lambda z: z.a.l[2].__setitem__("k", v), "a": lambda z: z.l[1].append(v), "a.l": lambda z: z[2].update({"new": v})}.get(path)
    if sub:
        ops["deep"] = sub
    ops["flag"] = lambda z: OmegaConf.set_readonly(z, True)
    ops["flagnone"] = lambda z: z._set_flag("struct", None)
    ops["resolve"] = lambda z: OmegaConf.resolve(z)
    if leafkey is not None:
        ops["leafflag"] = lambda z: z._get_node(leafkey)._set_flag("readonly", True)
        ops["leafother"] = lambda z: z._get_node(leafkey)._set_flag("struct", True)
    if path in ("", "a"):
        ops["childflag"] = lambda z: OmegaConf.set_struct(z._get_node("a" if path == "" else "l"), True)
    op = sx.choice("op", [k for k in ops if sx.p["ops"] is None or k in sx.p["ops"]])
    r = sx.attempt(lambda: ops[op](x))
    sx.observe("r", (op, r.kind))
    sx.prove(sx.eq(deep(y), other), "the other side is unchanged")
    if side == "copy":
        if op != "resolve":  # resolving also resolves the containers interpolations lead to, in the common tree
            sx.prove(sx.eq(deep(cfg), tree), "nor is the tree of the original")
    sx.prove(keys_ok(c) and keys_ok(o), "links after the change")


FROM = {
    "ctor": lambda o: type(o)(o), "create": lambda o: OmegaConf.create(o), "merge": lambda o: OmegaConf.merge(o), "merge2": lambda o: OmegaConf.merge(o, {} if isinstance(o, DictConfig) else o),
    "field": lambda o: held(lambda h: h.__setitem__("x", o)).x, "attr": lambda o: held(lambda h: setattr(h, "x", o)).x, "append": lambda o: held(lambda h: h.l.append(o)).l[-1], "slice": lambda o: held(lambda h: h.l.__setitem__(slice(0, 1), [o])).l[0],
    "in dict": lambda o: OmegaConf.create({"x": [o]}).x[0], "node": lambda o: held(lambda h: h._get_node("y")._set_value(o)).y if isinstance(o, DictConfig) else held(lambda h: h._get_node("l")._set_value(o)).l,
    "update": lambda o: held(lambda h: OmegaConf.update(h, "z", o)).z, "mergeinto": lambda o: OmegaConf.merge({"x": {}}, {"x": o}).x if isinstance(o, DictConfig) else OmegaConf.merge({"x": []}, {"x": o}).x,
    "extend": lambda o: held(lambda h: h.l.extend([o, o])).l[-1], "plus": lambda o: (OmegaConf.create([1]) + [o])[1], "setdefault": lambda o: held(lambda h: h.setdefault("w", o)).w,
}


def held(f):
    h = OmegaConf.create({"l": [0], "y": {}})
    f(h)
    return h


def given(sx):
    """A config created from a config, or holding one it was given, shares nothing with it."""
    cfg = data(sx)
    path = sx.choice("node", ("a", "a.l", "a.l.2", "a.l.1"))
    o = at(cfg, path)
    fl = sx.choice("flags", ("none", "struct", "child", "both"))
    if fl in ("struct", "both"):
        OmegaConf.set_struct(o, False)
    kid = next((n for n in (o._content.values() if isinstance(o, DictConfig) else o._content)), None)
    if fl in ("child", "both") and kid is not None:
        kid._set_flag("struct", False)
    before = deep(cfg)
    how = sx.choice("how", tuple(FROM))
    r = sx.attempt(lambda: FROM[how](o))
    sx.observe("r", r.kind)
    sx.prove(r.ok, "a config can be given to another")
    c = r.value
    if c is None:
        sx.stop()
    sx.prove(sx.eq(deep(cfg), before), "giving it leaves it unchanged")
    sx.prove(not (ids(c) & ids(cfg)), "no node is shared: given")
    x, y = (c, o) if sx.flag("change the copy") else (o, c)
    top = y
    while top._get_parent() is not None:
        top = top._get_parent()
    if x._get_root() is top:  # merging a subtree alone gives a copy in the same tree
        top = y
    other = deep(top)
    v = sx.int("v")
    sub = [n for n in all_nodes(x) if n is not x]
    op = sx.choice("op", ("flag", "flagnone", "allow", "kidflag", "clear", "set", "deepset", "deepflag"))
    k = next(iter(x)) if isinstance(x, DictConfig) else 0
    s = sx.attempt({
        "flag": lambda: OmegaConf.set_readonly(x, True), "flagnone": lambda: x._set_flag("struct", None), "allow": lambda: x._set_flag(["allow_objects", "struct"], True), "kidflag": lambda: x._get_node(k)._set_flag("readonly", True),
        "clear": lambda: x.clear(), "set": lambda: x.__setitem__(k, v), "deepset": lambda: [n._set_value(v) for n in sub if not isinstance(n, (DictConfig, ListConfig))], "deepflag": lambda: [n._set_flag("struct", True) for n in sub],
    }[op])
    sx.observe("s", s.kind)
    sx.prove(sx.eq(deep(top), other), "the config given and the one holding it change independently")


def structured(sx):
    """Every kind of typed field, at every level."""
    f = sx.choice("field", FIELDS)
    v = sx.int("v")
    cfg = OmegaConf.create({"s": OmegaConf.structured(S), "o": 1})
    cfg.s.n.i = v
    cfg.s.dn.e.i = v
    cfg.s.a = v
    node = cfg.s._get_node(f)
    if not isinstance(node, (DictConfig, ListConfig)) or sx.flag("whole"):
        node = cfg.s
    how = sx.choice("how", sx.p["how"])
    before = deep(cfg)
    r = sx.attempt(lambda: COPY[how](node))
    sx.prove(r.ok, "copying succeeds")
    c = r.value
    sx.prove(sx.eq(deep(c), deep(node)), "equal contents, types and flags")
    sx.prove(not (ids(c) & ids(cfg)), "no node is shared")
    sx.prove(keys_ok(c), "links")
    # the copy validates as the original does
    for val in ("abc", 2.5, None, [1], {"q": 1}, In(i=3), ["x"], {"e": "x"}):
        if node is cfg.s:
            t = lambda z: z.__setitem__(f, val)
        elif isinstance(node, ListConfig):
            t = lambda z: z.append(val)
        else:
            t = lambda z: z.__setitem__("e", val)
        d, c = copy.deepcopy(node), COPY[how](node)
        a, b = sx.attempt(lambda: t(d)), sx.attempt(lambda: t(c))
        sx.prove(a.kind == b.kind, "the copy accepts and rejects what the original does")
        sx.prove(sx.eq(plain(c), plain(d)), "with the same result")
    sx.prove(sx.eq(deep(cfg), before), "the original is unchanged throughout")


def values(sx):
    """A value node."""
    cfg = OmegaConf.create({"s": OmegaConf.structured(S)})
    k = sx.choice("k", ("u", "p", "c", "b", "m", "a"))
    how = sx.choice("how", ("copy", "deepcopy", "pickle"))
    n = cfg.s._get_node(k)
    fl = sx.choice("fl", ("none", "readonly", "struct"))
    if fl != "none":
        n._set_flag(fl, False)
    c = COPY[how](n)
    sx.prove(type(c) is type(n) and c is not n and sx.eq(deep(c), deep(n)), "equal contents, types and flags")
    before = deep(cfg)
    if how != "copy":  # copy.copy of a value node (not of a container) is Python's shallow copy, its metadata is shared
        c._set_flag("readonly", True)
        sx.prove(deep(cfg) == before, "flags of the copy are its own")
        c._set_flag("readonly", None)
    r = sx.attempt(lambda: c._set_value({"u": "str", "p": "q", "c": "RED", "b": b"y", "m": 5, "a": "z"}[k]))
    sx.prove(r.ok and deep(c) != deep(n), "the copy can change")
    sx.prove(deep(cfg) == before, "the original does not")


def live(sx):
    """A copied subtree resolves against the tree it belongs to."""
    cfg = data(sx)
    how = sx.choice("how", ("copy", "deepcopy", "method", "pickle"))
    c = COPY[how](cfg.a)
    cfg.t = sx.int("v")
    if how == "pickle":
        sx.prove(c.r == "top" and c.l[2].k == "top", "a pickled subtree keeps the tree it was pickled with")
    else:
        sx.prove(sx.eq(c.r, cfg.t) and sx.eq(c.l[2].k, cfg.t), "absolute and relative interpolations lead to the tree")
    w = COPY[how](cfg)
    cfg.t = 5
    w.a.b = 9
    sx.prove(sx.eq(w.t, w.a.r) and w.a.i == 9 and w.a.r is not None and sx.eq(w.t, w.a.l[2].k), "a copied tree resolves within itself")
    sx.prove(cfg.a.r == 5 and not (cfg.a.i is w.a), "and the original within itself")


LAB = ["the other side is unchanged", "equal contents, types and flags", "interpolations resolve as in the original"]
ALL = tuple(COPY)
HARNESSES = [
    ("mutate", independent, {"quick": {"nodes": tuple(NODES), "flags": ("none",), "how": ("copy", "deepcopy", "pickle"), "ops": None}, "thorough": {"nodes": tuple(NODES), "flags": ("none", "struct", "parent"), "how": ALL, "ops": None}}, LAB),
    ("flags", independent, {"quick": {"nodes": ("", "a", "a.l", "dn"), "flags": ("struct", "ao", "nao", "parent"), "how": ALL, "ops": ("setitem", "flag", "flagnone", "childflag", "leafflag", "leafother")},
                            "thorough": {"nodes": tuple(NODES), "flags": ("struct", "ao", "nao", "parent"), "how": ALL, "ops": None}}, LAB),
    ("given", given, {"quick": {}, "thorough": {}}, ["the config given and the one holding it change independently"]),
    ("structured", structured, {"quick": {"how": ("copy", "deepcopy", "pickle")}, "thorough": {"how": ALL}}, ["the copy accepts and rejects what the original does"]),
    ("values", values, {"quick": {}, "thorough": {}}, ["the copy can change"]),
    ("live", live, {"quick": {}, "thorough": {}}, ["a copied tree resolves within itself"]),
]
BOUNDS = ("eight kinds of copies of every container of a tree with symbolic leaves, interpolations (absolute and relative), missing and None values and containers, with flags at two places; then any one of 25 mutations of either side "
          "(symbolic index and value); 25 kinds of typed fields, copied alone or within their structured config, with 8 probing values; value nodes. All copies are deep (by design also copy.copy). "
          "15 ways of creating a config from a config or giving it one, four placements of flags, eight changes of either side. Opaque objects (allow_objects) are shared by copies, by design. The values in a pickle are symbolic too (the pickled bytes carry references to them)")
