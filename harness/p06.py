"""An operation that raises leaves the config exactly as it was."""
from dataclasses import dataclass, field
from enum import Enum
from typing import Any, Dict, List, Optional, Union

from omegaconf import DictConfig, ListConfig, OmegaConf

from .common import keys_ok, snap


class Color(Enum):
    RED = 1


@dataclass
class Inner:
    v: int = 1
    o: Optional[int] = None


@dataclass
class Sub(Inner):
    z: int = 1


@dataclass
class Other:
    w: int = 1


@dataclass
class S:
    i: int = 1
    s: Optional[str] = "x"
    l: List[int] = field(default_factory=lambda: [1, 2])
    ol: Optional[List[Optional[int]]] = field(default_factory=lambda: [1, None])
    d: Dict[str, int] = field(default_factory=lambda: {"a": 1})
    dc: Dict[Color, int] = field(default_factory=lambda: {Color.RED: 1})
    n: Inner = field(default_factory=Inner)
    ln: List[Inner] = field(default_factory=lambda: [Inner(), Inner(v=2)])
    dn: Dict[str, Inner] = field(default_factory=lambda: {"k": Inner()})
    u: Union[int, bool] = 3
    ll: List[List[int]] = field(default_factory=lambda: [[1], [2]])
    m: List[int] = "???"  # type: ignore
    ip: Dict[str, int] = "${s.d}"  # type: ignore


def boom_on_two(z):
    if z == 2:
        raise LookupError()
    return 0


class Opaque:
    pass


def build(x):
    cfg = OmegaConf.create({
        "p": {"a": x, "m": "???", "i": "${nope}", "n": None, "l": [x, "???", "${nope}", None, {"k": x}]},
        "q": [3, x, 2], "mix": [x, "z", None], "t": "${p.a}"})
    cfg.s = OmegaConf.structured(S)
    for path in ("p", "p.l", "q", "s.n", "s.d", "s.l", "s.dn", "s.dn.k", "s.ln", "s.ln.0", "s.ll.0", "s.m"):
        at(cfg, path)._set_flag("allow_objects", False)  # flags of their own that change nothing
    return cfg


PATHS = {"": "d", "p": "d", "s": "d", "s.n": "d", "s.d": "d", "s.dc": "d", "s.dn": "d", "s.dn.k": "d",
         "p.l": "l", "q": "l", "mix": "l", "s.l": "l", "s.ol": "l", "s.ln": "l", "s.ll": "l", "s.ll.0": "l", "s.m": "x", "s.ip": "x"}
KEYS = {"": ("p", "q", "t", "new"), "p": ("a", "m", "i", "l", "new"), "s": tuple(S.__dataclass_fields__) + ("new",),
        "s.n": ("v", "o", "new"), "s.d": ("a", "new", 5), "s.dc": (Color.RED, "RED", "GREEN", 1), "s.dn": ("k", "new", 5), "s.dn.k": ("v", "o", "new")}


def at(cfg, path):
    n = cfg
    if path:
        for p in path.split("."):
            n = n._get_node(int(p) if isinstance(n, ListConfig) else p)
    return n


def value(sx, name, v):
    """Values, many of which do not fit in most places. v: a symbolic int."""
    k = sx.choice(name, sx.p["values"])
    return {
        "int": v, "str": "zz", "none": None, "missing": "???", "interp": "${p.a}", "badinterp": "${p.a", "opaque": Opaque(),
        "list": [v, v], "badlist": [v, "zz"], "badlist2": [v, Opaque()], "nonelist": [None, v], "deeplist": [[v], ["zz"]], "badinterplist": [v, "${"],
        "dict": {"a": v}, "baddict": {"a": v, "b": "zz"}, "badkey": {1: v}, "opaquedict": {"a": v, "b": {"c": Opaque()}},
        "inner": Inner(v=5), "innercls": Inner, "other": Other(), "badinner": {"v": "zz"}, "unkinner": {"v": v, "zz": 1},
        "innerlist": [Inner(), Other()], "innerlist2": [{"v": v}, {"v": "zz"}], "innerdict": {"k": Inner(), "j": {"v": "zz"}},
        "cfg": OmegaConf.create({"a": v, "b": "zz"}), "lcfg": OmegaConf.create([v, "zz"]), "structured": OmegaConf.structured(Other),
        "badinst": Inner(v="zz"), "badsub": Sub(o="zz"), "badinstlist": [Inner(), Inner(v="zz")], "badinstdict": {"k": Inner(v="zz")}, "badcfg": OmegaConf.create({"v": "zz"}), "lcfg2": OmegaConf.create([{"v": "zz"}]), "dcfg2": OmegaConf.create({"k": {"v": "zz"}}),
        "bytes": b"x", "float": 1.5, "tuplekey": {(1, 2): 1}, "nestnone": {"v": None}}[k]


VALUES = ("int", "str", "none", "missing", "interp", "badinterp", "opaque", "list", "badlist", "badlist2", "nonelist", "deeplist", "badinterplist",
          "dict", "baddict", "badkey", "opaquedict", "inner", "innercls", "other", "badinner", "unkinner", "innerlist", "innerlist2", "innerdict",
          "cfg", "lcfg", "structured", "bytes", "float", "tuplekey", "nestnone", "badinst", "badsub", "badinstlist", "badinstdict", "badcfg", "lcfg2", "dcfg2")


def judge(sx, cfg, before, r, name, tag=None):
    sx.observe("r", (tag or name, r.kind))
    if r.ok:
        sx.prove(keys_ok(cfg), "node links are right after success: " + name)
        return
    sx.reach("failed: " + name)
    sx.prove(sx.eq(snap(cfg), before), "a failed operation changes nothing: " + name)
    sx.prove(keys_ok(cfg), "a failed operation keeps the node links: " + name)


def flags(sx, cfg, path):
    f = sx.choice("flag", ("none", "readonly", "struct"))
    if f != "none":
        cfg._set_flag(f, True)


def dict_assign(sx):
    path = sx.choice("path", sorted(KEYS))
    key = sx.choice("key", KEYS[path])
    x = sx.int("x")
    cfg = build(x)
    v = value(sx, "v", sx.int("v"))
    node = at(cfg, path)
    how = sx.choice("how", sx.p["how"])
    if sx.p["flags"]:
        flags(sx, cfg, path)
    src = snap(v) if isinstance(v, (DictConfig, ListConfig)) else None
    before = snap(cfg)

    def f():
        if how == "item":
            node[key] = v
        elif how == "attr":
            setattr(node, key, v)
        elif how == "setdefault":
            return node.setdefault(key, v)
        elif how == "update":
            node.update({key: v})
        else:
            OmegaConf.update(node, str(key), v, merge=False)
    r = sx.attempt(f)
    judge(sx, cfg, before, r, "dict " + how)
    if src is not None:
        sx.prove(sx.eq(snap(v), src), "the assigned config is not changed")


LISTS = ("p.l", "q", "mix", "s.l", "s.ol", "s.ln", "s.ll", "s.ll.0")


def list_assign(sx):
    path = sx.choice("path", LISTS)
    cfg = build(sx.int("x"))
    v = value(sx, "v", sx.int("v"))
    node = at(cfg, path)
    n = len(node)
    how = sx.choice("how", ("item", "append", "insert", "slice", "slice_step", "slice_mid", "iadd1"))
    if sx.p["flags"]:
        flags(sx, cfg, path)
    before = snap(cfg)
    i = sx.int("i", -7, 7) if how in ("item", "insert") else 0

    def f():
        if how == "item":
            node[i] = v
        elif how == "append":
            node.append(v)
        elif how == "insert":
            node.insert(i, v)
        elif how == "slice":
            node[0:1] = v
        elif how == "slice_mid":
            node[1:2] = [1, v, 2]
        elif how == "iadd1":
            node.extend([v])
        else:
            node[::2] = v
    r = sx.attempt(f)
    judge(sx, cfg, before, r, "list " + how)


def removal(sx):
    path = sx.choice("path", sorted(PATHS))
    cfg = build(sx.int("x"))
    node = at(cfg, path)
    flags(sx, cfg, path)
    kind = PATHS[path]
    if kind == "l":
        ops = {"pop": lambda: node.pop(), "pop_i": lambda: node.pop(i), "del": lambda: node.__delitem__(i), "remove": lambda: node.remove(v),
               "sort": lambda: node.sort(), "sort_rev": lambda: node.sort(reverse=True), "sort_key": lambda: node.sort(key=boom_on_two),
               "pop_bad": lambda: node.pop("x"), "del_bad": lambda: node.__delitem__("x"), "clear": lambda: node.clear(),
               "set_bad": lambda: node.__setitem__("x", 1), "reverse": lambda: node.reverse(), "delslice": lambda: node.__delitem__(slice(0, 2)),
               "setattr": lambda: setattr(node, "foo", 1)}
        op = sx.choice("op", sorted(ops))
        i = sx.int("i", -7, 7) if op in ("pop_i", "del") else 0
        v = sx.int("v") if op == "remove" else 0
    else:
        key = sx.choice("key", KEYS.get(path, ("a",)) + ((1, 2), None))
        ops = {"pop": lambda: node.pop(key), "pop_d": lambda: node.pop(key, 1), "del": lambda: node.__delitem__(key),
               "delattr": lambda: delattr(node, str(key)), "popitem": lambda: node.popitem(), "clear": lambda: node.clear(),
               "set": lambda: node.__setitem__(key, Opaque())}
        op = sx.choice("op", sorted(ops))
    before = snap(cfg)
    r = sx.attempt(ops[op])
    if not r.ok and op in ("clear", "reverse") or op == "popitem" and not r.ok:
        # element-wise mixins may stop half way; they are not covered
        sx.stop()
    judge(sx, cfg, before, r, kind + " " + op)


def sorting(sx):
    """Sorting a list that cannot be sorted, or with a key function that fails."""
    n = sx.p["n"]
    kinds = [sx.choice("k%d" % i, ("int", "str", "none") if i else ("int",)) for i in range(n)]
    xs = [sx.int("x%d" % i) for i in range(n)]
    cfg = OmegaConf.create({"q": [{"int": xs[i], "str": "s", "none": None}[k] for i, k in enumerate(kinds)]})
    bad = sx.int("bad", 0, n)
    seen = []

    def key(v):
        seen.append(v)
        if len(seen) - 1 == bad:
            raise LookupError()
        return v
    how = sx.choice("how", ("plain", "reverse", "key"))
    before = snap(cfg)
    r = sx.attempt(lambda: cfg.q.sort(key=key) if how == "key" else cfg.q.sort(reverse=how == "reverse"))
    judge(sx, cfg, before, r, "sort " + how)
    if r.ok and how != "key":
        for a, b in zip(list(cfg.q), list(cfg.q)[1:]):
            sx.prove(a >= b if how == "reverse" else a <= b, "sorted")


UPATHS = ("p.a", "p.a.b", "p.a.b.c", "p.l[0]", "p.l[0].z", "p.l[9]", "p.l.x", "s.i", "s.i.z", "s.new", "s.new.z", "s.n.v", "s.n.v.z", "s.d.zz",
          "s.d.zz.y", "s.l[0]", "s.l[5]", "s.ln[0].v", "s.ln[0].zz", "p.new.x.y", "t.z", "p.i.z", "p.m.z", "p.n.z", "s.m[0]", "s.u", "s.u.k", "q[1]", "q.1.x",
          "", "s.dn.new.v", "s.s.y")


def by_path(sx):
    path = sx.choice("path", UPATHS)
    cfg = build(sx.int("x"))
    v = value(sx, "v", sx.int("v"))
    if sx.p["flags"]:
        flags(sx, cfg, path)
    merge, force = sx.flag("merge"), sx.flag("force")
    before = snap(cfg)
    r = sx.attempt(lambda: OmegaConf.update(cfg, path, v, merge=merge, force_add=force))
    if not r.ok and merge and isinstance(v, (dict, DictConfig, list, ListConfig, Inner, Other)):
        # merging a container into an existing one is covered by the merge properties
        sx.stop()
    judge(sx, cfg, before, r, "update")


QV = ("int", "str", "none", "interp", "badinterp", "opaque", "badlist", "nonelist", "deeplist", "baddict", "badkey", "opaquedict", "inner", "other",
      "badinner", "innerlist2", "innerdict", "cfg", "lcfg")
UV = ("int", "str", "none", "badinterp", "opaque", "badlist", "opaquedict", "inner")
HARNESSES = [
    ("dict_assign", dict_assign, {"quick": {"values": VALUES, "how": ("item", "attr"), "flags": False},
                                  "thorough": {"values": VALUES, "how": ("item", "attr", "setdefault", "update", "oc_update"), "flags": True}},
     ["failed: dict item"]),
    ("list_assign", list_assign, {"quick": {"values": VALUES, "flags": False}, "thorough": {"values": VALUES, "flags": True}},
     ["failed: list item", "failed: list slice", "failed: list insert", "failed: list append", "failed: list slice_mid"]),
    ("removal", removal, {"quick": {}, "thorough": {}}, ["failed: l pop", "failed: d pop", "failed: l sort", "failed: d del"]),
    ("sorting", sorting, {"quick": {"n": 4}, "thorough": {"n": 5}}, ["failed: sort plain", "failed: sort key"]),
    ("by_path", by_path, {"quick": {"values": UV, "flags": False}, "thorough": {"values": VALUES, "flags": True}}, ["failed: update"]),
]
BOUNDS = ("a config of plain and structured containers (typed lists/dicts, nested and optional, union, enum keys, missing and interpolated "
          "containers) with symbolic integer contents; every assignment path and 32 kinds of value with symbolic integers, symbolic list indices "
          "-7..7, every removal operation, 32 update paths with merge/force_add options; readonly/struct flags at the root")
