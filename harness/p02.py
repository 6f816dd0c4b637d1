"""Struct mode and structured configs reject unknown keys, under any placement of the struct flag."""
import copy
from dataclasses import dataclass, field
from enum import Enum
from typing import Any, Dict, Optional

from omegaconf import DictConfig, ListConfig, OmegaConf, open_dict
from omegaconf.errors import ConfigAttributeError, ConfigKeyError, ConfigTypeError, OmegaConfBaseException

from .common import all_nodes, anc_flag, plain, snap
from .p12 import Color, N, T


@dataclass
class Sub:
    b: int = 1
    c: Optional[str] = None


def build(kind, x):
    inner = {"b": x, "c": None}
    cfg = OmegaConf.create({"r": {"l": [0, {"b": x, "c": None}], "d": dict(inner)}, "b": 3})
    if kind == "structured":
        cfg.r.d = OmegaConf.structured(Sub(b=x))
    return cfg


PATH = {"d": ("", "r", "r.d"), "list": ("", "r", "r.l", "r.l.1")}


def at(cfg, path):
    n = cfg
    if path:
        for p in path.split("."):
            n = n._get_node(int(p) if isinstance(n, ListConfig) else p)
    return n


OPS = ("getitem", "getattr", "get", "get_default", "set", "setattr", "del", "pop", "pop_default", "popitem", "clear", "setdefault", "update",
       "update_two", "merge_with", "merge_cfg", "oc_merge", "oc_update", "oc_update_path", "oc_update_m", "force", "dotlist", "in", "select",
       "hasattr", "open_dict", "merge_root", "merge_deep")


def keyvalue(sx):
    """A symbolic key and whether it exists: keys b and c do."""
    k = sx.str("key", 1, sx.p["klen"], "bcz")
    return k, sx.Or(k == "b", k == "c")


def run(sx):
    place = sx.choice("place", ("d", "list"))
    kind = sx.choice("kind", ("plain", "structured")) if place == "d" else "plain"
    x, v = sx.int("x"), sx.int("v")
    cfg = build(kind, x)
    names = PATH[place]
    target = names[-1]
    for p in names:
        if sx.flag("set " + p):
            at(cfg, p)._set_flag("struct", sx.flag("v " + p))
    if sx.flag("queried"):
        for n in all_nodes(cfg):
            n._get_flag("struct")
    node = at(cfg, target)
    op = sx.choice("op", OPS)
    if place == "list" and op in ("merge_root", "merge_deep"):
        sx.stop()
    k, exists = keyvalue(sx)
    exists = bool(exists)
    typed = kind == "structured"
    flag = anc_flag(node, "struct")
    own = node._get_node_flag("struct")
    # reading and writing: a typed config is closed unless its own flag says False
    closed = flag is True or (typed and own is not False)
    if typed and own is False:
        closed = flag is True
    closed_del = closed
    full = target.replace(".1", "[1]") + "." + k
    okv = v if not exists or bool(k == "b") else None  # a value valid for that field
    before = snap(cfg)
    keys0 = [str(z) for z in ("b", "c")]

    def f():
        if op == "getitem":
            return node[k]
        if op == "getattr":
            return getattr(node, k)
        if op == "get":
            return node.get(k)
        if op == "get_default":
            return node.get(k, 77)
        if op == "set":
            node[k] = okv
        if op == "setattr":
            setattr(node, k, okv)
        if op == "del":
            del node[k]
        if op == "pop":
            return node.pop(k)
        if op == "pop_default":
            return node.pop(k, 77)
        if op == "popitem":
            return node.popitem()
        if op == "clear":
            node.clear()
        if op == "setdefault":
            return node.setdefault(k, okv)
        if op == "update":
            node.update({k: okv})
        if op == "update_two":
            node.update({k: okv, "b": v})
        if op == "merge_with":
            node.merge_with({k: okv})
        if op == "merge_cfg":
            node.merge_with(OmegaConf.create({k: okv}))
        if op == "oc_merge":
            return OmegaConf.merge(node, {k: okv})
        if op == "merge_root":
            cfg.merge_with({"r": {"d": {k: okv}}})
        if op == "merge_deep":
            return OmegaConf.merge(cfg, {"r": {"d": {k: okv}}})
        if op == "oc_update":
            OmegaConf.update(node, k, okv)
        if op == "oc_update_path":
            OmegaConf.update(cfg, full, okv)
        if op == "oc_update_m":
            OmegaConf.update(cfg, target.replace(".1", "[1]"), {k: okv}, merge=True)
        if op == "force":
            OmegaConf.update(cfg, full, okv, force_add=True)
        if op == "dotlist":
            node.merge_with_dotlist([k + ("=8" if okv is not None else "=null")])
        if op == "in":
            return k in node
        if op == "select":
            return OmegaConf.select(cfg, full, default=77)
        if op == "hasattr":
            return hasattr(node, k)
        if op == "open_dict":
            with open_dict(node):
                node[k] = okv

    r = sx.attempt(f)
    sx.observe("r", (op, r.kind, closed, exists))
    now = at(cfg, target)
    keys = list(now.keys())
    has = k in keys
    lost = [z for z in keys0 if z not in keys]
    added = len(keys) - 2 + len(lost)
    reads = op in ("getitem", "getattr", "get", "get_default", "in", "select", "hasattr")
    if reads:
        sx.prove(sx.eq(snap(cfg), before), "reading never adds or removes keys: " + op)
        cur = None
        if exists:
            cur = x if bool(k == "b") else None
        if op in ("getitem", "getattr"):
            if exists:
                sx.prove(sx.And(r.ok, r.value is None if cur is None else r.value == cur), "existing keys are readable: " + op)
            else:
                # without struct a missing attribute/key is an error as well
                want = ConfigAttributeError if op == "getattr" else ConfigKeyError
                sx.prove(r.isa(want), "missing keys raise the documented error: " + op)
        elif op == "get":
            sx.prove(sx.And(r.ok, r.value is None if cur is None else r.value == cur), "get gives the value or None")
        elif op in ("get_default", "select"):
            exp = cur if exists else 77
            if op == "select" and exists and cur is None:
                exp = None
            sx.prove(sx.And(r.ok, r.value is None if exp is None else r.value == exp), "a default is given for missing keys: " + op)
        elif op in ("in", "hasattr"):
            sx.prove(sx.And(r.ok, r.value == exists), "containment tells which keys exist: " + op)
        return
    sx.prove(sx.Or(not closed_del, len(lost) == 0), "no key of a struct config is removed: " + op)
    if op in ("force", "open_dict"):
        sx.prove(r.ok and has, "force_add and open_dict can add keys: " + op)
        return
    if op in ("del", "pop", "popitem", "clear"):
        sx.prove(added == 0, "deleting adds nothing: " + op)
        if closed_del:
            sx.prove(not r.ok, "deleting from a struct config raises: " + op)
            sx.prove(sx.eq(snap(cfg), before), "a rejected deletion changes nothing: " + op)
        elif exists or op in ("popitem", "clear"):
            sx.prove(r.ok and len(lost) > 0, "deleting works without struct: " + op)
        return
    if op == "pop_default":
        if closed_del:
            sx.prove(sx.eq(snap(cfg), before), "a rejected deletion changes nothing: " + op)
            sx.prove(not r.ok, "deleting from a struct config raises: " + op)
        else:
            sx.prove(r.ok and bool(r.value == 77) if not exists else r.ok, "deleting works without struct: " + op)
        return
    # writes of one key
    if op in ("oc_merge", "merge_deep"):
        sx.prove(sx.eq(snap(cfg), before), "merging into a copy changes nothing: " + op)
        sx.prove(r.ok == (exists or not closed), "merge accepts exactly the known keys: " + op)
        return
    if exists:
        sx.prove(r.ok, "existing keys can be written: " + op)
        sx.prove(added == 0 and not lost, "writing an existing key adds none: " + op)
    elif closed:
        sx.prove(not r.ok and isinstance(r.exc, (ConfigAttributeError, ConfigKeyError, ConfigTypeError)), "unknown keys are rejected: " + op)
        sx.prove(sx.And(added == 0, not lost), "no key is added to a struct config: " + op)
        if op not in ("update_two",):
            sx.prove(sx.eq(snap(cfg), before), "a rejected write changes nothing: " + op)
    else:
        sx.prove(r.ok and has, "new keys can be added without struct: " + op)


def creation(sx):
    """Values assigned to a typed field, or merged into it, keep its closed key set."""
    @dataclass
    class Outer:
        s: Sub = field(default_factory=Sub)
        d: Dict[str, int] = field(default_factory=dict)

    k, exists = keyvalue(sx)
    exists = bool(exists)
    v = sx.int("v")
    val = v if not exists or bool(k == "b") else None
    cfg = OmegaConf.structured(Outer)
    before = snap(cfg)
    how = sx.choice("how", ("ctor", "merge", "assign_dict", "assign_cfg", "plain_child", "nested_plain"))
    if how == "ctor":
        r = sx.attempt(lambda: OmegaConf.merge(OmegaConf.structured(Sub), {k: val}))
        ok = exists
    elif how == "merge":
        r = sx.attempt(lambda: cfg.merge_with({"s": {k: val}}))
        ok = exists
    elif how == "assign_dict":
        r = sx.attempt(lambda: setattr(cfg, "s", {k: val}))
        ok = False
        if r.ok and exists:
            ok = True
    elif how == "assign_cfg":
        r = sx.attempt(lambda: setattr(cfg, "s", OmegaConf.create({k: val})))
        ok = False
        if r.ok and exists:
            ok = True
    elif how == "plain_child":
        r = sx.attempt(lambda: cfg.d.__setitem__(k, v))
        ok = True
    else:
        r = sx.attempt(lambda: cfg.__setitem__(k, v))
        ok = False
    sx.observe("r", (how, r.kind))
    sx.prove(r.ok == ok, "structured fields keep their key set: " + how)
    sx.prove(sorted(cfg.s.keys()) == ["b", "c"] or how in ("assign_dict", "assign_cfg"), "schema keys unchanged")
    if not r.ok:
        sx.prove(sx.eq(snap(cfg), before), "rejected key changes nothing: " + how)


TKEYS = {  # position -> (structured class, new key, value for it, existing key)
    "n": (True, "zz", 3, "i"), "ln[0]": (True, "zz", 3, "i"), "on": (True, "zz", 3, "u"), "a": (True, "zz", 3, "i"), "dn[x]": (True, "zz", 3, "i"), "p.l[0]": (True, "zz", 3, "i"), "": (True, "zz", 3, "i"),
    "di": (False, "zz", 3, "k"), "du": (False, "zz", 0.5, "k"), "de": (False, Color.BLUE, "t", Color.RED), "dk": (False, 7, 3, 1), "dn": (False, "zz", N(3), "x"), "p": (False, "zz", 3, "l"),
}
TOPS = ("getitem", "getattr", "get", "in", "set", "setattr", "setdefault", "update", "merge_with", "merge_cfg", "oc_merge", "oc_update", "oc_update_m", "dotlist", "del", "pop", "pop_default", "popitem", "clear", "force", "open_dict")


@dataclass
class TT(T):
    dn: Dict[str, N] = field(default_factory=lambda: {"x": N(9)})
    p: Any = field(default_factory=lambda: {"l": [N(1)]})


def typed(sx):
    """Structured configs and typed dicts wherever they are, also those that were assigned or merged in."""
    pos = sx.choice("pos", sx.p.get("pos") or tuple(TKEYS))
    struct, new, nv, old = TKEYS[pos]
    how = sx.choice("how", sx.p["how"])
    cfg = OmegaConf.create({"q": 1, "t": TT})
    cfg.t.on = N(5)
    cfg.t.a = N(6)
    if how == "copied":
        cfg = copy.deepcopy(cfg)
    elif how == "merged":
        cfg = OmegaConf.merge({"t": {}}, cfg)
    elif how == "assigned":
        c2 = OmegaConf.create({})
        c2.t = cfg.t
        cfg = c2
    root = cfg.t if sx.p["t"] and sx.flag("t is root") else cfg
    if sx.flag("root set"):
        root._set_flag("struct", sx.flag("root struct"))
    ks = [int(k) if k.isdigit() else k for k in pos.replace("[", ".").replace("]", "").split(".")] if pos else []

    def node_of(c):
        n = c.t
        for k in ks:
            n = n._get_node(k)
        return n

    node = node_of(cfg)
    if sx.flag("own set"):
        node._set_flag("struct", sx.flag("own struct"))
    flag, own = anc_flag(node, "struct"), node._get_node_flag("struct")
    closed = flag is True or struct and own is not False
    op = sx.choice("op", TOPS)
    k = old if sx.flag("old") else new
    exists = k is old
    v = node[old] if exists else nv
    tk = k.name if isinstance(k, Enum) else k
    if op in ("setattr", "getattr", "dotlist", "oc_update", "force") and not isinstance(tk, str) or op == "dotlist" and isinstance(v, (N, DictConfig, ListConfig)):
        sx.stop()
    path = "t." + pos if pos else "t"
    before, keys0 = snap(cfg), list(node.keys())
    r = sx.attempt({
        "getitem": lambda: node[k], "getattr": lambda: getattr(node, tk), "get": lambda: node.get(k, 77), "in": lambda: k in node, "set": lambda: node.__setitem__(k, v), "setattr": lambda: setattr(node, tk, v),
        "setdefault": lambda: node.setdefault(k, v), "update": lambda: node.update({k: v}), "merge_with": lambda: node.merge_with({k: v}), "merge_cfg": lambda: node.merge_with(OmegaConf.create({k: v})),
        "oc_merge": lambda: OmegaConf.merge(node, {k: v}), "oc_update": lambda: OmegaConf.update(cfg, path + "." + tk, v), "oc_update_m": lambda: OmegaConf.update(cfg, path, {k: v}, merge=True),
        "dotlist": lambda: node.merge_with_dotlist([tk + "=" + str(v)]), "del": lambda: node.__delitem__(k), "pop": lambda: node.pop(k), "pop_default": lambda: node.pop(k, 77),
        "popitem": lambda: node.popitem(), "clear": lambda: node.clear(), "force": lambda: OmegaConf.update(cfg, path + "." + tk, v, force_add=True), "open_dict": lambda: opened(node, k, v),
    }[op])
    sx.observe("r", (op, r.kind, closed, exists))
    keys = list(node_of(cfg).keys())
    if op in ("getitem", "getattr", "get", "in"):
        sx.prove(sx.eq(snap(cfg), before), "reading never adds or removes keys: typed " + op)
        if op == "in":
            sx.prove(r.ok and r.value is exists, "containment tells which keys exist: typed")
        elif exists:
            sx.prove(r.ok and sx.eq(plain(r.value), plain(v)), "existing keys are readable: typed " + op)
        elif op == "get":
            sx.prove(r.ok and r.value == 77, "a default is given for missing keys: typed")
        else:
            sx.prove(r.isa(ConfigAttributeError if op == "getattr" else ConfigKeyError), "missing keys raise the documented error: typed " + op)
    elif op in ("del", "pop", "pop_default", "popitem", "clear"):
        sx.prove(all(x in keys0 for x in keys), "deleting adds nothing: typed " + op)
        if closed:
            sx.prove(not r.ok, "deleting from a struct config raises: typed " + op)
            sx.prove(sx.eq(snap(cfg), before), "a rejected deletion changes nothing: typed " + op)
        elif exists or op in ("popitem", "clear"):
            sx.prove(r.ok and len(keys) < len(keys0), "deleting works without struct: typed " + op)
    elif op in ("force", "open_dict"):
        sx.prove(r.ok and k in keys, "force_add and open_dict can add keys: typed " + op)
    elif op == "oc_merge":
        sx.prove(sx.eq(snap(cfg), before), "merging into a copy changes nothing: typed")
        sx.prove(r.ok == (exists or not closed), "merge accepts exactly the known keys: typed")
    elif exists:
        sx.prove(r.ok and keys == keys0, "existing keys can be written: typed " + op)
    elif closed:
        sx.prove(not r.ok and isinstance(r.exc, (ConfigAttributeError, ConfigKeyError)), "unknown keys are rejected: typed " + op)
        sx.prove(keys == keys0, "no key is added to a struct config: typed " + op)
        sx.prove(sx.eq(snap(cfg), before), "a rejected write changes nothing: typed " + op)
    else:
        sx.prove(r.ok and k in keys, "new keys can be added without struct: typed " + op)


def opened(node, k, v):
    with open_dict(node):
        node[k] = v


HARNESSES = [
    ("typed", typed, {"quick": {"how": ("created",), "t": False, "pos": ("n", "ln[0]", "on", "p.l[0]", "", "du", "de", "dk", "dn")}, "thorough": {"how": ("created", "copied", "merged", "assigned"), "t": True}}, ["unknown keys are rejected: typed set", "new keys can be added without struct: typed set", "deleting from a struct config raises: typed del"]),
    ("run", run, {"quick": {"klen": 1}, "thorough": {"klen": 2}},
     ["unknown keys are rejected: set", "unknown keys are rejected: merge_with", "new keys can be added without struct: set",
      "deleting from a struct config raises: del", "no key is added to a struct config: update"]),
    ("assigned", typed, {"quick": {"how": ("assigned",), "t": False, "pos": ("a", "dn[x]", "di")}, "thorough": {"how": ("merged",), "t": True}}, ["unknown keys are rejected: typed set"]),
    ("creation", creation, {"quick": {"klen": 1}, "thorough": {"klen": 2}}, ["structured fields keep their key set: merge"]),
]
BOUNDS = ("seven places of structured configs (fields, list and dict elements, optional and Any fields) and six typed and untyped dicts, created, copied, merged and assigned, with 21 operations on an existing or new key under every struct flag at the root, its child and the container itself; plain dict, structured config and dict inside a list, three levels deep; every placement of an explicit struct flag (True, False, unset) "
          "on the path, queried before or not; 28 operations; a symbolic key of up to klen characters over b,c,z (b and c exist)")
