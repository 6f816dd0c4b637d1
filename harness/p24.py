"""Every node knows its parent and key after any history."""
import copy
from dataclasses import dataclass, field
from enum import Enum
from typing import Any, Dict, List, Optional, Union

from omegaconf import AnyNode, DictConfig, IntegerNode, ListConfig, ListMergeMode, OmegaConf, UnionNode, open_dict

from .common import children, snap


class Color(Enum):
    RED = 1


@dataclass
class In:
    i: int = 1
    l: List[int] = field(default_factory=lambda: [4])


@dataclass
class S:
    li: List[int] = field(default_factory=lambda: [1, 2])
    ln: List[In] = field(default_factory=lambda: [In(), In(2)])
    dn: Dict[str, In] = field(default_factory=lambda: {"e": In()})
    dd: Dict[str, Dict[str, int]] = field(default_factory=lambda: {"e": {"f": 1}})
    lu: List[Union[int, str]] = field(default_factory=lambda: [1, "a"])
    n: In = field(default_factory=In)
    on: Optional[In] = None
    u: Union[int, str] = 3
    a: Any = 1


def walk(n, path, out):
    """All (node, key, parent, path) stored below n."""
    for k, c in children(n):
        p = path + ("[%s]" % k if isinstance(n, ListConfig) else ("." if path else "") + (k.name if isinstance(k, Enum) else str(k)))
        out.append((c, k, n, p))
        if isinstance(c, (DictConfig, ListConfig)):
            walk(c, p, out)
        elif isinstance(c, UnionNode) and hasattr(c._value(), "_value"):
            out.append((c._value(), None, c, None))
    return out


def links(sx, roots, label):
    """Every node has its container as parent and its place as key; nothing is at two places."""
    seen = set()
    for r in roots:
        sx.prove(r._get_parent() is None and r._key() is None, "a root has no parent: " + label)
        seen.add(id(r))
        for n, k, p, path in walk(r, "", []):
            sx.prove(n._get_parent() is p, "the parent of a node is the container that holds it: " + label)
            sx.prove(id(n) not in seen, "no node at two places: " + label)
            seen.add(id(n))
            if path is not None:
                nk = n._key()
                sx.prove(type(nk) is type(k) and nk == k, "the key of a node is its key or position: " + label)
                sx.prove((n._get_full_key(None) if isinstance(n, (DictConfig, ListConfig)) else p._get_full_key(k)) == path, "the full key of a node is its path: " + label)
                if n._get_root() is not r:
                    sx.prove(False, "the root of a node is its root: " + label)


def tree(x):
    cfg = OmegaConf.create({"a": {"b": x, "m": {"n": 1}, "e": {}}, "l": [x, [1, {"w": 2}], {"k": 7}, "${a}"], "t": 0})
    cfg.s = OmegaConf.structured(S)
    return cfg


def foreign(x):
    f = OmegaConf.create({"f": {"g": [x, {"h": 2}, [5]], "v": x}, "v": 3})
    f.ss = OmegaConf.structured(In)
    return f


TARGETS = ("", "a", "a.m", "l", "l.1", "l.2", "s", "s.li", "s.ln", "s.dn", "s.dd", "s.lu", "s.n")


def at(c, path):
    for p in path.split(".") if path else ():
        c = c._get_node(int(p) if isinstance(c, ListConfig) else p)
    return c


def value(sx, kind, cfg, f):
    return {
        "int": lambda: 11, "dict": lambda: {"q": [1, {"z": 2}]}, "list": lambda: [1, {"z": 2}], "none": lambda: None, "missing": lambda: "???", "inter": lambda: "${a.m}", "str": lambda: "k",
        "fd": lambda: f.f, "fl": lambda: f.f.g, "froot": lambda: f, "own_m": lambda: cfg.a.m, "own_a": lambda: cfg.a, "own_l": lambda: cfg.l, "own_root": lambda: cfg,
        "fnode": lambda: f._get_node("v"), "ownnode": lambda: cfg.a._get_node("b"), "node": lambda: IntegerNode(4), "anynode": lambda: AnyNode(4),
        "inst": lambda: In(3), "fin": lambda: f.ss, "ownin": lambda: cfg.s.n, "dc": lambda: OmegaConf.structured(In(5)),
        "tup": lambda: (1, cfg.a.m), "nodes": lambda: {"x": cfg.a.m, "y": [f.f, f._get_node("v")]}, "lnodes": lambda: [f.f, f.f.g], "listin": lambda: [In(7), f.ss], "ldup": lambda: [cfg.a.m, cfg.a.m],
        "mixed": lambda: {"x": f.ss, "y": f.ss}, "fli": lambda: f.ss.l,
    }[kind]()


def dops(sx, c, v):
    """name -> operation on a dict container."""
    first = next((k for k in c.keys()), "zz") if not c._is_none() else "zz"
    k = sx.choice("key", (first, "zz"))
    return {
        "setitem": lambda: c.__setitem__(k, v), "setattr": lambda: setattr(c, k, v), "setdefault": lambda: c.setdefault(k, v),
        "update": lambda: c.update({k: v}), "merge_with": lambda: c.merge_with({k: v}), "merge_value": lambda: c.merge_with(v), "ior": lambda: c.__ior__({k: v}),
        "oc_update": lambda: OmegaConf.update(c, k, v, force_add=True), "oc_update_set": lambda: OmegaConf.update(c, k, v, merge=False, force_add=True),
        "oc_update_deep": lambda: OmegaConf.update(c, k + ".x", v, force_add=True),
    }


def dops0(sx, c):
    k = next((k for k in c.keys()), "zz") if not c._is_none() else "zz"
    return {"del": lambda: c.__delitem__(k), "pop": lambda: c.pop(k), "popitem": lambda: c.popitem(), "clear": lambda: c.clear(), "resolve": lambda: OmegaConf.resolve(c), "dotlist": lambda: c.merge_with_dotlist(["%s=[8,{z: 1}]" % k]),
            "swap": lambda: c.__setitem__("zz", c[k]), "open": lambda: opened(c), "self": lambda: c.merge_with(c)}


def opened(c):
    with open_dict(c):
        c.zz = c


def lops(sx, c, v):
    i = sx.int("i", -3, 3)
    return {
        "setitem": lambda: c.__setitem__(i, v), "append": lambda: c.append(v), "insert": lambda: c.insert(i, v), "extend": lambda: c.extend([v, v]), "extend_value": lambda: c.extend(v), "iadd": lambda: c.__iadd__([v]),
        "setslice": lambda: c.__setitem__(slice(i, i + 1), [v, v]), "setslice_value": lambda: c.__setitem__(slice(0, i), v), "setstep": lambda: c.__setitem__(slice(None, None, -1), [v] * len(c)),
        "merge_with": lambda: c.merge_with([v]), "merge_extend": lambda: c.merge_with([v], list_merge_mode=ListMergeMode.EXTEND), "merge_unique": lambda: c.merge_with([v, v], list_merge_mode=ListMergeMode.EXTEND_UNIQUE),
        "merge_value": lambda: c.merge_with(v, list_merge_mode=ListMergeMode.EXTEND), "oc_update": lambda: OmegaConf.update(c, "0", v),
    }


def lops0(sx, c):
    i = sx.int("i", -3, 3)
    return {"del": lambda: c.__delitem__(i), "delslice": lambda: c.__delitem__(slice(i, None, 2)), "pop": lambda: c.pop(i), "remove": lambda: c.remove(c[0]), "sort": lambda: c.sort(key=str, reverse=True), "reverse": lambda: c.reverse(), "clear": lambda: c.clear(),
            "resolve": lambda: OmegaConf.resolve(c), "swap": lambda: c.__setitem__(0, c[i]), "insert_own": lambda: c.insert(0, c[i]), "setslice_own": lambda: c.__setitem__(slice(0, 2), c[i:]), "self": lambda: c.merge_with(c), "extend_self": lambda: c.__iadd__(c)}


def step(sx, cfg, f, target, names, kinds):
    c = at(cfg, target)
    if c is None or not isinstance(c, (DictConfig, ListConfig)) or c._is_interpolation():
        sx.stop()
    d = isinstance(c, DictConfig)
    ops0 = dops0(sx, c) if d else None
    kind = sx.choice("kind", ("op",) + tuple(kinds))
    if kind == "op":
        ops = dops0(sx, c) if d else lops0(sx, c)
    else:
        v = value(sx, kind, cfg, f)
        ops = dops(sx, c, v) if d else lops(sx, c, v)
    name = sx.choice("op", tuple(ops))
    fsnap = snap(f)
    r = sx.attempt(ops[name])
    sx.observe("r", (kind, name, r.kind))
    label = ("dict " if d else "list ") + name
    links(sx, [cfg, f], label)
    sx.prove(sx.eq(snap(f), fsnap), "the config a value comes from is unchanged: " + label)
    return r


def single(sx):
    """One operation on any container with any kind of value."""
    x = sx.int("x")
    cfg, f = tree(x), foreign(x)
    target = sx.choice("target", sx.p["targets"])
    step(sx, cfg, f, target, None, sx.p["kinds"])


def pairs(sx):
    """Two operations in sequence, where the second sees what the first left."""
    x = sx.int("x")
    cfg, f = tree(x), foreign(x)
    for n in (0, 1):
        t = sx.choice("t%d" % n, sx.p["targets"])
        c = at(cfg, t)
        if not isinstance(c, (DictConfig, ListConfig)) or c._is_interpolation() or c._is_none() or c._is_missing():
            sx.stop()
        d = isinstance(c, DictConfig)
        op = sx.choice("op%d" % n, ("fd", "fl", "own", "up", "del", "ins", "merge", "slice", "sort", "replace", "copyto"))
        r = sx.attempt({
            "fd": lambda: c.__setitem__("m" if d else 0, f.f), "fl": lambda: c.__setitem__("m" if d else 1, f.f.g), "own": lambda: c.__setitem__("m" if d else 0, cfg.l), "up": lambda: c.__setitem__("zz" if d else -1, cfg),
            "del": lambda: c.__delitem__("m" if d else 0), "ins": lambda: c.setdefault("zz", f.f) if d else c.insert(0, f.f), "merge": lambda: c.merge_with({"m": {"n": f.f.g}, "l": [f.f]} if d else [cfg.a, f.f]),
            "slice": lambda: c.update({"m": {"o": cfg.l}}) if d else c.__setitem__(slice(1, None), c[:2]), "sort": lambda: c.pop("m") if d else c.sort(key=str), "replace": lambda: c.__setitem__("m" if d else 1, {"n": [1]}),
            "copyto": lambda: c.__setitem__("m" if d else 0, copy.copy(cfg.a)),
        }[op])
        sx.observe("r%d" % n, r.kind)
    links(sx, [cfg, f], "after a sequence")


def results(sx):
    """Configs returned by operations have right links and share nothing with their sources."""
    x = sx.int("x")
    cfg, f = tree(x), foreign(x)
    b1, b2 = snap(cfg), snap(f)
    op = sx.choice("op", ("merge", "merge_self", "merge_lists", "merge_structured", "deepcopy", "copy", "masked", "create", "create_sub", "create_nodes", "add", "radd", "resolve_copy", "from_dotlist", "dictconfig", "listconfig", "structured_inst", "to_container_sc"))
    r = sx.attempt({
        "merge": lambda: OmegaConf.merge(cfg, {"a": f.f, "zz": f.f.g}, f), "merge_self": lambda: OmegaConf.merge(cfg, cfg), "merge_lists": lambda: OmegaConf.merge(cfg.l, f.f.g, [f.f], list_merge_mode=ListMergeMode.EXTEND), "merge_structured": lambda: OmegaConf.merge(S, cfg.s, {"n": f.ss, "ln": [f.ss, f.ss]}),
        "deepcopy": lambda: copy.deepcopy(cfg), "copy": lambda: copy.copy(cfg), "masked": lambda: OmegaConf.masked_copy(cfg, ["a", "l", "s"]), "create": lambda: OmegaConf.create(cfg), "create_sub": lambda: OmegaConf.create({"x": cfg.a, "y": [cfg.l, f.f], "z": cfg.a}), "create_nodes": lambda: OmegaConf.create([cfg._get_node("t"), f._get_node("v"), f._get_node("v")]),
        "add": lambda: cfg.l + f.f.g, "radd": lambda: [f.f] + cfg.l, "resolve_copy": lambda: OmegaConf.resolve(copy.deepcopy(cfg)) or copy.deepcopy(cfg), "from_dotlist": lambda: OmegaConf.from_dotlist(["a.b=1", "l=[1,{x: 2}]"]),
        "dictconfig": lambda: DictConfig(cfg.a), "listconfig": lambda: ListConfig(cfg.l), "structured_inst": lambda: OmegaConf.structured(S(n=In(9))), "to_container_sc": lambda: OmegaConf.create(OmegaConf.to_container(cfg)),
    }[op])
    sx.observe("kind", r.kind)
    sx.prove(r.ok, "the operation succeeds")
    out = r.value
    sub = out._get_parent() is not None  # a copy of a part or a sum keeps its parent, without being in it
    if sub:
        sx.prove(op in ("add", "radd", "merge_lists") and out._get_parent() is cfg, "only copies of a part and sums keep a parent")
        seen = {id(n) for n, _, _, _ in walk(cfg, "", [])} | {id(n) for n, _, _, _ in walk(f, "", [])}
        for n, k, p, path in walk(out, "", []):
            sx.prove(n._get_parent() is p and (n._key() == k if path is not None else True) and id(n) not in seen, "links inside a detached copy")
        links(sx, [cfg, f], op)
    else:
        links(sx, [cfg, f, out], op)
    sx.prove(sx.eq(snap(cfg), b1) and sx.eq(snap(f), b2), "the sources are unchanged")


def unsafe(sx):
    """unsafe_merge may take nodes from its inputs; its result must be right all the same."""
    x = sx.int("x")
    cfg, f = tree(x), foreign(x)
    k = sx.choice("k", ("own", "nodes", "twice", "structured", "list"))
    r = sx.attempt(lambda: {"own": lambda: OmegaConf.unsafe_merge(cfg, f), "nodes": lambda: OmegaConf.unsafe_merge(cfg, OmegaConf.create({"a": {"m": {"o": [1, {"q": 2}]}}, "l": [{"y": 1}]})), "twice": lambda: OmegaConf.unsafe_merge(cfg, f, {"f": {"g": [{"z": 1}]}}),
                            "structured": lambda: OmegaConf.unsafe_merge(OmegaConf.structured(S), OmegaConf.create({"li": [5], "n": {"i": 4}, "dn": {"q": {"i": 9}}})), "list": lambda: OmegaConf.unsafe_merge(OmegaConf.create([1, {"a": 2}]), OmegaConf.create([{"b": 3}, [x]]))}[k]())
    sx.observe("kind", r.kind)
    sx.prove(r.ok, "the operation succeeds")
    links(sx, [r.value], "unsafe_merge")


VK = ("int", "dict", "list", "none", "missing", "inter", "fd", "fl", "froot", "own_m", "own_a", "own_l", "own_root", "fnode", "ownnode", "node", "anynode", "inst", "fin", "ownin", "dc", "tup", "nodes", "lnodes", "listin", "ldup", "mixed", "fli")
LAB = ["the parent of a node is the container that holds it: dict setitem", "no node at two places: list insert"]
HARNESSES = [
    ("single", single, {"quick": {"targets": ("", "a", "l", "s", "s.ln", "s.dn", "s.lu"), "kinds": ("int", "dict", "fd", "fl", "own_m", "own_root", "fnode", "node", "inst", "fin", "lnodes", "nodes", "none")}, "thorough": {"targets": TARGETS, "kinds": VK}}, LAB),
    ("pairs", pairs, {"quick": {"targets": ("", "a", "l", "a.m")}, "thorough": {"targets": ("", "a", "l", "a.m", "l.1", "l.2", "a.zz", "l.0")}}, ["no node at two places: after a sequence"]),
    ("results", results, {"quick": {}, "thorough": {}}, ["no node at two places: merge"]),
    ("unsafe", unsafe, {"quick": {}, "thorough": {}}, ["no node at two places: unsafe_merge"]),
]
BOUNDS = ("one operation of 38 kinds on any of 7 (13) containers of a tree with nested dicts, lists, interpolations and a structured config with containers of structured configs and unions, with values of 13 (28) kinds, among them nodes of the same and of another config, indices and slice bounds symbolic in -3..3; "
          "all pairs of 11 operations on 4 (8) containers; 18 operations that return a config; unsafe_merge of 5 pairs (its inputs excluded, as documented). The no_deepcopy_set_nodes flag, which asks for nodes to be moved, is outside")
