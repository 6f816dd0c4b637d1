"""Read-only configs never change: every operation runs on a writable twin as well."""
from dataclasses import dataclass, field
from enum import Enum
from typing import Any, Dict, List, Optional, Union

from omegaconf import DictConfig, IntegerNode, ListConfig, ListMergeMode, OmegaConf, UnionNode
from omegaconf.errors import ReadonlyConfigError

from .common import all_nodes, anc_flag, plain, snap


class En(Enum):
    ONE = 1
    TWO = 2


@dataclass
class Sub:
    p: int = 1
    q: Optional[str] = None
    ld: List[int] = field(default_factory=lambda: [1, 2])
    un: Union[int, str] = 3
    en: En = En.ONE
    di: Dict[str, int] = field(default_factory=lambda: {"e": 5})
    ri: Dict[str, int] = "${a.s.di}"  # type: ignore
    rl: List[int] = "${a.s.ld}"  # type: ignore


def build(x, y):
    cfg = OmegaConf.create({"a": {"b": x, "m": {"n": y}, "l": [x, [y], {"k": 7}], "i": "${a.b}", "w": "???", "im": "${a.m}"}, "t": 0})
    cfg.a.s = OmegaConf.structured(Sub)
    return cfg


TARGETS = {"a": "d", "a.m": "d", "a.l": "l", "a.s": "s", "a.l[1]": "l", "a.s.ld": "l", "a.s.di": "d", "a.l[2]": "d"}
ANC = {"a": ("", "a"), "a.m": ("", "a", "a.m"), "a.l": ("", "a", "a.l"), "a.s": ("", "a.s"), "a.l[1]": ("", "a.l", "a.l[1]"),
       "a.s.ld": ("", "a.s", "a.s.ld"), "a.s.di": ("", "a.s", "a.s.di"), "a.l[2]": ("", "a.l", "a.l[2]")}


def at(cfg, path):
    n = cfg
    if path:
        for p in path.replace("[", ".").replace("]", "").split("."):
            n = n._get_node(int(p) if isinstance(n, ListConfig) else p)
    return n


def dict_ops(sx, first, v):
    """name -> operation on a dict container; first: name of an existing plain key."""
    k = sx.choice("key", (first, "zz"))
    return {
        "setitem": lambda c: c.__setitem__(k, v),
        "setattr": lambda c: setattr(c, k, v),
        "delitem": lambda c: c.__delitem__(k),
        "delattr": lambda c: delattr(c, k),
        "pop": lambda c: c.pop(k),
        "pop_default": lambda c: c.pop(k, 9),
        "popitem": lambda c: c.popitem(),
        "setdefault": lambda c: c.setdefault(k, v),
        "update_m": lambda c: c.update({k: v}),
        "update_kw": lambda c: c.update(**{k: v}),
        "clear": lambda c: c.clear(),
        "merge_with": lambda c: c.merge_with({k: v}),
        "merge_with_cfg": lambda c: c.merge_with(OmegaConf.create({k: v})),
        "merge_dotlist": lambda c: c.merge_with_dotlist(["%s=8" % k]),
        "oc_update": lambda c: OmegaConf.update(c, k, v),
        "oc_update_force": lambda c: OmegaConf.update(c, k, v, force_add=True),
        "oc_update_deep": lambda c: OmegaConf.update(c, k + ".deep", v, force_add=True),
        "ior": lambda c: c.__ior__({k: v}),
    }


def list_ops(sx, v):
    i = sx.int("i", -4, 4)
    return {
        "setitem": lambda c: c.__setitem__(i, v),
        "setslice": lambda c: c.__setitem__(slice(0, 1), [v]),
        "setslice_empty": lambda c: c.__setitem__(slice(0, 2), []),
        "delitem": lambda c: c.__delitem__(i),
        "delslice": lambda c: c.__delitem__(slice(0, 2)),
        "append": lambda c: c.append(v),
        "insert": lambda c: c.insert(i, v),
        "extend": lambda c: c.extend([v]),
        "extend_empty": lambda c: c.extend([]),
        "iadd": lambda c: c.__iadd__([v]),
        "pop": lambda c: c.pop(),
        "pop_i": lambda c: c.pop(i),
        "remove": lambda c: c.remove(v),
        "sort": lambda c: c.sort(),
        "sort_rev": lambda c: c.sort(reverse=True),
        "reverse": lambda c: c.reverse(),
        "clear": lambda c: c.clear(),
        "merge_with": lambda c: c.merge_with([v]),
        "merge_extend": lambda c: c.merge_with([v], list_merge_mode=ListMergeMode.EXTEND),
        "merge_unique": lambda c: c.merge_with([v], list_merge_mode=ListMergeMode.EXTEND_UNIQUE),
        "oc_update": lambda c: OmegaConf.update(c, "0", v),
        "setattr": lambda c: setattr(c, "foo", v),
    }


# operations addressed from the root, by the container they change
ROOT_OPS = {
    "a": {"item": lambda c, v: c.a.__setitem__("b", v), "upd": lambda c, v: OmegaConf.update(c, "a.b", v),
          "upd_new": lambda c, v: OmegaConf.update(c, "a.new", v), "upd_force": lambda c, v: OmegaConf.update(c, "a.new.x", v, force_add=True),
          "merge": lambda c, v: c.merge_with({"a": {"b": v}}), "merge_new": lambda c, v: c.merge_with({"a": {"new": v}}),
          "dot": lambda c, v: c.merge_with_dotlist(["a.b=77"]), "upd_merge": lambda c, v: OmegaConf.update(c, "a", {"b": v}),
          "resolve": lambda c, v: OmegaConf.resolve(c)},
    "a.m": {"item": lambda c, v: c.a.m.__setitem__("n", v), "upd": lambda c, v: OmegaConf.update(c, "a.m.n", v),
            "merge": lambda c, v: c.merge_with({"a": {"m": {"n": v}}}), "merge_new": lambda c, v: c.merge_with({"a": {"m": {"o": v}}}),
            "thru": lambda c, v: c.a.im.__setitem__("n", v), "upd_merge": lambda c, v: OmegaConf.update(c, "a", {"m": {"n": v}})},
    "a.l": {"item": lambda c, v: c.a.l.__setitem__(0, v), "upd": lambda c, v: OmegaConf.update(c, "a.l[0]", v),
            "merge": lambda c, v: c.a.merge_with({"l": [v]}), "append": lambda c, v: c["a"]["l"].append(v)},
    "a.s": {"item": lambda c, v: setattr(c.a.s, "p", v), "upd": lambda c, v: OmegaConf.update(c, "a.s.p", v),
            "merge": lambda c, v: c.merge_with({"a": {"s": {"p": v}}}), "mergeun": lambda c, v: c.merge_with({"a": {"s": {"un": v}}}),
            "mergeen": lambda c, v: c.merge_with({"a": {"s": {"en": "TWO"}}}), "mergeq": lambda c, v: c.merge_with({"a": {"s": {"q": "x"}}}), "dotun": lambda c, v: c.merge_with_dotlist(["a.s.un=xx"]),
            "updun": lambda c, v: OmegaConf.update(c, "a.s", {"un": v}), "un": lambda c, v: setattr(c.a.s, "un", v),
            "none": lambda c, v: setattr(c.a.s, "q", "x"), "ld": lambda c, v: setattr(c.a.s, "ld", [v]),
            "resolve": lambda c, v: OmegaConf.resolve(c.a.s), "ri": lambda c, v: setattr(c.a.s, "ri", {"z": v}),
            "dnone": lambda c, v: setattr(c.a.s, "di", "???"), "dint": lambda c, v: setattr(c.a.s, "ld", "${a.l}")},
    "a.l[1]": {"item": lambda c, v: c.a.l[1].append(v)},
    "a.s.ld": {"item": lambda c, v: c.a.s.ld.__setitem__(0, v), "merge": lambda c, v: c.a.s.merge_with({"ld": [v]})},
    "a.s.di": {"item": lambda c, v: c.a.s.di.__setitem__("e", v), "merge": lambda c, v: c.a.s.merge_with({"di": {"e": v}})},
    "a.l[2]": {"item": lambda c, v: setattr(c.a.l[2], "k", v)},
}


def flag_it(sx, cfg, target):
    """Read-only set explicitly on one node of the path (or two: an ancestor and a contradicting nearer one)."""
    names = ANC[target]
    at(cfg, sx.choice("ro", names))._set_flag("readonly", True)
    if sx.p["two"]:
        w = sx.choice("ro2", ("no",) + names)
        if w != "no":
            at(cfg, w)._set_flag("readonly", sx.flag("ro2v"))


def judge(sx, cfg, twin, target, op, act, name):
    ro = anc_flag(at(cfg, target), "readonly") is True
    if not ro:
        sx.stop()
    if sx.p.get("queried") and sx.flag("queried"):
        for n in all_nodes(cfg):
            n._get_flag("readonly")
    before, tbefore = snap(cfg), snap(twin)
    r = sx.attempt(lambda: act(cfg))
    t = sx.attempt(lambda: act(twin))
    sx.observe("k", (name, r.kind, t.kind))
    sx.prove(sx.eq(snap(cfg), before), "read-only config is unchanged: " + name)
    same = sx.eq(snap(twin), tbefore)
    sx.prove(sx.Or(same, r.isa(ReadonlyConfigError)), "changing a read-only config raises ReadonlyConfigError: " + name)
    sx.prove(sx.Or(t.ok, not r.ok), "an invalid operation still raises: " + name)


def container(sx):
    target = sx.choice("target", sx.p["targets"])
    v = sx.int("v")
    x, y = sx.int("x"), 5
    cfg, twin = build(x, y), build(x, y)
    kind = TARGETS[target]
    if kind == "l":
        ops = list_ops(sx, v)
    else:
        first = {"a": "b", "a.m": "n", "a.s": "p", "a.s.di": "e", "a.l[2]": "k"}[target]
        if target == "a.s":
            first = sx.choice("field", ("p", "un", "q", "en"))
        ops = dict_ops(sx, first, v)
    op = sx.choice("op", sorted(ops))
    flag_it(sx, cfg, target)
    judge(sx, cfg, twin, target, op, lambda c: ops[op](at(c, target)), kind + "." + op)


def rooted(sx):
    target = sx.choice("target", sorted(ROOT_OPS))
    op = sx.choice("op", sorted(ROOT_OPS[target]))
    v, x = sx.int("v"), sx.int("x")
    cfg, twin = build(x, 5), build(x, 5)
    flag_it(sx, cfg, target)
    f = ROOT_OPS[target][op]
    judge(sx, cfg, twin, target, op, lambda c: f(c, v), "root." + op)


SPECIAL = {"dict": lambda v: {"p": v}, "dict0": lambda v: {}, "dnone": lambda v: DictConfig(None), "dmiss": lambda v: DictConfig("???"),
           "dinter": lambda v: DictConfig("${t}"), "list": lambda v: [v], "list0": lambda v: [], "lnone": lambda v: ListConfig(None),
           "lmiss": lambda v: ListConfig("???"), "linter": lambda v: ListConfig("${u}"), "int": lambda v: v, "none": lambda v: None,
           "miss": lambda v: "???", "inter": lambda v: "${t}", "struct": lambda v: OmegaConf.structured(P1),
           "sub": lambda v: OmegaConf.structured(P2), "smiss": lambda v: OmegaConf.structured(P3), "uint": lambda v: UnionNode(v, Union[int, str]), "umiss": lambda v: UnionNode("???", Union[int, str]),
           "unone": lambda v: UnionNode(None, Union[int, str]), "node": lambda v: IntegerNode(v), "nnode": lambda v: IntegerNode("???")}


@dataclass
class P1:
    p: int = 4


@dataclass
class P2(P1):
    pass


@dataclass
class P3(P1):
    p: int = "???"  # type: ignore


def special(sx):
    """Merging values of every kind over a read-only value of every kind."""
    kinds = tuple(sorted(SPECIAL))
    a, b = sx.choice("dest", kinds), sx.choice("src", kinds)
    va, vb = sx.int("va"), sx.int("vb")
    mode = sx.choice("mode", tuple(ListMergeMode)) if a[0] == "l" and b[0] == "l" else ListMergeMode.REPLACE
    cfg, twin = [OmegaConf.create({"m": {"a": SPECIAL[a](va)}, "t": {"p": 2}, "u": [3]}) for _ in range(2)]
    api = sx.choice("api", ("root", "self", "update")) if isinstance(at(cfg, "m.a"), (DictConfig, ListConfig)) else "root"
    ops = {"root": lambda c: c.merge_with({"m": {"a": SPECIAL[b](vb)}}, list_merge_mode=mode),
           "self": lambda c: at(c, "m.a").merge_with(SPECIAL[b](vb), list_merge_mode=mode),
           "update": lambda c: OmegaConf.update(c, "m.a", SPECIAL[b](vb))}
    where = sx.choice("ro", ("", "m", "m.a") if isinstance(at(cfg, "m.a"), (DictConfig, ListConfig)) else ("", "m"))
    at(cfg, where)._set_flag("readonly", True)
    if where == "m.a" and api != "self" and not (api == "root" and "inter" not in a and (a[0] in "ds" and b[0] in "ds" or a[0] == b[0] == "l")):
        sx.stop()  # the child is replaced as a whole in its writable parent
    judge(sx, cfg, twin, "m.a" if where == "m.a" else "m", a + b, ops[api], "special." + api)


def reads(sx):
    """Reads, copies and conversions of a read-only config keep working and change nothing."""
    x = sx.int("x")
    cfg, twin = build(x, 5), build(x, 5)
    OmegaConf.set_readonly(cfg, True)
    ops = {
        "get": lambda c: c.a.b, "select": lambda c: OmegaConf.select(c, "a.l[2].k"), "container": lambda c: OmegaConf.to_container(c),
        "resolved": lambda c: OmegaConf.to_container(c.a.m, resolve=True), "interp": lambda c: c.a.i, "keys": lambda c: list(c.a.keys()),
        "iter": lambda c: [z for z in c.a.l], "in": lambda c: x in c.a.l, "copy": lambda c: plain(c.copy()),
        "merge": lambda c: plain(OmegaConf.merge(c, {"t": 1})), "add": lambda c: plain(c.a.l + [1]), "missing": lambda c: OmegaConf.missing_keys(c),
        "masked": lambda c: plain(OmegaConf.masked_copy(c, ["t"])), "eq": lambda c: c == twin, "slice": lambda c: plain(c.a.l[0:2]),
    }
    op = sx.choice("op", sorted(ops))
    before = snap(cfg)
    r, t = sx.attempt(lambda: ops[op](cfg)), sx.attempt(lambda: ops[op](twin))
    if op == "eq":
        t.value = True
    sx.observe("r", (r.kind, r.value))
    sx.prove(r.ok and t.ok, "reads of a read-only config succeed")
    sx.prove(sx.eq(r.value, t.value), "reads of a read-only config give the values")
    sx.prove(sx.eq(snap(cfg), before), "reads change nothing")


HARNESSES = [
    ("container", container, {"quick": {"targets": tuple(sorted(TARGETS)), "two": False, "queried": True},
                              "thorough": {"targets": tuple(sorted(TARGETS)), "two": True, "queried": True}},
     ["read-only config is unchanged: d.setitem", "read-only config is unchanged: l.append", "read-only config is unchanged: s.setitem"]),
    ("rooted", rooted, {"quick": {"two": True, "queried": True}, "thorough": {"two": True, "queried": True}},
     ["read-only config is unchanged: root.upd", "read-only config is unchanged: root.merge"]),
    ("special", special, {"quick": {}, "thorough": {}}, ["read-only config is unchanged: special.root", "read-only config is unchanged: special.self"]),
    ("reads", reads, {"quick": {}, "thorough": {}}, ["reads of a read-only config succeed"]),
]
BOUNDS = ("a fixed tree (nested dicts and lists, a structured config with list, dict and union fields, an interpolation, a missing value) with "
          "symbolic integer contents; every mutator on every container with a symbolic integer value/index; the read-only flag explicitly on "
          "any node of the path to the target, optionally a second explicit setting on another; every pair of kinds of value (scalar, None, missing, "
          "interpolation, dict, list, structured, container nodes that are None/missing/interpolations) merged or updated over a read-only one")
