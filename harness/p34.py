"""Only supported values can be stored, unless the allow_objects flag is in effect."""
import collections
from dataclasses import dataclass, field
from decimal import Decimal
from pathlib import Path, PurePath
from typing import Any, Dict, List

from omegaconf import AnyNode, DictConfig, ListConfig, OmegaConf, flag_override
from omegaconf.errors import UnsupportedValueType, ValidationError

from .common import anc_flag, keys_ok, plain, snap


class Foo:
    pass


class Text(str):
    pass


class Num(int):
    pass


class Seq(list):
    pass


class Map(dict):
    pass


FOO = Foo()
KINDS = {"object": lambda: FOO, "set": lambda: {1}, "frozen": lambda: frozenset((1,)), "complex": lambda: 1j, "func": lambda: len, "bytearray": lambda: bytearray(b"x"), "decimal": lambda: Decimal(1), "range": lambda: range(2), "num": lambda: Num(3),
         "text": lambda: Text("x"), "seq": lambda: Seq([1]), "map": lambda: Map(a=1), "odict": lambda: collections.OrderedDict(a=1), "pure": lambda: PurePath("a"), "class": lambda: Foo, "ellipsis": lambda: ..., "deque": lambda: collections.deque([1])}
GOOD = {"int": None, "str": "s", "bytes": b"x", "path": Path("a"), "none": None, "float": 1.5, "tuple": (1, 2)}


@dataclass
class S:
    a: Any = 1
    l: List[Any] = field(default_factory=list)
    d: Dict[str, Any] = field(default_factory=dict)


def base(x):
    return {"a": x, "d": {"k": 1, "e": {}}, "l": [1, [2], {"z": 3}], "s": {"t": 1}}


OPS = {
    "attr": (lambda c, v: setattr(c, "a", v), "a"), "item": (lambda c, v: c.__setitem__("n", v), "n"), "over": (lambda c, v: c.__setitem__("d", v), "d"), "deep": (lambda c, v: c.d.__setitem__("k", v), "d.k"), "deepnew": (lambda c, v: setattr(c.d.e, "q", v), "d.e.q"),
    "litem": (lambda c, v: c.l.__setitem__(0, v), "l.0"), "append": (lambda c, v: c.l.append(v), "l.3"), "insert": (lambda c, v: c.l[1].insert(0, v), "l.1.0"), "slice": (lambda c, v: c.l.__setitem__(slice(1, 2), [v]), "l.1"), "extend": (lambda c, v: c.l.extend([v]), "l.3"),
    "update": (lambda c, v: OmegaConf.update(c, "d.e.w", v), "d.e.w"), "updateset": (lambda c, v: OmegaConf.update(c, "d.k", v, merge=False), "d.k"), "dictupdate": (lambda c, v: c.update({"n": v}), "n"), "merge": (lambda c, v: c.merge_with({"d": {"k": v}}), "d.k"),
    "mergel": (lambda c, v: c.merge_with({"l": [v]}), "l.0"), "setdefault": (lambda c, v: c.setdefault("n", v), "n"), "wrapped": (lambda c, v: c.__setitem__("n", {"x": [0, {"y": v}]}), "n.x.1.y"), "wrappedl": (lambda c, v: c.l.append([{"y": (1, v)}]), "l.3.0.y.1"),
    "mergewrapped": (lambda c, v: c.merge_with({"d": {"e": {"x": [0, {"y": v}]}}}), "d.e.x.1.y"), "iadd": (lambda c, v: c.l.__iadd__([v]), "l.3"), "structured": (lambda c, v: c.__setitem__("n", S(a=v)), "n.a"), "structl": (lambda c, v: c.__setitem__("n", S(l=[v])), "n.l.0"),
    "setval": (lambda c, v: c._get_node("a")._set_value(v), "a"),
}
LOOPS = ("extend", "iadd", "dictupdate", "merge", "mergel", "mergewrapped", "update")


def node_at(c, path):
    for p in path.split("."):
        c = c._get_node(int(p) if isinstance(c, ListConfig) else p)
    return c


def store(sx):
    """One operation that stores a value of each kind; the flag set at any of the containers on the way."""
    kind = sx.choice("kind", tuple(KINDS))
    op = sx.choice("op", sx.p["ops"])
    f, path = OPS[op]
    x = sx.int("x")
    cfg = OmegaConf.create(base(x))
    flags = {}
    for i, n in enumerate(("root", "d", "l")):
        s = sx.choice("flag." + n, sx.p["flags"])
        if s is not None:
            (cfg if n == "root" else cfg[n])._set_flag("allow_objects", s)
    v = KINDS[kind]()
    where = path.split(".")
    top = cfg if len(where) == 1 or where[0] not in ("d", "l") else cfg[where[0]]
    allowed = anc_flag(top, "allow_objects") is True
    before = snap(cfg)
    r = sx.attempt(lambda: f(cfg, v))
    sx.observe("r", (op, r.kind, allowed))
    if not allowed:
        sx.prove(not r.ok, "an unsupported value is rejected: " + op)
        sx.prove(isinstance(r.exc, ValidationError), "with a validation error: " + op)
        if op not in LOOPS:
            sx.prove(sx.eq(snap(cfg), before), "a rejected value changes nothing: " + op)
        else:
            sx.prove(not any(val is v for val in leaves(cfg)), "a rejected value is not stored: " + op)
        return
    if op in ("merge", "mergel", "mergewrapped", "structured", "structl") and top is not cfg and anc_flag(cfg, "allow_objects") is not True:
        return  # the source of the merge is made at the root, where objects are not allowed
    sx.prove(r.ok, "an allowed value is accepted: " + op)
    n = node_at(cfg, path)
    got = n._value()
    sx.prove(isinstance(n, AnyNode) and got is v, "the very object is stored: " + op)
    sx.prove(OmegaConf.select(cfg, ".".join(where)) is v if "l" not in where[:-1] and not isinstance(v, str) else True, "and read back: " + op)
    sx.prove(keys_ok(cfg), "links")


def leaves(c):
    out = []
    for k in c._content if isinstance(c, ListConfig) else c._content.values():
        out += leaves(k) if isinstance(k, (DictConfig, ListConfig)) else [k._value()]
    return out


def create(sx):
    """Values given when a config is created, at any depth."""
    kind = sx.choice("kind", tuple(KINDS))
    v = KINDS[kind]()
    x = sx.int("x")
    shape = sx.choice("shape", ("d", "l", "dd", "ll", "dl", "ld", "deep", "tuple", "cls", "inst", "instl", "instd", "nested"))
    data = {"d": lambda: {"a": x, "b": v}, "l": lambda: [x, v], "dd": lambda: {"a": {"b": v, "c": x}}, "ll": lambda: [[x, v]], "dl": lambda: {"a": [x, v]}, "ld": lambda: [{"a": x, "b": v}], "deep": lambda: {"a": [{"b": ([v], x)}]}, "tuple": lambda: (x, v),
            "cls": lambda: {"b": S, "x": x, "c": v}, "inst": lambda: S(a=v), "instl": lambda: S(l=[x, v]), "instd": lambda: S(d={"k": v}), "nested": lambda: {"s": S(l=[{"q": v}]), "x": x}}[shape]()
    path = {"d": "b", "l": "1", "dd": "a.b", "ll": "0.1", "dl": "a.1", "ld": "0.b", "deep": "a.0.b.0.0", "tuple": "1", "cls": "c", "inst": "a", "instl": "l.1", "instd": "d.k", "nested": "s.l.0.q"}[shape]
    flag = sx.choice("flag", (None, False, True))
    how = sx.choice("how", ("create", "class"))
    fl = None if flag is None else {"allow_objects": flag}
    if how == "create":
        r = sx.attempt(lambda: OmegaConf.create(data, flags=fl))
    else:
        if shape in ("inst", "instl", "instd"):
            sx.stop()
        r = sx.attempt(lambda: (ListConfig if isinstance(data, (list, tuple)) else DictConfig)(data, flags=fl))
    sx.observe("r", r.kind)
    if flag is not True:
        sx.prove(not r.ok and isinstance(r.exc, ValidationError), "an unsupported value is rejected at creation")
        return
    sx.prove(r.ok, "an allowed value is accepted at creation")
    cfg = r.value
    sx.prove(node_at(cfg, path)._value() is v, "the very object is stored at creation")
    sx.prove(any(y is v for y in leaves(OmegaConf.create(cfg, flags=fl))), "and kept by a config made of the config")
    out = OmegaConf.to_container(cfg)
    for p in path.split("."):
        out = out[int(p)] if isinstance(out, list) else out[p]
    sx.prove(out is v, "converting gives the object")
    m = sx.attempt(lambda: OmegaConf.merge(cfg, cfg))
    sx.prove(m.ok and node_at(m.value, path)._value() is v, "merging keeps the object")
    sx.prove(node_at(cfg.copy(), path)._value() is v, "copying keeps the object")


def override(sx):
    """The flag given only for a block."""
    kind = sx.choice("kind", tuple(KINDS))
    v = KINDS[kind]()
    cfg = OmegaConf.create(base(sx.int("x")))
    where = sx.choice("where", ("root", "d", "l"))
    op = sx.choice("op", ("attr", "deep", "litem", "append", "item", "deepnew"))
    f, path = OPS[op]
    node = cfg if where == "root" else cfg[where]
    inside = where == "root" or path.split(".")[0] == where and "." in path

    def go():
        with flag_override(node, "allow_objects", True):
            f(cfg, v)
    before = snap(cfg)
    r = sx.attempt(go)
    sx.prove(r.ok == inside, "the flag allows objects below the node it is set on, for the block")
    if r.ok:
        sx.prove(node_at(cfg, path)._value() is v, "the very object is stored")
        sx.prove(OmegaConf.select(cfg, path) is v if "l" not in path.split(".")[:-1] and not isinstance(v, str) else True, "and can be read after the block")
    else:
        sx.prove(sx.eq(snap(cfg), before), "a rejected value changes nothing")
    a = sx.attempt(lambda: setattr(cfg, "z", FOO))
    sx.prove(not a.ok and isinstance(a.exc, UnsupportedValueType), "after the block objects are rejected again")


def good(sx):
    """Supported values are accepted whatever the flag."""
    k = sx.choice("good", tuple(GOOD))
    v = sx.int("v") if k == "int" else GOOD[k]
    op = sx.choice("op", sx.p["ops"])
    f, path = OPS[op]
    cfg = OmegaConf.create(base(0))
    s = sx.choice("flag", (None, False, True))
    if s is not None:
        cfg._set_flag("allow_objects", s)
    if op == "setval" and k == "tuple":
        sx.stop()
    r = sx.attempt(lambda: f(cfg, v))
    sx.prove(r.ok, "supported values are accepted: " + op)
    got = plain(node_at(cfg, path)) if k == "tuple" else node_at(cfg, path)._value()
    sx.prove(sx.eq(got, [1, 2] if k == "tuple" else v), "and stored: " + op)


O = tuple(OPS)
HARNESSES = [
    ("store", store, {"quick": {"ops": O, "flags": (None, True)}, "thorough": {"ops": O, "flags": (None, True, False)}}, []),
    ("create", create, {"quick": {}, "thorough": {}}, ["the very object is stored at creation", "an unsupported value is rejected at creation"]),
    ("override", override, {"quick": {}, "thorough": {}}, ["after the block objects are rejected again"]),
    ("good", good, {"quick": {"ops": O}, "thorough": {"ops": O}}, []),
]
BOUNDS = ("17 kinds of unsupported objects (sets, functions, subclasses of int, str, list and dict, ...), 23 operations that store a value, the flag set, cleared or unset at each of three containers, 13 shapes at creation, "
          "temporary overrides of the flag; symbolic int leaves. Classes of supported types (int, an Enum class) stored as values are outside (AnyNode accepts them)")
