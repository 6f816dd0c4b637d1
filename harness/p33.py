"""A Union field only ever holds a value whose type is one of its members."""
from dataclasses import dataclass, field, make_dataclass
from enum import Enum, IntEnum
from pathlib import Path, PurePath
from typing import Any, Dict, List, Optional, Union

from omegaconf import AnyNode, BooleanNode, DictConfig, FloatNode, IntegerNode, ListConfig, OmegaConf, StringNode, UnionNode
from omegaconf.errors import ConfigTypeError, ReadonlyConfigError, ValidationError

from .common import keys_ok, snap


class Color(Enum):
    RED = 1


class Size(Enum):
    RED = 1


class Num(IntEnum):
    A = 1


class Text(str):
    pass


class Int(int):
    pass


UNIONS = {
    "int|str": (int, str), "float|bool": (float, bool), "int|float": (int, float), "str|bytes": (str, bytes), "Path|int": (Path, int), "Color|str": (Color, str), "bool|int": (bool, int), "Color|Size": (Color, Size),
    "str|int": (str, int), "all": (int, float, bool, bytes, Path, Color), "bytes|float": (bytes, float), "Num|bool": (Num, bool),
}


@dataclass
class Target:
    ti: int = 4
    tu: Union[int, str, float, None] = 5


def default(ts):
    return {int: 2, str: "q", float: 2.5, bool: True, bytes: b"q", Path: Path("q"), Color: Color.RED, Size: Size.RED, Num: Num.A}[ts[0]]


def classes(ts, opt):
    U = Union[ts]
    if opt == "opt":
        U = Optional[U]
    elif opt == "in":
        U = Union[ts + (None,)]
    d = default(ts)
    return make_dataclass("C", [("u", U, field(default=d)), ("l", List[U], field(default_factory=lambda: [d])), ("d", Dict[str, U], field(default_factory=lambda: {"k": d})), ("t", Any, field(default=7)), ("n", Optional[int], field(default=1))]), U


VALUES = ("int", "bool", "float", "str", "num", "bytes", "Path", "Color", "Size", "none", "missing", "interp", "Num", "Text", "Int", "pure", "list", "dict", "cfg", "lcfg", "object", "inode", "fnode", "anode", "snode", "bnode", "unode", "nnode", "mnode", "class", "inst")


def value(sx, kind):
    """(value given, plain value it stands for)"""
    if kind == "int":
        v = sx.int("v")
    elif kind == "bool":
        v = sx.bool("v")
    elif kind == "str":
        v = sx.str("s", 0, sx.p["slen"], "a1.?$e")
    else:
        v = {"float": 1.5, "num": sx.choice("num", ("1", "1.5", "true", "RED", "Color.RED", "null", "", "inf")) if kind == "num" else 0, "bytes": b"x", "Path": Path("p"), "Color": Color.RED, "Size": Size.RED, "none": None, "missing": "???", "interp": "${t}",
             "Num": Num.A, "Text": Text("x"), "Int": Int(3), "pure": PurePath("p"), "list": [1], "dict": {"a": 1}, "cfg": OmegaConf.create({"a": 1}), "lcfg": OmegaConf.create([1]), "object": object, "inode": 6, "fnode": 6.5, "anode": 6, "snode": "n", "bnode": False,
             "unode": 9, "nnode": None, "mnode": "???", "class": Target, "inst": Target()}[kind]
    given = {"inode": lambda: IntegerNode(6), "fnode": lambda: FloatNode(6.5), "anode": lambda: AnyNode(6), "snode": lambda: StringNode("n"), "bnode": lambda: BooleanNode(False), "unode": lambda: UnionNode(9, Union[int, str]), "nnode": lambda: IntegerNode(None),
             "mnode": lambda: StringNode("???")}.get(kind, lambda: v)()
    return given, v


def accepted(v, ts, opt):
    """Whether the documented rules accept plain value v."""
    if v is None:
        return opt != "no"
    if isinstance(v, str) and type(v) is str and (v == "???" or v == "${t}"):
        return True
    for t in ts:
        if t in (Path,) and isinstance(v, Path) or type(v) is t:
            return True
    return False


ROUTES = {
    "attr": (lambda c, v: setattr(c, "u", v), "u"), "item": (lambda c, v: c.__setitem__("u", v), "u"), "update": (lambda c, v: OmegaConf.update(c, "u", v), "u"), "merge": (lambda c, v: c.merge_with({"u": v}), "u"),
    "mergecfg": (lambda c, v: c.merge_with(OmegaConf.create({"u": v})), "u"), "dictupdate": (lambda c, v: c.update({"u": v}), "u"), "setdefault": (lambda c, v: (c.__setitem__("u", "???"), c.setdefault("u", v)), "u"),
    "litem": (lambda c, v: c.l.__setitem__(0, v), "l.0"), "append": (lambda c, v: c.l.append(v), "l.1"), "insert": (lambda c, v: c.l.insert(0, v), "l.0"), "extend": (lambda c, v: c.l.extend([v]), "l.1"), "list": (lambda c, v: setattr(c, "l", [v]), "l.0"),
    "slice": (lambda c, v: c.l.__setitem__(slice(0, 1), [v]), "l.0"), "mergel": (lambda c, v: c.merge_with({"l": [v]}), "l.0"), "ditem": (lambda c, v: c.d.__setitem__("k", v), "d.k"), "dnew": (lambda c, v: c.d.__setitem__("z", v), "d.z"),
    "dict": (lambda c, v: setattr(c, "d", {"z": v}), "d.z"), "merged": (lambda c, v: c.merge_with({"d": {"z": v}}), "d.z"), "dupdate": (lambda c, v: c.d.update(z=v), "d.z"), "dsetdefault": (lambda c, v: c.d.setdefault("z", v), "d.z"),
    "upd.l": (lambda c, v: OmegaConf.update(c, "l[0]", v), "l.0"), "upd.d": (lambda c, v: OmegaConf.update(c, "d.z", v, force_add=True), "d.z"),
}
NODE_KINDS = ("inode", "fnode", "anode", "snode", "bnode", "unode", "nnode", "mnode")
CONT = ("list", "dict", "cfg", "lcfg", "class", "inst")
COPYING = ("merge", "mergecfg")


def read(c, path):
    for p in path.split("."):
        c = c._get_node(int(p)) if isinstance(c, ListConfig) else c._get_node(p)
    return c


def check_node(sx, node, v, ts, opt, label):
    sx.prove(isinstance(node, UnionNode), "the field keeps its union type: " + label)
    m = node._metadata
    # (Union[bool, int] may be spelled in any order)
    sx.prove(set(m.ref_type.__args__) == set(ts) and m.optional == (opt != "no"), "the field keeps its union type: " + label)
    raw = node._value()
    got = raw._value() if hasattr(raw, "_value") else raw
    sx.prove(type(got) is type(v) and bool(sx.eq(got, v)), "an accepted value is stored unchanged: " + label)
    if hasattr(raw, "_value"):
        sx.prove(raw._get_parent() is node, "the inner node belongs to the field: " + label)


def assign(sx):
    u = sx.choice("union", sx.p["unions"])
    ts = UNIONS[u]
    opt = sx.choice("opt", sx.p["opts"])
    C, U = classes(ts, opt)
    kind = sx.choice("kind", sx.p["kinds"])
    route = sx.choice("route", sx.p["routes"])
    given, v = value(sx, kind)
    f, path = ROUTES[route]
    cfg = OmegaConf.structured(C)
    if kind in NODE_KINDS and path == "u" and route not in COPYING:
        sx.stop()  # assigning a raw typed node to a structured field replaces the node
    before = snap(cfg)
    r = sx.attempt(lambda: f(cfg, given))
    sx.observe("r", (route, r.kind))
    ok = accepted(v, ts, opt)
    if route in ("merge", "mergecfg", "mergel", "merged") and isinstance(v, str) and v == "???" and path in ("u",):
        sx.prove(r.ok and sx.eq(snap(cfg), before), "merging a missing value keeps the field")
        return
    sx.prove(r.ok == ok, "exactly the values of a member type are accepted: " + route)
    if ok:
        check_node(sx, read(cfg, path), v, ts, opt, route)
        sx.prove(keys_ok(cfg), "links")
        if v is None or not (isinstance(v, str) and v in ("???", "${t}")):
            now = OmegaConf.select(cfg, path)
            sx.prove(type(now) is type(v) and bool(sx.eq(now, v)), "reading gives the value: " + route)
    else:
        sx.prove(isinstance(r.exc, (ValidationError, ConfigTypeError) if kind in CONT else ValidationError), "other values raise ValidationError: " + route)
        if route == "setdefault":
            before = None
        elif route not in ("extend", "mergel", "merged", "merge", "mergecfg", "dictupdate", "dupdate"):
            sx.prove(sx.eq(snap(cfg), before), "a rejected value changes nothing: " + route)
        for n in [cfg._get_node("u")] + list(cfg.l._content) + list(cfg.d._content.values()):
            raw = n._value()
            got = raw._value() if hasattr(raw, "_value") else raw
            sx.prove(isinstance(n, UnionNode) and accepted(got, ts, opt), "every value in place has a member type: " + route)


def create(sx):
    """Values given at creation."""
    u = sx.choice("union", sx.p["unions"])
    ts = UNIONS[u]
    opt = sx.choice("opt", sx.p["opts"])
    C, U = classes(ts, opt)
    kind = sx.choice("kind", sx.p["kinds"])
    how = sx.choice("how", ("instance", "default", "listconfig", "dictconfig", "linst", "dinst", "copy", "nested", "frozen"))
    given, v = value(sx, kind)
    if kind in NODE_KINDS:
        given = v
    if kind in CONT and how == "default":
        sx.stop()  # dataclasses refuse mutable defaults
    lab = how
    f = {
        "instance": lambda: (OmegaConf.structured(C(u=given)), "u"), "linst": lambda: (OmegaConf.structured(C(l=[given])), "l.0"), "dinst": lambda: (OmegaConf.structured(C(d={"z": given})), "d.z"),
        "default": lambda: (OmegaConf.structured(make_dataclass("D", [("u", U, field(default=given)), ("t", Any, 7)])), "u"),
        "listconfig": lambda: (ListConfig([given], element_type=U), "0"), "dictconfig": lambda: (DictConfig({"z": given}, element_type=U), "z"),
        "copy": lambda: (OmegaConf.create({"x": C(u=given)}).copy().x, "u"), "nested": lambda: (OmegaConf.structured(make_dataclass("E", [("c", C, field(default_factory=lambda: C(u=given)))])).c, "u"),
        "frozen": lambda: (OmegaConf.structured(make_dataclass("F", [("u", U, field(default_factory=lambda: given)), ("t", Any, 7)], frozen=True)), "u"),
    }[how]
    r = sx.attempt(f)
    sx.observe("r", (how, r.kind))
    ok = accepted(v, ts, opt)
    sx.prove(r.ok == ok, "exactly the values of a member type are accepted: " + how)
    if not ok:
        sx.prove(isinstance(r.exc, (ValidationError, ConfigTypeError) if kind in CONT else ValidationError), "other values raise ValidationError: " + how)
        return
    cfg, path = r.value
    check_node(sx, read(cfg, path), v, ts, opt, how)
    if how == "frozen":
        t = sx.attempt(lambda: setattr(cfg, "u", default(ts)))
        sx.prove(not t.ok and isinstance(t.exc, ReadonlyConfigError), "a frozen union field cannot be set")
    if not (isinstance(v, str) and v in ("???", "${t}")):
        back = sx.attempt(lambda: OmegaConf.to_container(cfg, resolve=True))
        b = back.value
        for p in path.split("."):
            b = b[int(p)] if isinstance(b, list) else b[p]
        sx.prove(type(b) is type(v) and bool(sx.eq(b, v)), "converting gives the value: " + how)


def history(sx):
    """Several assignments in a row, with merges between configs of union fields."""
    C, U = classes((int, str), sx.choice("opt", sx.p["opts"]))
    opt = "no" if sx.p["opts"] == ("no",) else "opt" if U == Optional[Union[int, str]] else "no"
    cfg, other = OmegaConf.structured(C), OmegaConf.structured(C)
    want = 2
    for i in range(sx.p["steps"]):
        op = sx.choice("op%d" % i, ("int", "str", "bad", "none", "missing", "interp", "mergeother", "copy", "resolve", "otherset", "mergeinto"))
        if op in ("int", "str"):
            v = sx.int("v%d" % i) if op == "int" else sx.str("s%d" % i, 0, 1, "a1")
            cfg.u = v
            want = v
        elif op in ("bad", "none"):
            v = 1.5 if op == "bad" else None
            r = sx.attempt(lambda: setattr(cfg, "u", v))
            sx.prove(r.ok == (v is None and opt == "opt"), "exactly the values of a member type are accepted: history")
            if r.ok:
                want = v
        elif op == "missing":
            cfg.u = "???"
            want = "???"
        elif op == "interp":
            cfg.u = "${t}"
            want = "${t}"
        elif op == "mergeother":
            cfg.merge_with({"u": other._get_node("u")._value() if False else other.u})
            want = other.u
        elif op == "copy":
            cfg = cfg.copy()
        elif op == "resolve":
            OmegaConf.resolve(cfg)
            if want == "${t}":
                want = 7
        elif op == "otherset":
            other.u = sx.int("o%d" % i)
        else:
            cfg = OmegaConf.merge(cfg, other)
            want = other.u
        check_node(sx, cfg._get_node("u"), want, (int, str), opt, "history")
        a = sx.attempt(lambda: cfg.u)
        sx.prove(a.ok == (not (isinstance(want, str) and want == "???")), "a field reads unless it is missing")
        if a.ok:
            sx.prove(sx.eq(a.value, 7 if isinstance(want, str) and want == "${t}" else want), "reading gives the value: history")
    sx.prove(keys_ok(cfg), "links")


def nested_class(ts, opt):
    U = Optional[Union[ts]] if opt == "opt" else Union[ts]
    return make_dataclass("N", [("d", Dict[str, List[U]], field(default_factory=dict)), ("m", Dict[str, Dict[str, U]], field(default_factory=dict)), ("l", List[List[U]], field(default_factory=list)),
                                ("g", List[Dict[str, U]], field(default_factory=list)), ("t", Any, field(default=7))]), U


def own(v):
    return Optional[Path if isinstance(v, Path) else type(v)]


FORMS = {
    "plain": lambda seq, v, U: [v] if seq else {"k": v}, "cfg": lambda seq, v, U: ListConfig([v]) if seq else DictConfig({"k": v}),
    "typed": lambda seq, v, U: ListConfig([v], element_type=U) if seq else DictConfig({"k": v}, element_type=U),
    "typedas": lambda seq, v, U: ListConfig([v], element_type=own(v)) if seq else DictConfig({"k": v}, element_type=own(v)),
    "optint": lambda seq, v, U: ListConfig([v], element_type=Optional[int]) if seq else DictConfig({"k": v}, element_type=Optional[int]),
}


def nested(sx):
    """Unions inside containers of containers: plain and already built containers put into them."""
    u = sx.choice("union", sx.p["unions"])
    ts = UNIONS[u]
    opt = sx.choice("opt", sx.p["opts"])
    C, U = nested_class(ts, opt)
    where = sx.choice("where", ("d", "m", "l", "g"))
    seq = where in "dl"
    kind = sx.choice("kind", sx.p["kinds"])
    form = sx.choice("form", tuple(FORMS))
    how = sx.choice("how", ("item", "field", "merge", "mergecfg", "append", "extend", "update", "assign", "create"))
    given, v = value(sx, kind)
    if form == "typed":
        # built under the same rules (checked by create)
        if not accepted(v, ts, opt) or kind in CONT:
            sx.stop()
    if form == "typedas" and kind not in ("int", "bool", "float", "str", "bytes", "Path", "Color", "Size"):
        sx.stop()
    if form == "optint" and kind not in ("int", "none", "missing", "interp"):
        sx.stop()
    if kind in ("num", "str") and isinstance(v, str) and form == "typedas":
        sx.assume(sx.And(v != "???", v != "${t}"))
    cfg = OmegaConf.structured(C)
    inner = FORMS[form](seq, given, U)
    lists = where in "lg"
    if lists and how in ("item", "assign"):
        setattr(cfg, where, [[]] if seq else [{}])
    if not lists and how == "assign":
        setattr(cfg, where, {"z": [] if seq else {}})
    key = 0 if lists else "z"
    outer = [inner] if lists else {"z": inner}
    if how in ("append", "extend") and not lists:
        sx.stop()
    before = snap(cfg)
    def run():
        if how in ("item", "assign"):
            cfg[where][key] = inner
        elif how == "field":
            setattr(cfg, where, outer)
        elif how == "merge":
            cfg.merge_with({where: outer})
        elif how == "mergecfg":
            cfg.merge_with(OmegaConf.create({where: outer}))
        elif how == "append":
            cfg[where].append(inner)
        elif how == "extend":
            cfg[where].extend([inner])
        elif how == "update":
            OmegaConf.update(cfg, where, outer)
        else:
            return OmegaConf.structured(C(**{where: outer}))
        return cfg
    r = sx.attempt(run)
    sx.observe("r", (how, form, r.kind))
    lab = "nested " + how
    ok = accepted(v, ts, opt)
    sx.prove(r.ok == ok, "exactly the values of a member type are accepted: " + lab)
    if not ok:
        sx.prove(isinstance(r.exc, (ValidationError, ConfigTypeError) if kind in CONT else ValidationError), "other values raise ValidationError: " + lab)
        if how in ("item", "assign", "field", "append"):
            sx.prove(sx.eq(snap(cfg), before), "a rejected value changes nothing: " + lab)
        return
    c = r.value
    box = c._get_node(where)._get_node(key)
    check_node(sx, box._get_node(0) if seq else box._get_node("k"), v, ts, opt, lab)
    sx.prove(keys_ok(c), "links")
    # the container that went in is subject to the union from now on
    bad = sx.attempt(lambda: box.append(object()) if seq else box.__setitem__("w", object()))
    sx.prove(not bad.ok, "later values are checked: " + lab)
    for other in (1.5, "x", 3, True):
        o = sx.attempt(lambda: box.__setitem__(0 if seq else "k", other))
        sx.prove(o.ok == accepted(other, ts, opt), "later values are checked: " + lab)


QU = ("int|str", "float|bool", "bool|int", "Color|str", "all")
HARNESSES = [
    ("assign", assign, {"quick": {"unions": QU, "opts": ("no", "opt"), "kinds": VALUES, "routes": ("attr", "mergecfg", "append", "ditem"), "slen": 2},
                        "thorough": {"unions": tuple(UNIONS), "opts": ("no", "opt", "in"), "kinds": VALUES, "routes": tuple(ROUTES), "slen": 2}}, []),
    ("routes", assign, {"quick": {"unions": ("int|str",), "opts": ("no",), "kinds": VALUES, "routes": tuple(ROUTES), "slen": 1}, "thorough": {"unions": ("int|str",), "opts": ("no",), "kinds": ("str",), "routes": tuple(ROUTES), "slen": 3}}, []),
    ("create", create, {"quick": {"unions": ("int|str", "Path|int", "bool|int"), "opts": ("no", "opt"), "kinds": VALUES, "slen": 1}, "thorough": {"unions": tuple(UNIONS), "opts": ("no", "opt", "in"), "kinds": VALUES, "slen": 2}}, []),
    ("nested", nested, {"quick": {"unions": ("int|str", "bool|int"), "opts": ("no", "opt"), "kinds": ("int", "bool", "float", "str", "none", "missing", "interp", "Path", "dict", "cfg"), "slen": 1},
                        "thorough": {"unions": tuple(UNIONS), "opts": ("no", "opt"), "kinds": VALUES[:23] + ("unode", "anode"), "slen": 2}}, []),
    ("history", history, {"quick": {"steps": 2, "opts": ("no", "opt")}, "thorough": {"steps": 4, "opts": ("no", "opt")}}, ["reading gives the value: history"]),
]
BOUNDS = ("12 unions of 2 to 6 member types (5 in quick), optional or not, 31 kinds of values (symbolic int, bool and string, subclasses, containers, configs, raw nodes, classes), 23 ways of storing them in union fields, "
          "lists and dicts, 9 ways of giving them at creation, histories of `steps` assignments, merges, copies and resolve. Raw typed nodes assigned to a field of a structured config replace the node (tested behaviour) and are outside; "
          "the value an interpolation in a union field leads to is not validated (documented upstream as an expected failure) and not claimed")
