"""Structured configs convert from and to their classes faithfully."""
import copy
from dataclasses import dataclass, field
from enum import Enum
from pathlib import Path
from typing import Any, Dict, List, Optional, Union

import attr
from omegaconf import MISSING, DictConfig, ListConfig, OmegaConf, UnionNode
from omegaconf.errors import MissingMandatoryValue, ReadonlyConfigError, ValidationError

from .common import keys_ok, plain, snap


class Color(Enum):
    RED = 1
    BLUE = 2


@dataclass
class In:
    i: int = 1
    s: Optional[str] = None


@dataclass
class E:
    """No fields."""


@attr.s(auto_attribs=True)
class AE:
    """No fields."""


@dataclass
class Sub(In):
    x: int = 7


@attr.s(auto_attribs=True)
class AIn:
    i: int = 1
    s: Optional[str] = None


@attr.s(auto_attribs=True)
class ASub(AIn):
    x: int = 7


def fields(I, factory, noinit, ignored):
    """The fields shared by the dataclass and the attrs class: name -> (type, default factory or value)."""
    return {
        "i": (int, 1), "f": (float, 0.5), "b": (bool, True), "s": (str, "q"), "e": (Color, Color.RED), "p": (Path, Path("a/b")), "by": (bytes, b"x"), "oi": (Optional[int], None), "os": (Optional[str], "o"), "u": (Union[int, str], 3), "ou": (Optional[Union[int, str]], None),
        "a": (Any, 1), "aobj": (Any, factory(lambda: I(8, "z"))), "alist": (Any, factory(lambda: [1, {"k": [2]}])), "li": (List[int], factory(lambda: [1, 2])), "lo": (List[Optional[int]], factory(lambda: [None, 1])), "lu": (List[Union[int, str]], factory(lambda: [1, "a"])), "ll": (List[List[int]], factory(lambda: [[1], []])),
        "lin": (List[I], factory(lambda: [I(2), I(3, "t")])), "oli": (Optional[List[int]], None), "di": (Dict[str, int], factory(lambda: {"k": 1})), "din": (Dict[str, I], factory(lambda: {"k": I(4)})), "de": (Dict[Color, float], factory(lambda: {Color.RED: 1.5})), "dii": (Dict[int, List[int]], factory(lambda: {1: [1]})),
        "n": (I, factory(lambda: I(5))), "on": (Optional[I], None), "on2": (Optional[I], factory(lambda: I(6))), "x": (int, "${.i}"), "xn": (I, "${.n}"), "xl": (List[int], "${.li}"), "xs": (str, "<${.s}>"), "ni": (int, noinit(11)), "nio": (Optional[int], noinit(13)), "nin": (Optional[I], noinit(None)), "nia": (Any, noinit("q")), "em": (E if I is In else AE, factory(E if I is In else AE)), "lem": (List[E if I is In else AE], factory(lambda: [E() if I is In else AE()])), "ig": (Any, ignored(12)),
    }


def dc(name, fs):
    ns, ann = {}, {}
    for k, (t, d) in fs.items():
        ann[k], ns[k] = t, d
    ns["__annotations__"] = ann
    ns["__module__"] = __name__
    return ns


S = dataclass(type("S", (), dc("S", fields(In, lambda f: field(default_factory=f), lambda v: field(default=v, init=False), lambda v: field(default=v, metadata={"omegaconf_ignore": True})))))
A = attr.s(auto_attribs=True)(type("A", (), dc("A", fields(AIn, lambda f: attr.Factory(f), lambda v: attr.ib(default=v, init=False), lambda v: attr.ib(default=v, metadata={"omegaconf_ignore": True})))))
CLS = {"dc": (S, In, Sub), "attr": (A, AIn, ASub)}
TYPES = {k: t for k, (t, d) in fields(In, lambda f: f, lambda v: v, lambda v: v).items()}
ATYPES = {k: t for k, (t, d) in fields(AIn, lambda f: f, lambda v: v, lambda v: v).items()}
NAMES = tuple(k for k in TYPES if k != "ig")
INTER = {"x": "i", "xn": "n", "xl": "li"}


def values(sx, f, I, Sb):
    """A value for field f (symbolic where the type allows it)."""
    v = lambda: sx.int("v")
    return {
        "i": v, "f": lambda: sx.choice("c", (0.0, -1.5, 1e30)), "b": lambda: sx.bool("v"), "s": lambda: sx.str("v", 0, 2, "a?b"), "e": lambda: Color.BLUE, "p": lambda: Path("z"), "by": lambda: b"\xff", "oi": v, "os": lambda: None, "u": lambda: sx.str("v", 0, 2, "1a") if sx.flag("st") else v(), "ou": v,
        "a": lambda: sx.choice("c", (None, "t", 1.5, False, Color.BLUE)), "aobj": lambda: Sb(v(), "k", 9) if sx.flag("st") else I(v()), "alist": lambda: [v(), {"k": [{}, I(v())]}], "li": lambda: [v()] if sx.flag("st") else [], "lo": lambda: [v(), None], "lu": lambda: [v(), "1", sx.str("w", 1, 1, "1a")], "ll": lambda: [[], [v()]],
        "lin": lambda: [Sb(v(), None, 1), I(v())], "oli": lambda: [v()], "di": lambda: {"z": v(), "k": 2}, "din": lambda: {"z": Sb(v())}, "de": lambda: {Color.BLUE: 2.5}, "dii": lambda: {5: [v()], 6: []}, "n": lambda: Sb(v(), "s", 2) if sx.flag("st") else I(v()), "on": lambda: I(v(), "s"), "on2": lambda: None,
        "x": v, "xn": lambda: I(v()), "xl": lambda: [v()], "xs": lambda: sx.str("v", 0, 2, "ab"), "ni": v, "nio": lambda: None if sx.flag("st") else v(), "nin": lambda: I(v()), "nia": lambda: sx.choice("c", (None, 0, "", False)), "em": lambda: (E if I is In else AE)(), "lem": lambda: [] if sx.flag("st") else [(E if I is In else AE)(), (E if I is In else AE)()],
    }[f]()


def is_missing(x):
    return isinstance(x, str) and x == "???"


def same(sx, a, b):
    """Equal values of the same types, field by field for instances."""
    if type(b) in (In, Sub, AIn, ASub, S, A, E, AE):
        return type(a) is type(b) and all(same(sx, getattr(a, k), getattr(b, k)) for k in names(b))
    if isinstance(b, dict):
        return type(a) is dict and list(a) == list(b) and all(same(sx, a[k], b[k]) for k in b)
    if isinstance(b, list):
        return type(a) is list and len(a) == len(b) and all(same(sx, x, y) for x, y in zip(a, b))
    return type(a) is type(b) and bool(sx.eq(a, b))


def names(x):
    return [a.name for a in attr.fields(type(x))] if attr.has(type(x)) else list(x.__dataclass_fields__)


def resolved(inst):
    """The instance to_object should give: interpolations replaced by what they name, in a new instance of the same class."""
    out = copy.deepcopy(inst)
    for f, t in INTER.items():
        if isinstance(getattr(out, f), str) and getattr(out, f).startswith("${"):
            setattr(out, f, copy.deepcopy(getattr(out, t)))
    if out.xs == "<${.s}>":
        out.xs = "<" + out.s + ">"
    out.ig = 12
    return out


def place(sx, where, x, kind):
    """(root config, function giving the structured part)."""
    if where == "structured":
        c = OmegaConf.structured(x)
    elif where == "create":
        c = OmegaConf.create(x)
    elif where == "merge":
        c = OmegaConf.merge(CLS[kind][0], x)
    elif where == "dict":
        c = OmegaConf.create({"k": {"n": x}})
        return c, c.k.n, lambda o: o["k"]["n"]
    elif where == "list":
        c = OmegaConf.create([0, x])
        return c, c[1], lambda o: o[1]
    elif where == "assign":
        c = OmegaConf.create({"k": None})
        c.k = x
        return c, c.k, lambda o: o["k"]
    elif where == "copy":
        c = copy.deepcopy(OmegaConf.structured(x))
    return c, c, lambda o: o


def types_ok(sx, c, kind):
    """Every field has its declared type and optionality."""
    for k, t in (TYPES if kind == "dc" else ATYPES).items():
        if k == "ig":
            sx.prove(k not in c, "ignored fields are left out")
            continue
        n = c._get_node(k)
        opt = getattr(t, "__origin__", None) is Union and type(None) in t.__args__
        base = t
        if opt:
            args = tuple(a for a in t.__args__ if a is not type(None))
            base = args[0] if len(args) == 1 else Union[args]
        m = n._metadata
        sx.prove(m.ref_type == base, "a field has its declared type")
        sx.prove(m.optional is (opt or t is Any), "a field has its declared optionality")
        o = getattr(base, "__origin__", None)
        if o is list:
            sx.prove(m.element_type == base.__args__[0], "a list field has its element type")
        if o is dict:
            sx.prove((m.key_type, m.element_type) == base.__args__, "a dict field has its key and element types")


def roundtrip(sx):
    """Instances (and classes) go in and come out."""
    kind = sx.choice("kind", ("dc", "attr"))
    C, I, Sb = CLS[kind]
    src = sx.choice("src", ("class",) + NAMES)
    where = sx.choice("where", sx.p["where"])
    inst = C()
    if src != "class":
        val = values(sx, src, I, Sb)
        if is_missing(val):
            sx.stop()
        setattr(inst, src, val)
    keep = copy.deepcopy(inst)
    root, c, pick = place(sx, where, C if src == "class" else inst, kind)
    sx.prove(OmegaConf.get_type(c) is C and list(c) == list(NAMES), "a config of the class, with its fields in order")
    types_ok(sx, c, kind)
    for k in NAMES:
        raw = c._get_node(k)._value()
        want = getattr(inst, k)
        if isinstance(want, str) and want.startswith("${") or isinstance(want, str) and "${" in want:
            sx.prove(raw == want, "interpolations stay")
    before = snap(root)
    o = sx.attempt(lambda: pick(OmegaConf.to_object(root)))
    sx.observe("o", o.kind)
    sx.prove(o.ok and type(o.value) is C, "to_object gives an instance of the class")
    w = copy.deepcopy(inst)
    if where == "merge" and src in ("di", "din", "de", "dii"):
        setattr(w, src, {**getattr(C(), src), **getattr(w, src)})  # merging keeps the other keys
    w = resolved(w)
    for k in NAMES:
        sx.prove(same(sx, getattr(o.value, k), getattr(w, k)), "to_object gives back the fields with resolved values")
    sx.prove(o.value.ig == 12, "ignored fields have their default")
    sx.prove(sx.eq(snap(root), before), "converting changes nothing")
    sx.prove(same(sx, inst, keep), "the instance given stays as it was")
    o.value.li.append(99)
    o.value.n.i = 98
    o.value.lin.clear()
    inst.li.append(5)
    inst.din["new"] = I()
    sx.prove(sx.eq(snap(root), before), "the config is independent of the instances")
    again = OmegaConf.structured(o.value) if where == "structured" else None
    if again is not None:
        sx.prove(OmegaConf.get_type(again) is C and sx.eq(plain(again.n.i), 98), "the instance can be converted again")


def overrides(sx):
    """Values set through the config appear in the instance, the others stay."""
    kind = sx.choice("kind", ("dc", "attr"))
    C, I, Sb = CLS[kind]
    f = sx.choice("f", NAMES)
    how = sx.choice("how", sx.p["how"])
    c = OmegaConf.structured(C)
    val = values(sx, f, I, Sb)
    if is_missing(val):
        sx.stop()
    if how == "item":
        c[f] = val
    elif how == "merge":
        c = OmegaConf.merge(c, {f: val})
    elif how == "merge_with":
        c.merge_with({f: val})
    elif how == "update":
        OmegaConf.update(c, f, val, merge=False)
    o = sx.attempt(lambda: OmegaConf.to_object(c))
    sx.observe("o", o.kind)
    sx.prove(o.ok and type(o.value) is C, "to_object gives an instance of the class")
    w = C()
    if how.startswith("merge") and f in ("di", "din", "de", "dii"):
        val = {**getattr(w, f), **val}  # merging keeps the other keys
    if how.startswith("merge") and f == "xn":
        pass
    setattr(w, f, val)
    w = resolved(w)
    for k in NAMES:
        sx.prove(same(sx, getattr(o.value, k), getattr(w, k)), "overrides appear in the instance")


def deep(sx):
    """Changes below a field appear in the instance."""
    kind = sx.choice("kind", ("dc", "attr"))
    C, I, Sb = CLS[kind]
    v = sx.int("v")
    c, w = OmegaConf.structured(C), C()
    what = sx.choice("what", ("n", "lin", "lin_append", "din", "din_new", "li", "li_append", "di", "di_del", "aobj", "on", "dii", "ll", "on2none", "n_sub", "inter", "ni"))
    def both(c, w, conf):
        if what == "n": c.n.i = w.n.i = v
        elif what == "lin": c.lin[1].i = w.lin[1].i = v
        elif what == "lin_append": c.lin.append(I(v)); w.lin.append(I(v))
        elif what == "din": c.din["k"].i = w.din["k"].i = v
        elif what == "din_new": c.din["new"] = Sb(v); w.din["new"] = Sb(v)
        elif what == "li": c.li[0] = w.li[0] = v
        elif what == "li_append": c.li.append(v); w.li.append(v)
        elif what == "di": c.di["zz"] = w.di["zz"] = v
        elif what == "di_del": del c.di["k"]; del w.di["k"]
        elif what == "aobj": c.aobj.i = w.aobj.i = v
        elif what == "on": c.on = I(v); w.on = I(v)
        elif what == "dii": c.dii[1].append(v); w.dii[1].append(v)
        elif what == "ll": c.ll[1] = [v]; w.ll[1] = [v]
        elif what == "on2none": c.on2 = None; w.on2 = None
        elif what == "n_sub": c.n = Sb(v); c.n.x = 3; w.n = Sb(v, None, 3)
        elif what == "inter": c.n.i = "${i}"; c.i = v; w.i = w.n.i = v
        elif what == "ni": c.ni = w.ni = v
    r = sx.attempt(lambda: both(c, w, c))
    sx.prove(r.ok, "the changes are accepted")
    o = sx.attempt(lambda: OmegaConf.to_object(c))
    sx.observe("o", o.kind)
    sx.prove(o.ok, "to_object succeeds")
    w = resolved(w)
    for k in NAMES:
        sx.prove(same(sx, getattr(o.value, k), getattr(w, k)), "deep changes appear in the instance")


def missing(sx):
    """Missing values raise instead of producing an instance."""
    kind = sx.choice("kind", ("dc", "attr"))
    C, I, Sb = CLS[kind]
    at = sx.choice("at", NAMES + ("n.i", "lin[0].i", "din.k.s", "li[0]", "di.k", "aobj.i", "alist[1].k", "on2.i", "dii[1][0]"))
    v = sx.str("v", 3, 3, "?a") if at == "s" else "???"
    root = sx.choice("root", ("top", "dict"))
    c = OmegaConf.structured(C) if root == "top" else OmegaConf.create({"r": C})
    part = c if root == "top" else c.r
    keys = [int(k) if k.isdigit() else k for k in at.replace("[", ".").replace("]", "").split(".")]
    n = part
    for k in keys[:-1]:
        n = n[k]
    n[keys[-1]] = v
    o = sx.attempt(lambda: OmegaConf.to_object(c))
    sx.observe("o", o.kind)
    miss = is_missing(v) and at not in ("ni", "nio", "nin", "nia")  # a field not given to the initializer keeps its default
    sx.prove(o.ok == (not miss) and (o.ok or isinstance(o.exc, MissingMandatoryValue)) or at in TYPES and at in INTER.values() and not o.ok or at == "s" and not o.ok and miss, "a missing value raises, no instance is produced")
    t = sx.attempt(lambda: OmegaConf.to_container(c))
    sx.prove(t.ok, "to_container still works")
    if at in ("ni", "nio", "nin", "nia"):
        sx.prove(getattr(o.value if root == "top" else o.value["r"], at) == {"ni": 11, "nio": 13, "nin": None, "nia": "q"}[at], "a missing field not given to the initializer keeps its default")


def required(sx):
    """Fields without default are missing until set."""
    kind = sx.choice("kind", ("dc", "attr"))

    @dataclass
    class R:
        i: int
        l: List[int]
        n: In
        d: Dict[str, int] = field(default_factory=lambda: MISSING)
        o: Optional[int] = MISSING

    @attr.s(auto_attribs=True)
    class RA:
        i: int
        l: List[int]
        n: In
        d: Dict[str, int] = attr.Factory(lambda: MISSING)
        o: Optional[int] = MISSING

    C = R if kind == "dc" else RA
    c = OmegaConf.structured(C)
    v = sx.int("v")
    sx.prove(all(OmegaConf.is_missing(c, k) for k in c), "fields without default are missing")
    vals = {"i": v, "l": [v], "n": In(v), "d": {"k": v}, "o": None}
    leave = sx.choice("leave", ("none",) + tuple(vals))
    for k in vals:
        if k != leave:
            c[k] = vals[k]
    o = sx.attempt(lambda: OmegaConf.to_object(c))
    if leave == "none":
        sx.prove(o.ok and type(o.value) is C and all(same(sx, getattr(o.value, k), vals[k]) for k in vals), "once set, an instance is produced")
    else:
        sx.prove(not o.ok and isinstance(o.exc, MissingMandatoryValue), "a missing field raises")


@dataclass(frozen=True)
class F:
    i: int = 1
    l: List[int] = field(default_factory=lambda: [1])
    d: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    n: In = field(default_factory=In)


@attr.s(auto_attribs=True, frozen=True)
class FA:
    i: int = 1
    l: List[int] = attr.Factory(lambda: [1])
    d: Dict[str, int] = attr.Factory(lambda: {"k": 1})
    n: In = attr.Factory(In)


@dataclass
class Holder:
    a: F = field(default_factory=F)
    b: In = field(default_factory=In)
    c: Any = field(default_factory=FA)
    l: List[F] = field(default_factory=lambda: [F()])


def frozen(sx):
    """Frozen classes give read-only configs."""
    C = sx.choice("C", (F, FA))
    v = sx.int("v")
    where = sx.choice("where", ("top", "dict", "list", "field", "any", "element", "assign", "merge"))
    src = C(v) if sx.flag("inst") else C
    if where == "top":
        root = c = OmegaConf.structured(src)
    elif where == "dict":
        root = OmegaConf.create({"k": src, "o": 1}); c = root.k
    elif where == "list":
        root = OmegaConf.create([src, 1]); c = root[0]
    elif where == "assign":
        root = OmegaConf.create({"k": 1, "o": 1}); root.k = src; c = root.k
    elif where == "merge":
        root = OmegaConf.merge({"o": 1}, {"k": src}); c = root.k
    else:
        root = OmegaConf.structured(Holder); c = {"field": lambda: root.a, "any": lambda: root.c, "element": lambda: root.l[0]}[where]()
    before = snap(c)
    for op in (lambda: setattr(c, "i", 2), lambda: c.l.append(2), lambda: c.d.__setitem__("z", 2), lambda: setattr(c.n, "i", 3), lambda: c.l.__setitem__(0, 9), lambda: c.merge_with({"i": 4}), lambda: OmegaConf.update(c, "n.i", 4)):
        r = sx.attempt(op)
        sx.prove(not r.ok and isinstance(r.exc, ReadonlyConfigError), "changing a config of a frozen class raises")
    sx.prove(OmegaConf.is_readonly(c) is True and sx.eq(snap(c), before), "and leaves it as it was")
    if root is not c:
        r = sx.attempt(lambda: root.b.__setattr__("i", 5) if where in ("field", "any", "element") else root.__setitem__(1 if where == "list" else "o", 5))
        sx.prove(r.ok, "what is around it can be changed")
    o = sx.attempt(lambda: OmegaConf.to_object(c))
    T = F if where in ("field", "element") else FA if where == "any" else C
    i = v if src is not C and where not in ("field", "any", "element") else 1
    sx.prove(o.ok and type(o.value) is T and sx.eq(o.value.i, i) and type(o.value.n) is In and o.value.l == [1], "to_object gives an instance of the frozen class")


@dataclass
class Slots:
    o: Optional[F] = None
    m: F = MISSING
    x: F = "${f}"
    f: F = field(default_factory=F)
    ao: Optional[FA] = None
    b: In = field(default_factory=In)


def frozen_slot(sx):
    """A field typed with a frozen class is read-only whatever it holds, before and after it gets an instance."""
    k = sx.choice("field", ("o", "m", "x", "f", "ao"))
    C = FA if k == "ao" else F
    v = sx.int("v")
    how = sx.choice("how", ("none", "assign", "merge", "merge_with", "create"))
    c = OmegaConf.structured(Slots(**{k: C(v)}) if how == "create" else Slots)
    if how == "assign":
        c[k] = C(v)
    elif how in ("merge", "merge_with"):
        sx.assume(k != "x")
        before = snap(c)
        r = sx.attempt(lambda: {"merge": lambda: OmegaConf.merge(c, {k: C(v)}), "merge_with": lambda: c.merge_with({k: C(v)})}[how]())
        sx.prove(not r.ok and isinstance(r.exc, ReadonlyConfigError) and sx.eq(snap(c), before), "merging into a field of a frozen class raises and changes nothing")
        sx.stop()
    sub = c._get_node(k)
    sx.prove(OmegaConf.is_readonly(sub) is True, "a field of a frozen class is read-only")
    sx.prove(OmegaConf.is_readonly(c) is not True and OmegaConf.is_readonly(c.b) is not True, "what is around the field is not")
    if how != "none" or k == "f":
        want = v if how != "none" else 1
        before = snap(sub)
        for op in (lambda: setattr(c[k], "i", 2), lambda: c[k].l.append(2), lambda: c[k].d.__setitem__("z", 2), lambda: setattr(c[k].n, "i", 3), lambda: OmegaConf.update(c, k + ".i", 4)):
            r = sx.attempt(op)
            sx.prove(not r.ok and isinstance(r.exc, ReadonlyConfigError), "changing the frozen field's instance raises")
        sx.prove(sx.eq(snap(sub), before) and sx.eq(c[k].i, want), "and leaves it as it was")
        o = sx.attempt(lambda: OmegaConf.to_object(c[k]))
        sx.prove(o.ok and type(o.value) is C and sx.eq(o.value.i, want), "it converts to the frozen class")
    r = sx.attempt(lambda: setattr(c.b, "i", 5))
    sx.prove(r.ok, "the other fields can be changed")


@dataclass
class Hold:
    a: Any = None
    i: int = 0
    oi: Optional[int] = None
    u: Union[int, str] = 0
    li: List[int] = field(default_factory=list)
    di: Dict[str, int] = field(default_factory=dict)
    n: In = field(default_factory=In)
    lin: List[In] = field(default_factory=list)
    ll: List[List[int]] = field(default_factory=list)


@attr.s(auto_attribs=True)
class AHold:
    a: Any = None
    i: int = 0
    oi: Optional[int] = None
    u: Union[int, str] = 0
    li: List[int] = attr.Factory(list)
    di: Dict[str, int] = attr.Factory(dict)
    n: In = attr.Factory(In)
    lin: List[In] = attr.Factory(list)
    ll: List[List[int]] = attr.Factory(list)


@dataclass
class Other:
    u: Union[int, str] = 4
    n: In = field(default_factory=In)
    ln: List[In] = field(default_factory=lambda: [In(3)])


HELD = {
    "dict": ("a", lambda o: o.d), "sub": ("a", lambda o: o.d.s), "list": ("a", lambda o: o.l), "int": ("a", lambda o: o._get_node("v")), "element": ("a", lambda o: o.l._get_node(0)),
    "union": ("a", lambda o: o.t._get_node("u")), "structured": ("a", lambda o: o.t), "inner": ("a", lambda o: o.t.n), "inter": ("a", lambda o: o._get_node("x")), "innode": ("a", lambda o: [o.d, o._get_node("v")]), "indict": ("a", lambda o: {"k": o.l}),
    "i": ("i", lambda o: o._get_node("v")), "oi": ("oi", lambda o: o._get_node("v")), "u": ("u", lambda o: o.t._get_node("u")), "li": ("li", lambda o: o.l), "di": ("di", lambda o: o.d.s), "n": ("n", lambda o: o.t.n), "lin": ("lin", lambda o: o.t.ln), "lin1": ("lin", lambda o: [o.t.n]),
    "linode": ("li", lambda o: [o._get_node("v")]), "dinode": ("di", lambda o: {"k": o._get_node("v")}), "ll": ("ll", lambda o: [o.l, o.l]), "root": ("a", lambda o: o),
}


def held(sx):
    """An instance whose fields hold parts of another config: they are copied, the other config stays as it was."""
    C = sx.choice("C", (Hold, AHold))
    what = sx.choice("what", tuple(HELD))
    v = sx.int("v")
    o = OmegaConf.create({"v": v, "d": {"b": 1, "s": {"z": v}}, "l": [v, 2], "t": Other, "x": "${v}"})
    f, get = HELD[what]
    part = get(o)
    before = snap(o)
    inst = C(**{f: part})
    where = sx.choice("where", ("structured", "create", "element", "assign", "merge"))
    r = sx.attempt(lambda: {
        "structured": lambda: OmegaConf.structured(inst), "create": lambda: OmegaConf.create({"r": inst}), "element": lambda: OmegaConf.create([0, inst]),
        "assign": lambda: assign(OmegaConf.create({"r": 1}), inst), "merge": lambda: OmegaConf.merge({"r": None}, {"r": inst}),
    }[where]())
    sx.observe("r", r.kind)
    sx.prove(sx.eq(snap(o), before) and keys_ok(o), "the config the value comes from stays as it was")
    sx.prove(r.ok, "a field can hold a part of another config")
    if not r.ok:
        sx.stop()
    c = r.value
    h = c if where == "structured" else c[1] if where == "element" else c.r
    sx.prove(keys_ok(c), "and the new config holds a copy of it")
    if what != "inter":
        want = plain(part) if isinstance(part, (DictConfig, ListConfig)) else [plain(x) if isinstance(x, (DictConfig, ListConfig)) else v for x in part] if isinstance(part, list) else {k: plain(x) if isinstance(x, (DictConfig, ListConfig)) else v for k, x in part.items()} if isinstance(part, dict) else part._value()
        got = h._get_node(f)
        sx.prove(sx.eq(plain(got) if isinstance(got, (DictConfig, ListConfig)) else got._value(), want), "with its value")
    mid = snap(c)
    o.v = 77
    o.l[0] = 78
    o.l.append(1)
    o.d.s.z = 79
    o.t.n.i = 80
    o.t.u = "w"
    o.t.ln.append(In(5))
    sx.prove(sx.eq(snap(c), mid), "that does not change with the other config")


def assign(c, x):
    c.r = x
    return c


ALLW = ("structured", "create", "merge", "dict", "list", "assign", "copy")
HARNESSES = [
    ("roundtrip", roundtrip, {"quick": {"where": ("structured", "dict", "assign")}, "thorough": {"where": ALLW}}, ["to_object gives back the fields with resolved values", "a field has its declared type"]),
    ("overrides", overrides, {"quick": {"how": ("item", "merge")}, "thorough": {"how": ("item", "merge", "merge_with", "update")}}, ["overrides appear in the instance"]),
    ("deep", deep, {"quick": {}, "thorough": {}}, ["deep changes appear in the instance"]),
    ("missing", missing, {"quick": {}, "thorough": {}}, ["a missing value raises, no instance is produced"]),
    ("required", required, {"quick": {}, "thorough": {}}, ["once set, an instance is produced"]),
    ("held", held, {"quick": {}, "thorough": {}}, ["the config the value comes from stays as it was", "with its value"]),
    ("frozen", frozen, {"quick": {}, "thorough": {}}, ["changing a config of a frozen class raises"]),
    ("frozen_slot", frozen_slot, {"quick": {}, "thorough": {}}, ["a field of a frozen class is read-only", "changing the frozen field's instance raises"]),
]
BOUNDS = ("a dataclass and an attrs class with 39 fields of all supported kinds (primitives, optionals, unions, Any holding instances and lists, typed lists and dicts also of structured configs, nested, optional and interpolated fields, init=False (int, optional, Any, nested) and ignored fields, classes without fields), as class and as instance with one field set to a symbolic value of its type, "
          "at 3 (7) places; overrides in 2 (4) ways and 17 deeper changes; missing values at 47 places; frozen classes at 8 places and as the type of 5 fields (None, missing, interpolated, holding one) that get an instance in 2 ways, or refuse it in 2; instances holding 23 kinds of parts of another config at 5 places. Tuples (which become lists), deprecated Dict subclasses and __post_init__ effects are outside")
