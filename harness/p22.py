"""Equality is an equivalence and agrees with contents and hash."""
import copy
from dataclasses import dataclass, field
from enum import Enum
from pathlib import Path
from typing import Any, Dict, List, Optional, Union

from omegaconf import DictConfig, ListConfig, OmegaConf

from .common import plain, snap
from .p12 import Err, I, at, build, follow


class Color(Enum):
    RED = 1
    BLUE = 2


class Tok:
    """Content that has no value: missing, or an unresolvable interpolation (identified by its text)."""
    def __init__(self, text):
        self.text = text


class Inter:
    def __init__(self, text, value):
        self.text, self.value = text, value


MISS = Tok("???")


def content(m, pos, depth=0):
    """Resolved content of the model at a position."""
    x = at(m, pos)
    if isinstance(x, I):
        try:
            t = follow(m, pos, x)
        except Err:
            return Inter(x.text(), Tok(x.text()))
        return Inter(x.text(), content(m, t, depth + 1))
    if isinstance(x, dict):
        return {k: content(m, pos + (k,), depth + 1) for k in x}
    if isinstance(x, (list, tuple)):
        return [content(m, pos + (i,), depth + 1) for i in range(len(x))]
    return MISS if isinstance(x, str) and x == "???" else x


def ceq(sx, a, b):
    """Reference equality of resolved contents; when one of two interpolations cannot be resolved, their texts are compared."""
    if isinstance(a, Inter) and isinstance(b, Inter) and (isinstance(a.value, Tok) or isinstance(b.value, Tok)):
        return a.text == b.text
    a, b = (x.value if isinstance(x, Inter) else x for x in (a, b))
    if isinstance(a, Tok) or isinstance(b, Tok):
        return isinstance(a, Tok) and isinstance(b, Tok) and a.text == b.text
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and len(a) == len(b) and all(k in b for k in a) and sx.And(*[ceq(sx, a[k], b[k]) for k in a])
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and sx.And(*[ceq(sx, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    return same_val(a, b)


def same_val(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True  # nan is equal to nan, as a config is to itself
    return a == b


def leaf(sx, name, kinds):
    k = sx.choice(name, kinds)
    return {"int": lambda: sx.int(name + "i"), "bool": lambda: sx.bool(name + "b"), "str": lambda: sx.str(name + "s", 1, 2, "ab"), "none": lambda: None, "missing": lambda: "???",
            "float": lambda: 1.0, "nan": lambda: float("nan"), "zero": lambda: 0.0, "one": lambda: 1, "bytes": lambda: b"a", "enum": lambda: Color.RED, "emptyd": lambda: {}, "emptyl": lambda: [], "dict": lambda: {"x": sx.int(name + "i")}, "dict2": lambda: {"x": 1, "y": 2}, "list": lambda: [sx.int(name + "i")],
            "listm": lambda: ["???"], "listn": lambda: [None], "t": lambda: I(0, ("t",)), "d": lambda: I(0, ("d",)), "l": lambda: I(0, ("l",)), "n": lambda: I(0, ("n",)), "m": lambda: I(0, ("m",)), "nope": lambda: I(0, ("nope",)), "nope2": lambda: I(0, ("nope2",)),
            "cyc": lambda: I(0, ("c1",)), "deep": lambda: {"x": [I(0, ("t",))]}, "deepn": lambda: {"x": [I(0, ("nope",))]}, "o1": lambda: I(0, ("o1",)), "dup": lambda: {"y": 2, "x": 1}}[k]()


def env(sx, name):
    t = sx.int(name + "t")
    return {**({"o1": 1} if name == "L" else {}), "t": t, "d": {"x": t}, "l": [t], "n": None, "m": "???", "c1": I(0, ("c2",)), "c2": I(0, ("c1",))}


def wrap(sx, side, v, shape):
    """The configs to compare: full model, position of the part compared."""
    m = env(sx, side)
    m["s"] = {"dict": lambda: {"a": v}, "list": lambda: [v], "nest": lambda: {"k": [{"a": v}, 3]}, "two": lambda: {"b": 5, "a": v}}[shape]()
    return m


def judge(sx, m1, m2):
    c1, c2 = OmegaConf.create(build(m1)), OmegaConf.create(build(m2))
    if sx.p.get("typed") == "any":
        c1 = OmegaConf.create({k: v for k, v in c1.items_ex(resolve=False)})
    s1, s2 = snap(c1), snap(c2)
    want = ceq(sx, content(m1, ("s",)), content(m2, ("s",)))
    r = sx.attempt(lambda: c1.s == c2.s)
    sx.observe("r", r.kind)
    sx.prove(r.ok, "comparing never raises")
    sx.prove(sx.eq(bool(r.value), want), "equal exactly when the resolved contents are equal")
    b = sx.attempt(lambda: c2.s == c1.s)
    sx.prove(b.ok and bool(b.value) == bool(r.value), "symmetric")
    n = sx.attempt(lambda: c1.s != c2.s)
    sx.prove(n.ok and bool(n.value) != bool(r.value), "inequality is the negation")
    for c in (c1, c2):
        e = sx.attempt(lambda: c.s == c.s)
        sx.prove(e.ok and e.value is True, "reflexive")
        d = sx.attempt(lambda: copy.deepcopy(c.s) == c.s)
        sx.prove(d.ok and d.value is True, "equal to its copy")
    sx.prove(sx.eq(snap(c1), s1) and sx.eq(snap(c2), s2), "comparing changes nothing")
    return r.value


def pairs(sx):
    shape = sx.choice("shape", sx.p["shapes"])
    judge(sx, wrap(sx, "L", leaf(sx, "a", sx.p["kinds"]), shape), wrap(sx, "R", leaf(sx, "b", sx.p["kinds"]), shape))


def shapes(sx):
    """Different keys, orders, lengths and kinds of containers."""
    def one(side):
        m = env(sx, side)
        k = sx.choice(side, ("ab", "ba", "a", "ac", "abm", "l1", "l2", "l0", "d0", "int", "boolkey", "enum", "nested", "lnest"))
        v, w = sx.int(side + "v"), sx.int(side + "w", 0, 1)
        m["s"] = {"ab": {"a": v, "b": w}, "ba": {"b": w, "a": v}, "a": {"a": v}, "ac": {"a": v, "c": w}, "abm": {"a": v, "b": "???"}, "l1": [v], "l2": [v, w], "l0": [], "d0": {}, "int": {1: v, "b": w}, "boolkey": {True: v, "b": w},
                  "enum": {Color.RED: v}, "nested": {"a": {"b": {"c": v}}, "b": [[w]]}, "lnest": [[v], {"x": w}]}[k]
        return m
    judge(sx, one("L"), one("R"))


@dataclass
class In:
    i: int = 1


@dataclass
class S:
    a: int = 1
    o: Optional[int] = None
    u: Union[int, str] = 3
    s: str = "q"
    n: In = field(default_factory=In)
    l: List[int] = field(default_factory=lambda: [1])
    d: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    m: int = "???"  # type: ignore
    f: float = 1.0
    e: Color = Color.RED


def structured(sx):
    """Typed nodes compare by content, with other configs, instances and plain data."""
    v, w = sx.int("v"), sx.int("w")
    f = sx.choice("f", ("a", "o", "u", "ni", "l", "d", "m", "none", "s", "lu"))
    inst = S(a=v, n=In(v), l=[v], d={"k": v})
    c1 = OmegaConf.structured(S(a=v, n=In(v), l=[v], d={"k": v}))
    if f in ("a", "o", "u", "m"):
        c1[f] = w
    elif f == "ni":
        c1.n.i = w
    elif f == "l":
        c1.l[0] = w
    elif f == "d":
        c1.d.k = w
    elif f == "lu":
        c1.u = "x"
    elif f == "s":
        c1.s = "r"
    c2 = OmegaConf.structured(inst)
    data = OmegaConf.to_container(c2)
    want = {"a": lambda: w == v, "o": lambda: False, "u": lambda: w == 3, "m": lambda: False, "ni": lambda: w == v, "l": lambda: w == v, "d": lambda: w == v, "lu": lambda: False, "s": lambda: False, "none": lambda: True}[f]()
    b1, b2 = snap(c1), snap(c2)
    for other, label in ((c2, "a structured config"), (data, "a plain dict"), (OmegaConf.create(data), "an untyped config"), (inst, "an instance")):
        r, q = sx.attempt(lambda: c1 == other), sx.attempt(lambda: c1 != other)
        sx.prove(r.ok and sx.eq(bool(r.value), want), "equal to " + label + " exactly when the contents are")
        sx.prove(q.ok and bool(q.value) != bool(r.value), "inequality is the negation")
        if label != "an instance":  # a dataclass compares with its own kind only
            t = sx.attempt(lambda: other == c1)
            sx.prove(t.ok and bool(t.value) == bool(r.value), "symmetric")
    sx.prove(sx.eq(snap(c1), b1) and sx.eq(snap(c2), b2), "comparing changes nothing")


def plains(sx):
    """Comparing with plain data is comparing with the config made from it."""
    shape = sx.choice("shape", ("dict", "list", "nest"))
    m1 = {"s": None}
    a, b = leaf(sx, "a", sx.p["kinds"]), leaf(sx, "b", sx.p["kinds"])
    put = {"dict": lambda v: {"a": v, "t": 1, "d": {"x": 1}}, "list": lambda v: [v, 1], "nest": lambda v: {"k": [{"a": v}, 3], "t": 1}}[shape]
    x, y = put(a), put(b)
    c, p = OmegaConf.create(build(x)), build(y)
    before = snap(c)
    r = sx.attempt(lambda: c == p)
    sx.prove(r.ok, "comparing never raises")
    sx.prove(bool(r.value) == bool(c == OmegaConf.create(p)), "as comparing with the config made from it")
    sx.prove(sx.eq(bool(r.value), ceq(sx, content(x, ()), content(y, ()))), "equal exactly when the resolved contents are equal")
    t = sx.attempt(lambda: p == c)
    sx.prove(t.ok and bool(t.value) == bool(r.value), "symmetric")
    n = sx.attempt(lambda: c != p)
    sx.prove(n.ok and bool(n.value) != bool(r.value), "inequality is the negation")
    if shape == "list":
        u = sx.attempt(lambda: c == tuple(p))
        sx.prove(u.ok and bool(u.value) == bool(r.value), "a tuple compares as a list")
    sx.prove(sx.eq(snap(c), before) and sx.eq(p, build(y)), "comparing changes nothing")


@dataclass
class V:
    i: Optional[int] = 1
    f: Optional[float] = 1.0
    b: Optional[bool] = True
    s: Optional[str] = "q"
    y: Optional[bytes] = b"q"
    p: Optional[Path] = Path("q")
    e: Optional[Color] = Color.RED
    u: Optional[Union[float, str, bool]] = 1.0
    v: Optional[Union[int, str, None]] = 1
    a: Any = 1
    lf: List[Optional[float]] = field(default_factory=lambda: [1.0])
    df: Dict[str, Optional[float]] = field(default_factory=lambda: {"k": 1.0})
    lu: List[Optional[Union[int, str]]] = field(default_factory=lambda: [1])
    n: Optional[In] = field(default_factory=In)


FLOATS = (0.0, 1.0, -0.0, float("nan"), float("inf"), None, "???")


def typed(sx):
    """Every type of field, falsy values, None and missing included."""
    f = sx.choice("f", tuple(V.__dataclass_fields__))
    def val(name):
        if f in ("i", "v"):
            k = sx.choice(name, ("int", "none", "missing") + (("str",) if f == "v" else ()))
            return {"int": lambda: sx.int(name + "i"), "none": lambda: None, "missing": lambda: "???", "str": lambda: sx.str(name + "s", 0, 1, "a1")}[k]()
        if f in ("f", "lf", "df"):
            return sx.choice(name, FLOATS)
        return sx.choice(name, {"b": (False, True, None, "???"), "s": ("", "q", "0", None, "???"), "y": (b"", b"q", None, "???"), "p": (Path("."), Path("q"), None, "???"), "e": (Color.RED, Color.BLUE, None, "???"), "u": (0.0, "", False, "0", float("nan"), None, "???"),
                                "a": (0, 0.0, False, "", None, b"", float("nan"), [], {}, "???"), "lu": (0, "", "0", None, "???"), "n": (In(0), In(1), None, "???")}[f])
    x, y = val("x"), val("y")
    put = {"lf": lambda z: [z], "df": lambda z: {"k": z}, "lu": lambda z: [5, z]}.get(f, lambda z: z)
    c1, c2 = OmegaConf.structured(V), OmegaConf.structured(V)
    c1[f], c2[f] = put(x), put(y)
    mx, my = (isinstance(z, str) and z == "???" for z in (x, y))
    want = mx and my if mx or my else x is None and y is None if x is None or y is None else same_val(x, y)
    data = OmegaConf.to_container(c2)
    for other, label in ((c2, "a structured config"), (data, "a plain dict"), (OmegaConf.create(data), "an untyped config")):
        r, t, q = sx.attempt(lambda: c1 == other), sx.attempt(lambda: other == c1), sx.attempt(lambda: c1 != other)
        sx.prove(r.ok and sx.eq(bool(r.value), want), "equal to " + label + " exactly when the contents are")
        sx.prove(t.ok and q.ok and bool(t.value) == bool(r.value) and bool(q.value) != bool(r.value), "symmetric")
    sx.prove(c1 == c1 and copy.deepcopy(c1) == c1, "reflexive")
    if f in ("lf", "df", "lu"):
        sx.prove(sx.eq(bool(c1[f] == c2[f]), want), "containers of typed values compare by content")


CONC = {"int": 1, "str": "a", "none": None, "missing": "???", "inter": "${b}", "bad": "${nope}", "dict": {"x": [1, {}]}, "list": [[], "${b}"], "float": 0.5, "path": "q"}


def special(sx):
    """None, missing and other kinds of things; hashes."""
    k, j = sx.choice("k", tuple(CONC)), sx.choice("j", tuple(CONC))
    mk = {"dict": lambda v: OmegaConf.create({"a": v, "b": 2}), "list": lambda v: OmegaConf.create([v, 2])}[sx.choice("shape", ("dict", "list"))]
    a, b, c = mk(CONC[k]), mk(CONC[k]), mk(CONC[j])
    sx.prove(hash(a) == hash(b) and hash(a) == hash(copy.deepcopy(a)) and hash(a) == hash(a), "equal configs built the same way have the same hash")
    sx.prove(a == b, "and are equal")
    if k == j:
        sx.prove(a == c and hash(a) == hash(c), "again")
    for other in (None, 1, "x", {}, [], (), Color.RED, object(), "???", DictConfig(None), ListConfig(None), DictConfig("???"), ListConfig("???")):
        r, t, n = sx.attempt(lambda: a == other), sx.attempt(lambda: other == a), sx.attempt(lambda: a != other)
        sx.prove(r.ok and r.value is False and t.ok and t.value is False and n.ok and n.value is True, "different kinds of things differ")
    nones, missing = [DictConfig(None), ListConfig(None)], [DictConfig("???"), ListConfig("???")]
    for x in nones:
        sx.prove(x == None and not (x != None) and x == x and not (x == "???") and not any(x == y or y == x for y in missing), "a None config equals None")  # noqa: E711
    for x in missing:
        sx.prove(x == "???" and not (x != "???") and x == x and not (x == None) and not (x == {}) and not (x == []), "a missing config equals the missing marker")  # noqa: E711
    for w in (nones, missing):
        sx.prove(DictConfig(w[0]._content) == w[0] and ListConfig(w[1]._content) == w[1], "and its like")


@dataclass
class T:
    l: List[int] = "${nope}"  # type: ignore
    d: Dict[str, int] = "${nope}"  # type: ignore
    n: In = "${nope}"  # type: ignore
    u: Union[int, str] = "${nope}"
    i: int = "${nope}"  # type: ignore
    x: Any = field(default_factory=lambda: {"i": 1})
    y: Any = field(default_factory=lambda: [1])
    z: Any = 1


def typed_inter(sx):
    """Typed fields holding interpolations."""
    f = sx.choice("f", ("l", "d", "n", "u", "i"))
    m1, m2 = sx.choice("t1", ("nope", "nope2", "x", "y", "z")), sx.choice("t2", ("nope", "nope2", "x", "y", "z", "data"))
    c1, c2 = OmegaConf.structured(T), OmegaConf.structured(T)
    c1[f] = "${%s}" % m1
    data = {"l": [1], "d": {"i": 1}, "n": {"i": 1}, "u": 1, "i": 1}[f]
    c2[f] = (In() if f == "n" else data) if m2 == "data" else "${%s}" % m2
    val = lambda t: {"x": {"i": 1}, "y": [1], "z": 1, "data": data}.get(t, Tok(t))
    scalar = lambda t: f == "i" and t in ("x", "y")  # does not fit: reading raises
    a, b = (val(t) if t == "data" else Inter(t, Tok(t) if scalar(t) else val(t)) for t in (m1, m2))
    r, t = sx.attempt(lambda: c1 == c2), sx.attempt(lambda: c2 == c1)
    sx.prove(r.ok and t.ok, "comparing never raises")
    sx.prove(r.value == ceq(sx, a, b), "equal exactly when the resolved contents are equal")
    sx.prove(t.value == r.value, "symmetric")


QK = ("int", "str", "none", "missing", "float", "emptyd", "dict", "list", "listm", "t", "d", "l", "n", "m", "nope", "nope2", "cyc", "deep", "deepn", "o1", "nan")
TK = QK + ("zero", "bool", "bytes", "enum", "emptyl", "dict2", "dup", "listn", "one")
EQ = ["equal exactly when the resolved contents are equal", "symmetric"]
HARNESSES = [
    ("pairs", pairs, {"quick": {"shapes": ("dict", "list"), "kinds": QK}, "thorough": {"shapes": ("dict", "list", "nest", "two"), "kinds": TK}}, EQ),
    ("shapes", shapes, {"quick": {}, "thorough": {}}, EQ),
    ("structured", structured, {"quick": {}, "thorough": {}}, ["equal to a plain dict exactly when the contents are"]),
    ("typed", typed, {"quick": {}, "thorough": {}}, ["equal to a plain dict exactly when the contents are", "symmetric"]),
    ("plains", plains, {"quick": {"kinds": ("int", "str", "none", "missing", "dict", "list", "t", "d", "nope", "nope2", "emptyl")}, "thorough": {"kinds": TK}}, EQ),
    ("typed_inter", typed_inter, {"quick": {}, "thorough": {}}, EQ),
    ("special", special, {"quick": {}, "thorough": {}}, ["equal configs built the same way have the same hash"]),
]
BOUNDS = ("all pairs of configs holding one of 21 (30) kinds of value (symbolic ints and strings; None, missing, containers, interpolations to every kind of target, unresolvable, cyclic) in a dict or list (nested); "
          "pairs of 14 shapes with symbolic values; structured configs against structured, untyped, plain and instance operands; typed fields of 14 types with all pairs of values (falsy ones, None, missing, nan included); typed fields holding interpolations; hashes of 10 kinds of contents; 13 other kinds of operands. "
          "Equality is compared with the equality of the resolved contents, two interpolations of which one cannot be resolved being equal when their texts are. nan equals nan; hashes are claimed for configs built the same way")
