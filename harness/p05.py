"""Typed scalar fields hold converted values of their type or reject the value."""
from dataclasses import dataclass, field
from decimal import Decimal
from enum import Enum, IntEnum
from pathlib import Path, PurePath, PurePosixPath
from typing import Any, Dict, List, Optional

from omegaconf import MISSING, DictConfig, OmegaConf
from omegaconf.errors import ValidationError

from .common import snap


class Color(Enum):
    RED = 1
    BLUE = 2


class Size(Enum):
    RED = 10
    S = "s"


class Num(IntEnum):
    A = 1
    Z = 0


class Word(str, Enum):
    RED = "RED"
    yes = "yes"


class Text(str):
    pass


class Indexed:
    def __index__(self):
        return 1

    def __int__(self):
        return 1

    def __float__(self):
        return 1.0

    def __fspath__(self):
        return "x"

    def __bytes__(self):
        return b"x"


@dataclass
class S:
    i: int = 1
    f: float = 1.5
    b: bool = True
    s: str = "q"
    y: bytes = b"q"
    p: Path = Path("q")
    c: Color = Color.BLUE
    oi: Optional[int] = 1
    of: Optional[float] = 1.5
    ob: Optional[bool] = True
    os: Optional[str] = "q"
    oy: Optional[bytes] = b"q"
    op: Optional[Path] = Path("q")
    oc: Optional[Color] = Color.BLUE
    a: Any = 0


@dataclass
class R(S):
    x: Any = 0
    ci: int = "${x}"  # type: ignore


TYPES = {"i": int, "f": float, "b": bool, "s": str, "y": bytes, "p": Path, "c": Color}
BAD = "bad"


def reference(sx, t, v):
    """Documented conversion of v for type t: ("ok", value) or ("bad", None).  v is not None, missing or an interpolation."""
    if t is int:
        if type(v) not in (int, str):
            return BAD, None
        r = sx.attempt(lambda: int(v))
        return ("ok", r.value) if r.ok else (BAD, None)
    if t is float:
        if type(v) not in (int, float, str):
            return BAD, None
        r = sx.attempt(lambda: float(v))
        return ("ok", r.value) if r.ok else (BAD, None)
    if t is bool:
        if isinstance(v, bool):
            return "ok", v
        if isinstance(v, int):
            return "ok", v != 0
        if not isinstance(v, str):
            return BAD, None
        r = sx.attempt(lambda: int(v))
        if r.ok:
            return "ok", r.value != 0
        w = v.lower()
        if w in ("yes", "y", "on", "true"):
            return "ok", True
        if w in ("no", "n", "off", "false"):
            return "ok", False
        return BAD, None
    if t is str:
        if isinstance(v, (bytes, list, dict, tuple)):
            return BAD, None
        if isinstance(v, str) and not isinstance(v, (Enum, Text)):
            return "ok", v
        if isinstance(v, int) and not isinstance(v, (bool, Enum)):
            return "str_of_int", v
        return "ok", str(v)
    if t is bytes:
        return ("ok", v) if isinstance(v, bytes) else (BAD, None)
    if t is Path:
        return ("ok", Path(v)) if isinstance(v, (str, Path)) else (BAD, None)
    if isinstance(v, t):
        return "ok", v
    if isinstance(v, str):
        if v.startswith("Color."):
            v = v[6:]
        for m in t:
            if v == m.name:
                return "ok", m
        return BAD, None
    if isinstance(v, int) and not isinstance(v, bool):
        for m in t:
            if v == m.value:
                return "ok", m
        return BAD, None
    return BAD, None


NUMS = "012_.-+eE "
WORDS = "yYeEsSnNoOtTrRuUfFaAlL01 "


UNSUPPORTED = (PurePosixPath, bytearray, Text, Decimal, frozenset, Indexed)


def value(sx, name, kinds, t):
    k = sx.choice(name + ".kind", kinds)
    if k == "int":
        return sx.int(name, -99, 999) if t is str else sx.int(name, -(10 ** 30), 10 ** 30)
    if k == "bool":
        return sx.bool(name)
    if k == "float":
        return sx.choice(name, (0.0, 1.0, -2.5, 1e300, float("inf")))
    if k == "num":
        return sx.str(name, 0, sx.p["nlen"], NUMS)
    if k == "word":
        return sx.str(name, 0, sx.p["wlen"], WORDS)
    if k == "enumname":
        return sx.choice(name + ".pre", ("", "Color.", "Size.", "Color")) + sx.str(name, 0, 4, "REDBLUS")
    return sx.choice(name, (10 ** 400, b"x", Path("z"), Color.RED, Size.RED, Size.S, [1], {"a": 1}, (1,), object, 1j,
                            PurePosixPath("u/v"), bytearray(b"x"), Num.A, Num.Z, Word.RED, Word.yes, Text("12"), Text("RED"), Decimal("1.5"), frozenset([1]),
                            Indexed()))


KINDS = {"i": ("int", "bool", "float", "num", "other"), "f": ("int", "bool", "float", "num", "other"),
         "b": ("int", "bool", "float", "num", "word", "other"), "s": ("int", "bool", "num", "other"),
         "y": ("int", "bool", "num", "other"), "p": ("int", "bool", "other"), "c": ("int", "bool", "enumname", "float", "other")}


def is_type(v, t):
    return type(v) is t if t is not Path else isinstance(v, Path)


def judge(sx, t, v, r, got, tag):
    """r: outcome of the assignment; got(): reads the field back."""
    if v is object:
        return  # classes: structured config or UnsupportedValueType, not scalar conversion
    kind, exp = reference(sx, t, v)
    if kind == BAD:
        sx.prove(r.isa(ValidationError), "a value that does not convert is rejected with ValidationError: " + tag)
        return
    sx.prove(r.ok, "a convertible value is accepted: " + tag)
    g = got()
    sx.prove(is_type(g, t), "the stored value has the declared type: " + tag)
    if kind == "str_of_int":
        sx.prove(int(g) == exp, "the stored value is the documented conversion: " + tag)
    elif t is float:
        sx.prove(sx.Or(g == exp, sx.And(g != g, exp != exp)), "the stored value is the documented conversion: " + tag)
    else:
        sx.prove(g == exp, "the stored value is the documented conversion: " + tag)


HOWS = ("setitem", "setattr", "merge", "update", "ctor", "list", "dict", "append", "merge_cfg")


def assign(sx):
    f = sx.choice("field", sorted(TYPES))
    t = TYPES[f]
    how = sx.choice("how", sx.p["hows"])
    name = f if sx.flag("req") else "o" + f
    v = value(sx, "v", KINDS[f], t)
    cfg = OmegaConf.structured(S)
    cont = isinstance(v, (list, dict, tuple))
    lcfg = None
    if how in ("list", "append"):
        lcfg = OmegaConf.create({"l": []})
        lcfg.l = typed_list(t)
        before = snap(lcfg)
    elif how == "dict":
        lcfg = OmegaConf.create({"d": {}})
        lcfg.d = DictConfig({}, element_type=t, key_type=str)
        before = snap(lcfg)
    else:
        before = snap(cfg)
    if how in ("merge", "merge_cfg", "update", "ctor") and (v is object or v == 1j):
        sx.stop()
    if how in ("merge", "merge_cfg") and type(v) in UNSUPPORTED:
        sx.stop()  # no config can be made of it

    def run():
        if how == "setitem":
            cfg[name] = v
        elif how == "setattr":
            setattr(cfg, name, v)
        elif how == "merge":
            cfg.merge_with({name: v})
        elif how == "merge_cfg":
            cfg.merge_with(OmegaConf.create({name: v}))
        elif how == "update":
            OmegaConf.update(cfg, name, v)
        elif how == "ctor":
            return OmegaConf.structured(S(**{name: v}))
        elif how == "list":
            lcfg.l[0] = v
        elif how == "append":
            lcfg.l.append(v)
        else:
            lcfg.d["k"] = v
    r = sx.attempt(run)
    sx.observe("r", (f, how, r.kind))

    def got():
        if how == "ctor":
            return r.value[name]
        if how == "list":
            return lcfg.l[0]
        if how == "append":
            return lcfg.l[1]
        if how == "dict":
            return lcfg.d["k"]
        return cfg[name]

    if cont:
        sx.prove(not r.ok, "a container is never stored in a scalar field: " + how)
    else:
        judge(sx, t, v, r, got, how)
    if not r.ok and how not in ("ctor",):
        sx.prove(sx.eq(snap(lcfg if lcfg is not None else cfg), before), "a rejected value changes nothing: " + how)


def typed_list(t):
    from omegaconf import ListConfig
    first = {int: 1, float: 1.5, bool: True, str: "q", bytes: b"q", Path: Path("q"), Color: Color.BLUE}[t]
    return ListConfig([first], element_type=t)


def specials(sx):
    """None, missing and interpolations."""
    f = sx.choice("field", sorted(TYPES))
    opt = sx.flag("opt")
    name = "o" + f if opt else f
    how = sx.choice("how", ("setitem", "setattr", "merge", "update", "ctor"))
    v = sx.choice("v", (None, "???", "${a}", "${oc.env:ZZZ}", "x${a}y", "${a.b", "${}"))
    cfg = OmegaConf.structured(S)
    before = snap(cfg)

    def run():
        if how == "setitem":
            cfg[name] = v
        elif how == "setattr":
            setattr(cfg, name, v)
        elif how == "merge":
            cfg.merge_with({name: v})
        elif how == "update":
            OmegaConf.update(cfg, name, v)
        else:
            return OmegaConf.structured(S(**{name: v}))
    r = sx.attempt(run)
    sx.observe("r", (name, how, r.kind))
    c = r.value if how == "ctor" and r.ok else cfg
    if v is None:
        sx.prove(r.ok == opt, "None is accepted exactly by optional fields: " + how)
        if opt:
            sx.prove(c[name] is None, "None is stored")
        else:
            sx.prove(r.isa(ValidationError), "None for a required field is a ValidationError")
    elif v in ("${a.b", "${}"):
        sx.prove(not r.ok, "malformed interpolations are rejected: " + how)
    elif how == "merge" and v == "???":
        sx.prove(r.ok and sx.eq(snap(cfg), before), "merging a missing value keeps the field")
    else:
        sx.prove(r.ok and c._get_node(name)._value() == v, "missing markers and interpolations are stored as such: " + how)
    if not r.ok and how != "ctor":
        sx.prove(sx.eq(snap(cfg), before), "rejected special values change nothing")


def through(sx):
    """Reading a typed field whose value is an interpolation converts and validates like assignment."""
    f = sx.choice("field", sorted(TYPES))
    t = TYPES[f]
    opt = sx.flag("opt")
    name = "o" + f if opt else f
    v = None if sx.flag("none") else value(sx, "v", KINDS[f], t)
    if v is object or isinstance(v, (list, dict, tuple)) or (not isinstance(v, (str, int)) and v == 1j):
        sx.stop()
    via = sx.choice("via", ("node", "resolver", "chain"))
    if via != "resolver" and type(v) in UNSUPPORTED:
        sx.stop()
    cfg = OmegaConf.structured(S)
    if via == "resolver":
        OmegaConf.register_new_resolver("vv", lambda: v)
        cfg[name] = "${vv:}"
    elif via == "chain":
        cfg.a = v
        root = OmegaConf.create({"k": "${s.a}"})
        root.s = cfg
        root.s[name] = "${k}"
        cfg = root.s
    else:
        cfg.a = v
        cfg[name] = "${a}"
    before = snap(cfg)
    how = sx.choice("read", ("item", "attr", "get", "select", "container"))

    def read():
        if how == "item":
            return cfg[name]
        if how == "attr":
            return getattr(cfg, name)
        if how == "get":
            return cfg.get(name)
        if how == "select":
            return OmegaConf.select(cfg, name)
        return OmegaConf.to_container(cfg, resolve=True)[name]
    r = sx.attempt(read)
    sx.observe("r", (f, via, how, r.kind))
    if v is None:
        sx.prove(r.ok == opt, "None through an interpolation is accepted exactly by optional fields")
        if not opt:
            sx.prove(r.isa(ValidationError), "a None result for a required field is a ValidationError")
    else:
        judge(sx, t, v, r, lambda: r.value, "interpolation")
    sx.prove(sx.eq(snap(cfg), before), "reading changes nothing")


HARNESSES = [
    ("assign", assign, {"quick": {"nlen": 2, "wlen": 3, "hows": ("setitem", "merge", "append", "dict", "ctor")},
                        "thorough": {"nlen": 3, "wlen": 4, "hows": HOWS}},
     ["the stored value is the documented conversion: setitem", "a value that does not convert is rejected with ValidationError: setitem"]),
    ("words", assign, {"quick": {"nlen": 4, "wlen": 5, "hows": ("setattr",)}, "thorough": {"nlen": 5, "wlen": 6, "hows": ("setattr",)}}, []),
    ("specials", specials, {"quick": {}, "thorough": {}}, ["None is accepted exactly by optional fields: setitem"]),
    ("through", through, {"quick": {"nlen": 2, "wlen": 3}, "thorough": {"nlen": 3, "wlen": 4}},
     ["the stored value is the documented conversion: interpolation"]),
]
BOUNDS = ("every scalar type, required and optional; values: symbolic ints within 10^30 (-99..999 for str fields), bools, strings up to nlen over digits/sign/dot/"
          "exponent/underscore/blank, up to wlen over the letters of the boolean words, enum names with and without class prefix, five floats and "
          "twenty values of other types (subclasses and look-alikes of the declared types included)")
