"""The functions that inspect a config agree with what it holds."""
from dataclasses import dataclass, field
from enum import Enum
from pathlib import Path
from typing import Any, Dict, List, Optional, Union

from omegaconf import MISSING, DictConfig, ListConfig, OmegaConf
from omegaconf.errors import MissingMandatoryValue

from .common import snap


class Color(Enum):
    RED = 1


@dataclass
class In:
    x: int = 1


@dataclass
class S:
    i: Optional[int] = 1
    s: Optional[str] = "q"
    f: Optional[float] = 1.5
    b: Optional[bool] = True
    y: Optional[bytes] = b"y"
    p: Optional[Path] = Path("p")
    e: Optional[Color] = Color.RED
    u: Optional[Union[int, str]] = 1
    l: Optional[List[int]] = field(default_factory=lambda: [1])
    d: Optional[Dict[str, int]] = field(default_factory=lambda: {"k": 1})
    n: Optional[In] = field(default_factory=In)
    a: Any = 1


# kind -> (value, class it has)
KINDS = {"int": (None, int), "str": ("zz", str), "float": (2.5, float), "bool": (False, bool), "bytes": (b"b", bytes), "path": (Path("x"), type(Path("x"))), "enum": (Color.RED, Color), "none": (None, type(None)), "missing": ("???", None), "interp": ("${t}", None),
         "text": ("a ${t} b", None), "resolver": ("${oc.env:A}", None), "nope": ("${nope.x}", None), "relative": ("${.x}", None), "dict": ({"k": 5}, dict), "edict": ({}, dict), "list": ([5], list), "elist": ([], list), "struct": (In(3), In), "class": (In, In),
         "ndict": (None, None), "mdict": ("???", None), "idict": ("${d}", None)}
TYPED = {"i": ("int",), "s": ("str", "text"), "f": ("float",), "b": ("bool",), "y": ("bytes",), "p": ("path",), "e": ("enum",), "u": ("int", "str"), "l": ("list", "elist"), "d": ("dict", "edict"), "n": ("struct",), "a": tuple(k for k in KINDS if k[1:] not in ("dict",))}
ALL = ("none", "missing", "interp", "nope", "resolver")
KEYS = {"str": "key", "int": 3, "float": 1.5, "bool": True, "bytes": b"k", "enum": Color.RED, "dot": "a.b"}


def given(sx, kind, name):
    if kind == "int":
        v = sx.int(name)
        return v, v
    v = KINDS[kind][0]
    if kind == "ndict":
        return DictConfig(None), None
    if kind == "mdict":
        return DictConfig("???"), "???"
    if kind == "idict":
        return DictConfig("${d}"), "${d}"
    return v, v


def ask(sx, c, k, kind, label):
    """All questions about what c holds at k."""
    inter = kind in ("interp", "text", "resolver", "nope", "relative", "idict")
    miss = kind in ("missing", "mdict")
    before = snap(c)
    a = sx.attempt(lambda: OmegaConf.is_missing(c, k))
    sx.prove(a.ok and a.value is miss, "is_missing exactly for a missing value: " + label)
    a = sx.attempt(lambda: OmegaConf.is_interpolation(c, k))
    sx.prove(a.ok and a.value is inter, "is_interpolation exactly for an interpolation: " + label)
    if not miss and not inter:
        t = sx.attempt(lambda: OmegaConf.get_type(c, k))
        want = KINDS[kind][1]
        if kind == "none" and label in ("l", "d", "n"):
            want = type(None) if label == "l" else None
        if not (kind == "none" and label == "l"):
            sx.prove(t.ok and t.value is want, "get_type is the class of the value: " + label)
        v = c[k]
        cont = kind in ("dict", "edict", "list", "elist", "struct", "class")
        sx.prove(OmegaConf.is_config(v) is cont, "is_config exactly for containers: " + label)
        sx.prove(OmegaConf.is_dict(v) is (cont and "list" not in kind) and OmegaConf.is_list(v) is (cont and "list" in kind), "is_dict and is_list tell the kind: " + label)
        if not cont and kind not in ("ndict",):
            sx.prove(OmegaConf.get_type(v) is (None if v is None else type(v)), "get_type of a plain value is its class")
    sx.prove(sx.eq(snap(c), before), "asking changes nothing")


def untyped(sx):
    """Values of all kinds in plain dicts and lists, under keys of all kinds."""
    kind = sx.choice("kind", tuple(KINDS))
    g, _ = given(sx, kind, "v")
    where = sx.choice("where", tuple(KEYS) + ("list", "neg", "nested", "dlist"))
    how = sx.choice("how", ("create", "set", "replace"))
    other = {"create": None, "set": None, "replace": sx.choice("old", ("int", "missing", "interp", "dict", "none"))}[how]
    if where in ("list", "neg", "dlist"):
        key = -1 if where == "neg" else 1
        first = g if how == "create" else (KINDS[other][0] if other and other != "int" else 0)
        c = OmegaConf.create([0, first]) if where != "dlist" else OmegaConf.create({"l": [0, first], "t": 1}).l
    elif where == "nested":
        key = "key"
        c = OmegaConf.create({"a": {"b": {"key": g} if how == "create" else {"key": 0} if how == "replace" else {}}}).a.b
    else:
        key = KEYS[where]
        c = OmegaConf.create({key: g, "t": 1} if how == "create" else {"t": 1} if how == "set" else {key: KINDS[other][0] if other != "int" else 0, "t": 1})
    if how != "create":
        c[key] = g
    ask(sx, c, key, kind, "untyped")


def typed(sx):
    """Typed fields of every kind."""
    f = sx.choice("field", tuple(TYPED))
    kind = sx.choice("kind", TYPED[f] + tuple(k for k in ALL if k not in TYPED[f]))
    g, _ = given(sx, kind, "v")
    how = sx.choice("how", ("instance", "set", "merge"))
    if how == "instance":
        cfg = OmegaConf.structured(S(**{f: g}))
    else:
        cfg = OmegaConf.structured(S)
        if how == "set":
            cfg[f] = g
        elif kind in ("missing", "class"):
            sx.stop()
        else:
            cfg = OmegaConf.merge(cfg, {f: g})
    ask(sx, cfg, f, kind, f)
    sx.prove(OmegaConf.get_type(cfg) is S, "get_type of a structured config is its class")


def absent(sx):
    """Keys that are not there."""
    c = {"d": lambda: OmegaConf.create({"a": 1, 2: {"b": 1}}), "n": lambda: OmegaConf.create({"q": {"a": "???"}}).q, "s": lambda: OmegaConf.structured(S).d, "e": lambda: OmegaConf.create()}[sx.choice("cfg", ("d", "n", "s", "e"))]()
    k = sx.str("k", 1, sx.p["klen"], "ab.1")
    if k == "a" or k == "k":
        sx.stop()
    before = snap(c)
    sx.prove(OmegaConf.is_missing(c, k) is False, "what is absent is not missing")
    sx.prove(OmegaConf.is_interpolation(c, k) is False, "nor an interpolation")
    sx.prove(OmegaConf.get_type(c, k) is None, "and has no type")
    sx.prove(sx.eq(snap(c), before), "asking changes nothing")


def texts(sx):
    """Texts: which are missing, which are interpolations."""
    s = sx.str("s", 0, sx.p["len"], "?a$ {}\\")
    where = sx.choice("where", ("d", "l", "s", "a", "u"))
    r = sx.attempt(lambda: {"d": lambda: OmegaConf.create({"k": s}), "l": lambda: OmegaConf.create([s]), "s": lambda: OmegaConf.structured(S(s=s)), "a": lambda: OmegaConf.structured(S(a=s)), "u": lambda: OmegaConf.structured(S(u=s))}[where]())
    if not r.ok:
        sx.prove("${" in s, "only texts with ${ can be rejected")
        return
    c, k = r.value, {"d": "k", "l": 0, "s": "s", "a": "a", "u": "u"}[where]
    sx.prove(bool(OmegaConf.is_missing(c, k)) == bool(s == "???"), "is_missing exactly for ???")
    sx.prove(bool(OmegaConf.is_interpolation(c, k)) == bool("${" in s), "is_interpolation exactly for texts with ${")
    if not (s == "???") and "${" not in s:
        sx.prove(sx.eq(c[k], s) and OmegaConf.get_type(c, k) is str, "other texts read as they are")


HARNESSES = [
    ("untyped", untyped, {"quick": {}, "thorough": {}}, ["get_type is the class of the value: untyped"]),
    ("typed", typed, {"quick": {}, "thorough": {}}, ["get_type of a structured config is its class"]),
    ("absent", absent, {"quick": {"klen": 2}, "thorough": {"klen": 4}}, ["and has no type"]),
    ("texts", texts, {"quick": {"len": 4}, "thorough": {"len": 6}}, ["is_missing exactly for ???"]),
]
BOUNDS = ("23 kinds of values in plain dicts (7 kinds of keys) and lists, given at creation, set or replacing another; 12 kinds of typed fields, given by instance, set or merged; absent keys of up to 2 (4) free characters; "
          "texts of up to 4 (6) free characters over ?, a, $, blank, braces, backslash in 5 kinds of fields. is_interpolation of a text with an escaped interpolation is True (it needs processing), as the code has it")
