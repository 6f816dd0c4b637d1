"""Missing values behave as absent everywhere."""
from dataclasses import dataclass, field
from enum import Enum
from typing import Any, Dict, List, Optional, Union

from omegaconf import DictConfig, ListConfig, OmegaConf, StringNode
from omegaconf.errors import InterpolationToMissingValueError, MissingMandatoryValue

from .common import keys_ok, plain, snap
from .p12 import TPATHS, Err, I, N, T, at, build, follow
from .p12 import walk as down


class Color(Enum):
    RED = 1


@dataclass
class In:
    i: int = 1
    m: int = "???"  # type: ignore


@dataclass
class S:
    a: Any = "???"
    i: int = "???"  # type: ignore
    oi: Optional[int] = "???"  # type: ignore
    s: str = "???"
    e: Color = "???"  # type: ignore
    u: Union[int, str] = "???"
    d: Dict[str, int] = "???"  # type: ignore
    l: List[int] = "???"  # type: ignore
    od: Optional[Dict[str, int]] = "???"  # type: ignore
    n: In = "???"  # type: ignore
    x: int = "${.i}"  # type: ignore


TYPED = tuple(S.__dataclass_fields__)
VALUES = {"a": 1, "i": 2, "oi": None, "s": "t", "e": Color.RED, "u": "w", "d": {"k": 1}, "l": [1], "od": None, "n": {"i": 5, "m": 6}, "x": 7}
KEYS = ("k", 1, 2.5, True, b"y", Color.RED)


def missing(x):
    """Reference: is this content the missing marker?"""
    return isinstance(x, str) and x == "???"


def reads(sx, c, k, want, miss, inter_missing, value, sib=False):
    """Every way to read key k of container c, which holds a missing value, an interpolation to one, or a readable value."""
    lst = isinstance(c, ListConfig)
    before = snap(c._get_root())
    D = "dflt"
    same = lambda r, v: r.ok and (sx.eq(plain(r.value), v) if not isinstance(v, type) else False)

    def check(label, r, on_missing, exc=MissingMandatoryValue, inter_ok=None):
        """on_missing: 'raise' or the value expected when missing."""
        sx.observe(label, r.kind)
        if miss:
            if on_missing == "raise":
                sx.prove(not r.ok and isinstance(r.exc, MissingMandatoryValue), label + " of a missing value raises MissingMandatoryValue")
            else:
                sx.prove(r.ok and r.value is on_missing or same(r, on_missing), label + " of a missing value is as if it were absent")
        elif inter_missing:
            if inter_ok is None:
                sx.prove(not r.ok and isinstance(r.exc, InterpolationToMissingValueError), label + " of an interpolation to a missing value raises")
            else:
                sx.prove(same(r, inter_ok), label + " of an interpolation to a missing value")
        else:
            sx.prove(same(r, value), label + " of a present value gives it")

    check("[]", sx.attempt(lambda: c[k]), "raise")
    if not lst and isinstance(k, str):
        check("attribute", sx.attempt(lambda: getattr(c, k)), "raise")
    check("get with a default", sx.attempt(lambda: c.get(k, D)), D)
    check("get", sx.attempt(lambda: c.get(k)), None)
    sx.prove(OmegaConf.is_missing(c, k) is bool(miss), "is_missing exactly for the marker")
    if not lst:
        sx.prove((k in c) is (not miss), "containment exactly when not missing")
        if sib:
            sx.prove(isinstance(sx.attempt(lambda: c.items()).exc, MissingMandatoryValue), "items with a missing value among them raises")
        else:
            check("items", sx.attempt(lambda: dict(c.items())[k]), "raise")
        r = sx.attempt(lambda: dict(c.items_ex(resolve=False))[k])
        sx.prove(r.ok and k in list(c) and k in list(c.keys()), "unresolved iteration keeps missing values")
    else:
        r = sx.attempt(lambda: list(c))
        if miss or inter_missing:
            sx.prove(not r.ok and isinstance(r.exc, MissingMandatoryValue if miss else InterpolationToMissingValueError), "iteration over a missing value raises")
        else:
            sx.prove(r.ok and sx.eq(plain(r.value[k]), value), "iteration gives the values")
        r = sx.attempt(lambda: list(c._iter_ex(resolve=False)))
        sx.prove(r.ok and len(r.value) == len(c), "unresolved iteration keeps missing values")
    if isinstance(k, str) or lst and k >= 0:
        p = k if not lst else "[%d]" % k
        check("select", sx.attempt(lambda: OmegaConf.select(c, p)), None)
        check("select with a default", sx.attempt(lambda: OmegaConf.select(c, p, default=D)), D)
        check("select with throw_on_missing", sx.attempt(lambda: OmegaConf.select(c, p, throw_on_missing=True)), "raise")
    r = sx.attempt(lambda: OmegaConf.to_container(c, throw_on_missing=True))
    sx.prove(isinstance(r.exc, MissingMandatoryValue) if miss or sib else r.ok, "to_container with throw_on_missing raises exactly when something is missing")
    r = sx.attempt(lambda: OmegaConf.to_container(c))
    sx.prove(r.ok and sx.eq(r.value[k], want), "to_container keeps the marker")
    sx.prove(sx.eq(snap(c._get_root()), before), "reading changes nothing")


def content(sx, kind):
    """(config content, plain content, missing?, interpolation to missing?, value read)."""
    if kind == "str":
        s = sx.str("s", 0, 5, "?a \n\u00a0")
        return s, s, missing(s), False, s
    if kind == "int":
        v = sx.int("v")
        return v, v, False, False, v
    if kind == "none":
        return None, None, False, False, None
    if kind in ("mdict", "mlist", "mnode"):
        return {"mdict": lambda: DictConfig("???"), "mlist": lambda: ListConfig("???"), "mnode": lambda: StringNode("???")}[kind](), "???", True, False, None
    if kind in ("minter", "minter2"):
        t = {"minter": "${m}", "minter2": "${mm}"}[kind]
        return t, t, False, True, None
    if kind == "minterstr":
        return "x${m}", "x${m}", False, True, None
    if kind == "mdinter":
        return DictConfig("${m}"), "${m}", False, True, None
    if kind == "inter":
        return "${z}", "${z}", False, False, 5
    if kind == "dict":
        return {"q": 1}, {"q": 1}, False, False, {"q": 1}
    raise AssertionError(kind)


def access(sx):
    kind, where = sx.choice("kind", sx.p["kinds"]), sx.choice("where", sx.p["where"])
    x, want, miss, im, value = content(sx, kind)
    k = sx.choice("key", KEYS) if where == "dict" else {"list": 0, "list2": 1, "neg": -1, "deepd": "k", "deepl": 0, "one": "k"}[where]
    v = sx.int("other")
    part = {"dict": lambda: {k: x, "y": v}, "list": lambda: [x], "list2": lambda: [v, x], "neg": lambda: [v, x], "deepd": lambda: [{"k": x}], "deepl": lambda: {"j": [x, v]}, "one": lambda: {"k": x}}[where]()
    root = OmegaConf.create({"m": "???", "mm": "${m}", "z": 5, "c": part})
    c = root.c[0] if where == "deepd" else root.c.j if where == "deepl" else root.c
    fl = sx.choice("flag", ("none", "struct", "readonly"))
    if fl != "none":
        OmegaConf.set_struct(root, True) if fl == "struct" else OmegaConf.set_readonly(root, True)
    reads(sx, c, k, want, miss, im, value)
    sx.prove(keys_ok(root), "links stay right")


def typed(sx):
    """Missing fields of structured configs, and assigning to them."""
    f = sx.choice("f", TYPED)
    where = sx.choice("where", ("top", "nested", "in_list"))
    root = {"top": lambda: OmegaConf.structured(S), "nested": lambda: OmegaConf.create({"a": {"b": S}}), "in_list": lambda: OmegaConf.create([S, 1])}[where]()
    c, prefix = {"top": lambda: (root, ""), "nested": lambda: (root.a.b, "a.b."), "in_list": lambda: (root[0], "[0].")}[where]()
    im = f == "x"
    names = [n for n in TYPED if n != "x"]
    sx.prove(OmegaConf.missing_keys(root) == {prefix + n for n in names}, "missing_keys of a structured config")
    reads(sx, c, f, "${.i}" if im else "???", not im, im, None, sib=True) if sx.flag("reads") else None
    v = sx.int("v") if f in ("i", "a") else VALUES[f]
    r = sx.attempt(lambda: c.__setitem__(f, In(5, 6) if f == "n" else v))
    sx.prove(r.ok and not OmegaConf.is_missing(c, f) and f in c and sx.eq(plain(c[f]), v), "assigning a value makes it present")
    sx.prove(OmegaConf.missing_keys(root) == {prefix + n for n in names if n != f}, "and missing_keys no longer reports it")
    if sx.flag("again"):
        r = sx.attempt(lambda: c.__setitem__(f, "???"))
        sx.prove(r.ok and OmegaConf.is_missing(c, f) and f not in c, "assigning the marker makes it missing")
        sx.prove(OmegaConf.missing_keys(root) == {prefix + n for n in names + [f]}, "and missing_keys reports it")


def ref_keys(m, pos=(), prefix=""):
    """Paths of the missing markers stored in the model."""
    x = at(m, pos)
    if isinstance(x, dict):
        out = set()
        for k in x:
            out |= ref_keys(m, pos + (k,), prefix + ("." if prefix else "") + (k.name if isinstance(k, Enum) else str(k)))
        return out
    if isinstance(x, list):
        out = set()
        for i in range(len(x)):
            out |= ref_keys(m, pos + (i,), prefix + "[%d]" % i)
        return out
    return {prefix} if missing(x) else set()


LEAF = {"miss": "???", "int": 1, "none": None, "i_miss": I(0, ("q",)), "i_nope": I(0, ("nope",)), "i_cont": I(0, ("c",)), "i_up": I(1, ("q",)), "i_ok": I(0, ("z",)),
        "dm": {"m": "???", "n": 1}, "lm": ["???", 1, "???"], "d0": {}, "deep": {"e": [{"f": "???"}, [["???"]]]}}


def report(sx):
    """missing_keys reports exactly the missing values, whatever interpolations there are."""
    names = sx.p["leaves"]
    a, b = LEAF[sx.choice("a", names)], LEAF[sx.choice("b", names)]
    s = sx.str("s", 2, 4, "?b \n")
    m = {"z": 3, "q": "???", "c": {"x": {"y": a}, 7: s}, "l": [b, [b, s]], Color.RED: s}
    if sx.flag("list_root"):
        m = [m["c"], m["l"], "???"]
    root = OmegaConf.create(build(m))
    fl = sx.choice("flag", ("none", "struct", "readonly"))
    if fl != "none":
        OmegaConf.set_struct(root, True) if fl == "struct" else OmegaConf.set_readonly(root, True)
    before = snap(root)
    want = ref_keys(m)
    r = sx.attempt(lambda: OmegaConf.missing_keys(root))
    sx.observe("n", r.kind)
    sx.prove(r.ok, "missing_keys never raises")
    sx.prove(r.value == want, "missing_keys reports exactly the paths of the missing values")
    sx.prove(OmegaConf.missing_keys(build(m)) == want, "and the same from plain data")
    sx.prove(sx.eq(snap(root), before), "reporting changes nothing")
    for p in sorted(want):
        sx.prove(OmegaConf.select(root, p, default="D") == "D" and isinstance(sx.attempt(lambda: OmegaConf.select(root, p, throw_on_missing=True)).exc, MissingMandatoryValue), "each reported path names a missing value") if "Color" not in p and "RED" not in p and "7" not in p else None
    if want and fl == "none":
        p = sorted(want)[sx.int("which", 0, 9) % len(want)]
        if "RED" not in p and "7" not in p:
            OmegaConf.update(root, p, 1)
            sx.prove(OmegaConf.missing_keys(root) == want - {p}, "assigning a value makes exactly it present")


def containers(sx):
    """Containers that are missing themselves."""
    kind = sx.choice("kind", ("dict", "list", "structured", "typed_list"))
    c = {"dict": lambda: DictConfig("???"), "list": lambda: ListConfig("???"), "structured": lambda: DictConfig("???", ref_type=In), "typed_list": lambda: ListConfig("???", element_type=int)}[kind]()
    lst = kind in ("list", "typed_list")
    k = 0 if lst else "k"
    M = MissingMandatoryValue
    before = snap(c)
    sx.prove(c._is_missing() and len(c) == 0 and OmegaConf.missing_keys(c) == set(), "a missing container is empty")
    if lst:
        for op in (lambda: list(c), lambda: c[0], lambda: c.get(0), lambda: c.pop(0), lambda: c.insert(0, 1), lambda: 1 in c, lambda: c.sort()):
            r = sx.attempt(op)
            sx.prove(not r.ok and isinstance(r.exc, M), "operations on the elements of a missing list raise")
    else:
        sx.prove(list(c) == [] and list(c.keys()) == [] and (k in c) is False, "a missing dict has no keys")
        r = sx.attempt(lambda: c.items())
        sx.prove(not r.ok and isinstance(r.exc, M), "items of a missing dict raises")
    sx.prove(OmegaConf.to_container(c) == "???", "to_container gives the marker")
    r = sx.attempt(lambda: OmegaConf.to_container(c, throw_on_missing=True))
    sx.prove(not r.ok and isinstance(r.exc, M), "to_container with throw_on_missing raises")
    sx.prove(sx.eq(snap(c), before), "nothing changed")


ALLK = ("str", "int", "none", "mdict", "mlist", "mnode", "minter", "minter2", "minterstr", "mdinter", "inter", "dict")
def everywhere(sx):
    """One or two missing values at typed places: unions, optionals, elements, whole containers."""
    cfg = OmegaConf.create({"x": 5, "t": T})
    cfg.t.on = N(5)
    cfg.t.di[""] = 1
    paths = [p for p in TPATHS]
    p = sx.choice("p", tuple(paths))
    q = sx.choice("q", ("none",) + tuple(sx.p["second"]))
    how = sx.choice("how", ("item", "update", "node", "inter"))
    todo = [x for x in (q, p) if x != "none"]
    if p == q or any(a != b and (a.startswith(b + ".") or a.startswith(b + "[")) for a in todo for b in todo):
        sx.stop()
    missing = set()
    for x in todo:
        c, k = down(cfg.t, x)
        if how == "item":
            c[k] = "???"
        elif how == "update":
            OmegaConf.update(cfg, "t." + x, "???", merge=False)
        elif how == "node":
            c._get_node(k)._set_value("???")
        else:
            cfg.mm = "???"
            missing.add("mm")
            c[k] = "${mm}"
        if how != "inter":
            missing.add("t." + x.replace("[k]", ".k"))
    c, k = down(cfg.t, p)
    is_list = isinstance(c, ListConfig)
    before = snap(cfg)
    got = sx.attempt(lambda: OmegaConf.missing_keys(cfg))
    sx.prove(got.ok and got.value == missing, "missing_keys reports the missing values at typed places")
    inter = how == "inter"
    sx.prove(OmegaConf.is_missing(c, k) is (not inter), "a typed value is missing exactly when it holds the marker")
    r = sx.attempt(lambda: c[k])
    sx.prove(not r.ok and isinstance(r.exc, InterpolationToMissingValueError if inter else MissingMandatoryValue), "reading a missing typed value raises")
    if not inter:
        d = sx.choice("default", (77, None, ""))
        g = sx.attempt(lambda: c.get(k, d))
        sx.prove(g.ok and g.value == d and type(g.value) is type(d), "get gives the default for a missing typed value")
        s = sx.attempt(lambda: OmegaConf.select(cfg, "t." + p, default=d))
        sx.prove(s.ok and s.value == d and type(s.value) is type(d), "select gives the default for a missing typed value")
        if not is_list:
            sx.prove(k not in c, "a missing typed key is not contained")
            it = [z for z, n in c.items_ex(resolve=False)]
            sx.prove(k in it, "unresolved iteration keeps a missing typed value")
    t = sx.attempt(lambda: [z for z in (c if is_list else c.items())])
    sx.prove(not t.ok, "resolved iteration over a missing typed value raises")
    sx.prove(sx.eq(snap(cfg), before), "asking changes nothing: typed")
    vals = [v for v in TPATHS[p][1] if not isinstance(v, (str, dict)) and v != ["v"]]
    if vals and not inter:
        c[k] = vals[0]
        sx.prove(not OmegaConf.is_missing(c, k) and OmegaConf.missing_keys(cfg) == missing - {"t." + p.replace("[k]", ".k")}, "an assigned typed value is present")


HARNESSES = [
    ("everywhere", everywhere, {"quick": {"second": ("i", "ln[0].i", "du[k]")}, "thorough": {"second": tuple(TPATHS)}}, ["missing_keys reports the missing values at typed places", "an assigned typed value is present"]),
    ("access", access, {"quick": {"kinds": ALLK, "where": ("dict", "list2", "neg", "deepd")}, "thorough": {"kinds": ALLK, "where": ("dict", "list", "list2", "neg", "deepd", "deepl", "one")}}, ["[] of a missing value raises MissingMandatoryValue", "is_missing exactly for the marker"]),
    ("typed", typed, {"quick": {}, "thorough": {}}, ["missing_keys of a structured config", "assigning a value makes it present"]),
    ("report", report, {"quick": {"leaves": ("miss", "int", "i_miss", "i_nope", "i_cont", "dm", "lm")}, "thorough": {"leaves": tuple(LEAF)}}, ["missing_keys reports exactly the paths of the missing values"]),
    ("containers", containers, {"quick": {}, "thorough": {}}, ["to_container gives the marker"]),
]
BOUNDS = ("12 kinds of content (symbolic strings of ≤ 5 characters over question marks, blanks, line breaks and a letter, symbolic ints, missing values of each node kind, interpolations to missing values) under 6 key types and at 7 places, with flags, read in 12 ways; "
          "11 field types of a structured config at 3 places; 27 typed paths (unions, optionals, elements, containers) with up to one more missing value; trees with 2 subtrees of 12 kinds and symbolic strings at 3 places; missing containers of 4 kinds")
