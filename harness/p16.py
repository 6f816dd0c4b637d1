"""Converting to a config and back to a container is lossless."""
import copy
from enum import Enum
from pathlib import Path
from typing import Any

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.errors import InterpolationResolutionError, MissingMandatoryValue, ValidationError

from .common import children, keys_ok, plain, snap
from .p12 import Color as PColor
from .p12 import N, T, TPATHS, split
from .p12 import walk as down


class Color(Enum):
    RED = 1
    BLUE = 2


LEAVES = ("int", "bool", "str", "float", "none", "bytes", "path", "enum", "missing", "interp", "esc")
KEYS = ("s", "int", "bool", "float", "bytes", "enum", "sym")


def leaf(sx, name, kinds):
    k = sx.choice(name + ".k", kinds)
    if k == "int":
        return sx.int(name)
    if k == "bool":
        return sx.bool(name)
    if k == "str":
        return sx.str(name, 0, sx.p["slen"], "a?$.\\ 1")
    return {"float": 1.5, "none": None, "bytes": b"\xff", "path": Path("a/b"), "enum": Color.RED, "missing": "???", "interp": "${zz}", "esc": "\\${x}", "nan": float("inf"),
            "emptyd": {}, "emptyl": [], "big": 10 ** 30, "inters": "a ${zz} b", "tuple": (1, "t")}[k]


def key(sx, name, i):
    k = sx.choice(name, sx.p["keys"])
    return {"s": "k%d" % i, "int": i + 5, "bool": bool(i % 2), "float": i + 0.5, "bytes": b"b%d" % i, "enum": (Color.RED, Color.BLUE)[i % 2], "none": "None", "empty": "", "dot": "a.b[c]%d" % i,
            "sym": sx.int(name + "i", 10, 10 ** 9) if k == "sym" else 0, "num": "%d" % i}[k]


def value(sx, name, depth):
    """A nested structure: one container with up to width entries per level."""
    kind = sx.choice(name + ".c", ("leaf", "dict", "list") if depth else ("leaf",))
    if kind == "leaf":
        return leaf(sx, name, sx.p["leaves"])
    n = sx.choice(name + ".n", sx.p["width"])
    if kind == "list":
        return [value(sx, "%s.%d" % (name, i), depth - 1) for i in range(n)]
    return {key(sx, "%s.k%d" % (name, i), i): value(sx, "%s.%d" % (name, i), depth - 1) for i in range(n)}


def build(sx):
    d = {}
    for i in range(sx.p["top"]):
        d[key(sx, "K%d" % i, i)] = value(sx, "v%d" % i, sx.p["depth"])
    return d if sx.choice("root", ("dict", "list")) == "dict" else [v for v in d.values()]


def norm(x):
    return [norm(v) for v in x] if isinstance(x, (list, tuple)) else {k: norm(v) for k, v in x.items()} if isinstance(x, dict) else x


def same(sx, a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(sx, x, y) for x, y in zip(a, b)) and all(same(sx, x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, list):
        return len(a) == len(b) and all(same(sx, x, y) for x, y in zip(a, b))
    return a is b or bool(sx.eq(a, b))


def mutables(x, out):
    if isinstance(x, dict):
        out.append(x)
        for v in x.values():
            mutables(v, out)
    elif isinstance(x, list):
        out.append(x)
        for v in x:
            mutables(v, out)
    return out


def scramble(x):
    for m in mutables(x, []):
        if isinstance(m, dict):
            m["new"] = 0
        else:
            m.append(0)


MAKE = ("create", "class", "twice", "assign", "nested", "copied", "tuple")


def make(sx, x, how):
    if how == "create":
        return OmegaConf.create(x)
    if how == "class":
        return DictConfig(x) if isinstance(x, dict) else ListConfig(x)
    if how == "twice":
        return OmegaConf.create(OmegaConf.create(x))
    if how == "assign":
        c = OmegaConf.create({})
        c.k = x
        return c.k
    if how == "nested":
        return OmegaConf.create([{"q": x}])[0].q
    if how == "copied":
        return OmegaConf.create({"q": OmegaConf.create(x)}).q
    if how == "tuple":
        if not isinstance(x, list):
            sx.stop()
        return OmegaConf.create(tuple(x))


def roundtrip(sx):
    x = build(sx)
    orig = norm(x)
    how = sx.choice("how", sx.p["how"])
    r = sx.attempt(lambda: make(sx, x, how))
    sx.prove(r.ok, "supported values are accepted")
    cfg = r.value
    sx.prove(same(sx, norm(x), orig), "creating leaves the input unchanged")
    sx.prove(keys_ok(cfg), "links")
    before = snap(cfg)
    out = OmegaConf.to_container(cfg)
    sx.prove(same(sx, out, orig), "the conversion gives back equal data")
    sx.prove(sx.eq(snap(cfg), before), "converting leaves the config unchanged")
    ids = [id(m) for m in mutables(out, [])]
    sx.prove(not any(id(m) in ids for m in mutables(x, [])), "nothing shared between input and output")
    sx.prove(len(set(ids)) == len(ids), "nothing shared within the output")
    scramble(x)
    sx.prove(sx.eq(snap(cfg), before), "changing the input does not change the config")
    scramble(out)
    sx.prove(sx.eq(snap(cfg), before), "changing the output does not change the config")
    sx.prove(same(sx, OmegaConf.to_container(cfg), orig), "a second conversion gives the same")


TARGETS = {"leaf": "${t}", "dict": "${d}", "list": "${l}", "inner": "${d.a}", "item": "${l[1]}", "none": "${n}", "missing": "${m}", "nope": "${nope}", "str": "x${t}", "chain": "${c1}", "hasmiss": "${dm}", "enum": "${e}"}


def resolved(sx):
    """resolve, throw_on_missing, enum_to_str over all placements of interpolations and missing values."""
    v = sx.int("v")
    base = {"t": v, "d": {"a": "v", "b": [1, {"z": Color.BLUE}]}, "l": [4, "li"], "n": None, "c1": "${c2}", "c2": "${d.b}", "e": Color.RED}
    sub = {}
    kinds = sx.p["kinds"]
    for i, k in enumerate(("p", "q")):
        what = sx.choice(k, kinds if k == "p" else sx.p["second"])
        val = TARGETS[what] if what in TARGETS else {"plain": 3, "mv": "???", "enum0": Color.RED}[what]
        where = sx.choice(k + ".at", ("top", "dict", "list") if k == "p" else ("list",))
        if where == "top":
            sub[k] = (what, val)
        elif where == "dict":
            sub.setdefault("dd", {})[k] = (what, val)
        else:
            sub.setdefault("ll", []).append((what, val))
    data = dict(base)
    if sx.flag("mpresent"):
        data["m"] = "???"
        data["dm"] = {"y": "???", "w": 1}
    full = dict(data)

    def put(x):
        if isinstance(x, tuple):
            return x[1]
        return {k: put(y) for k, y in x.items()} if isinstance(x, dict) else [put(y) for y in x]
    full["sub"] = put(sub)
    cfg = OmegaConf.create(full)
    resolve, throw, e2s = sx.flag("resolve"), sx.flag("throw"), sx.flag("enum")
    before = snap(cfg)
    r = sx.attempt(lambda: OmegaConf.to_container(cfg.sub, resolve=resolve, throw_on_missing=throw, enum_to_str=e2s))
    sx.observe("r", r.kind)
    sx.prove(sx.eq(snap(cfg), before), "the config is unchanged")
    has_m = "m" in data

    class Missing(Exception):
        pass

    class Unresolved(Exception):
        pass

    def en(x):
        return x.name if e2s and isinstance(x, Enum) else {k: en(y) for k, y in x.items()} if isinstance(x, dict) else [en(y) for y in x] if isinstance(x, list) else x

    def want(x):
        if isinstance(x, dict):
            return {k: want(y) for k, y in x.items()}
        if isinstance(x, list):
            return [want(y) for y in x]
        what, val = x
        if what == "mv":
            if throw:
                raise Missing()
            return "???"
        if not resolve or what not in TARGETS:
            return en(val)
        if what == "nope" or (what in ("missing", "hasmiss") and not has_m) or what == "missing":
            raise Unresolved()
        if what == "hasmiss":
            if throw:
                raise Missing()
            return {"y": "???", "w": 1}
        return en({"leaf": v, "dict": base["d"], "list": base["l"], "inner": "v", "item": "li", "none": None, "str": "x" + str(v) if what == "str" else 0, "chain": base["d"]["b"], "enum": Color.RED}[what])
    try:
        w = want(sub)
    except Missing:
        sx.prove(not r.ok and isinstance(r.exc, MissingMandatoryValue), "throw_on_missing raises for a missing value")
        return
    except Unresolved:
        sx.prove(not r.ok and isinstance(r.exc, InterpolationResolutionError), "resolving an unresolvable interpolation raises")
        return
    sx.prove(r.ok, "conversion succeeds")
    sx.prove(same(sx, r.value, w), "interpolations are replaced by their values exactly when asked")
    scramble(r.value)
    sx.prove(sx.eq(snap(cfg), before), "changing the result does not change the config")


H = ["the conversion gives back equal data"]
K = ("s", "int", "bool", "float", "bytes", "enum", "sym", "none", "empty", "dot", "num")
L = LEAVES + ("nan", "emptyd", "emptyl", "big", "inters", "tuple")
TPLAIN = {
    "i": 1, "f": 0.0, "b": False, "s": "", "e": PColor.RED, "p": Path("q"), "y": b"", "a": 0, "u": 3, "ou": None, "oi": None, "li": [4, 5], "lu": [4, "5"], "ll": [[None, 5]],
    "di": {"k": 6}, "du": {"k": 7}, "de": {PColor.RED: "x"}, "dk": {1: 8}, "n": {"i": 1, "u": "u"}, "on": None, "ln": [{"i": 9, "u": "u"}],
}
TVALS = ("as it is", "v", "none", "missing", "to scalar", "to dict", "to none", "to typed", "nope") + tuple(range(4))


def tcontainer(sx):
    """Converting configs with fields of every type, unions and optionals included."""
    p = sx.choice("path", tuple(TPATHS))
    ty, vals = TPATHS[p]
    v = sx.int("v")
    cfg = OmegaConf.create({"t": T, "x": {"v": v, "s": "w", "d": {"k": 6}, "n": None}})
    tc, tk = down(cfg.t, p)
    tv = sx.choice("val", TVALS)
    if tv == "v" and ty in (float, bool, PColor, Path, bytes):
        sx.stop()  # converted: that is P05's
    inter = {"to scalar": ("${x.v}", v), "to dict": ("${x.d}", {"k": 6}), "to none": ("${x.n}", None), "to typed": ("${t.n}", {"i": 1, "u": "u"}), "nope": ("${x.nope}", None)}
    want = {"t": copy.deepcopy(TPLAIN), "x": {"v": v, "s": "w", "d": {"k": 6}, "n": None}}
    pos = want["t"]
    for k in split(p)[:-1]:
        pos = pos[k]
    pk = PColor.RED if tk is PColor.RED else split(p)[-1]
    resolve, throw, e2s = sx.flag("resolve"), sx.flag("throw"), sx.flag("enum")
    missing = tv == "missing"
    if tv != "as it is":
        if isinstance(tv, int):
            if tv >= len(vals):
                sx.stop()
            val = vals[tv]
        else:
            val = {"v": v, "none": None, "missing": "???"}[tv] if tv not in inter else inter[tv][0]
        val = v if isinstance(val, str) and val == "v" else [v] if isinstance(val, list) and val else {"z": v} if isinstance(val, dict) and val else val
        r = sx.attempt(lambda: tc.__setitem__(tk, val))
        if not r.ok:
            sx.stop()
        if p == "n" and tv == "to typed":
            sx.stop()  # refers to itself
        pos[pk] = {"i": val.i, "u": val.u} if isinstance(val, N) else {PColor.RED: "t"} if val is PColor else float(val) if ty is float and isinstance(val, (int, float)) and tv != "v" else str(val) if ty is str and not missing and tv not in inter else val
        if tv in inter and resolve:
            pos[pk] = inter[tv][1]
    before = snap(cfg)
    r = sx.attempt(lambda: OmegaConf.to_container(cfg, resolve=resolve, throw_on_missing=throw, enum_to_str=e2s))
    sx.observe("r", r.kind)
    sx.prove(sx.eq(snap(cfg), before), "the config is unchanged: typed")
    if throw and missing:
        sx.prove(not r.ok and isinstance(r.exc, MissingMandatoryValue), "throw_on_missing raises for a missing value: typed")
        return
    if resolve and tv == "nope":
        sx.prove(not r.ok and isinstance(r.exc, InterpolationResolutionError), "resolving an unresolvable interpolation raises: typed")
        return

    def en(x):
        if isinstance(x, dict):
            return {(k.name if e2s and isinstance(k, Enum) else k): en(y) for k, y in x.items()}
        return [en(y) for y in x] if isinstance(x, list) else x.name if e2s and isinstance(x, Enum) else x
    if resolve and tv in inter and not r.ok:
        sx.prove(isinstance(r.exc, (ValidationError, InterpolationResolutionError)), "only a value of the wrong type is refused: typed")
        sx.stop()
    if resolve and tv in inter and isinstance(inter[tv][1], type(v)) and ty not in (int, Any):
        sx.stop()  # converted to the declared type: that is P05's
    w = want if not e2s else en(want)
    sx.prove(r.ok and same(sx, r.value, w), "a typed config gives the data it holds")
    if not resolve and not e2s and tv not in inter and not missing:
        again = sx.attempt(lambda: OmegaConf.merge(OmegaConf.structured(T), r.value["t"]))
        # a missing value does not replace a default, and merging adds to dicts: those that lost keys do not come back
        sx.prove(again.ok and (sx.eq(plain(again.value), plain(cfg.t)) or tv in range(4) and isinstance(pos[pk], dict)), "merging the data into the class gives the config back")


HARNESSES = [
    ("tcontainer", tcontainer, {"quick": {}, "thorough": {}}, ["a typed config gives the data it holds", "merging the data into the class gives the config back", "throw_on_missing raises for a missing value: typed"]),
    ("flat", roundtrip, {"quick": {"top": 1, "depth": 1, "width": (1,), "keys": K, "leaves": L, "slen": 3, "how": ("create",)},
                         "thorough": {"top": 2, "depth": 1, "width": (1,), "keys": ("s", "sym", "bytes"), "leaves": L, "slen": 2, "how": MAKE}}, H),
    ("how", roundtrip, {"quick": {"top": 1, "depth": 1, "width": (1,), "keys": ("s", "sym"), "leaves": L, "slen": 1, "how": MAKE},
                        "thorough": {"top": 1, "depth": 2, "width": (1, 2), "keys": ("s", "int"), "leaves": L, "slen": 1, "how": MAKE}}, H),
    ("deep", roundtrip, {"quick": {"top": 1, "depth": 2, "width": (0, 2), "keys": ("s",), "leaves": ("int", "missing", "interp"), "slen": 1, "how": ("create",)},
                         "thorough": {"top": 1, "depth": 3, "width": (0, 2), "keys": ("s",), "leaves": ("int", "none"), "slen": 1, "how": ("create", "twice")}}, H),
    ("resolved", resolved, {"quick": {"kinds": ("leaf", "dict", "missing", "hasmiss", "str", "chain", "enum", "mv", "plain", "enum0"), "second": ("leaf", "mv", "hasmiss", "enum0")},
                            "thorough": {"kinds": tuple(TARGETS) + ("plain", "mv", "enum0"), "second": tuple(TARGETS) + ("plain", "mv", "enum0")}},
     ["throw_on_missing raises for a missing value", "resolving an unresolvable interpolation raises", "interpolations are replaced by their values exactly when asked"]),
]
BOUNDS = ("nested structures of depth 1 to 2 (4), up to two entries per container, eleven kinds of keys and seventeen of leaves (symbolic ints, bools, strings up to slen; the other kinds one "
          "representative each), seven ways of creating; conversion options with 10 to 15 kinds of interpolations and missing values at two places; 27 typed paths (unions, optionals, containers) with up to 13 values, every option, and back into the class")
