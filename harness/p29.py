"""masked_copy returns exactly the requested keys."""
import copy
from dataclasses import dataclass, field
from enum import Enum
from pathlib import Path
from typing import Any, Dict, List, Optional, Union

from omegaconf import MISSING, AnyNode, DictConfig, ListConfig, OmegaConf
from omegaconf.errors import ConfigTypeError, InterpolationKeyError, MissingMandatoryValue

from .common import all_nodes, children, keys_ok, plain, snap


class Color(Enum):
    RED = 1


@dataclass
class In:
    i: int = 1


@dataclass
class S:
    a: int = 1
    b: Optional[str] = None
    ab: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    ba: In = field(default_factory=In)
    aa: List[In] = field(default_factory=lambda: [In(2)])
    bb: Union[int, str] = "u"
    c: float = MISSING
    ca: str = "${a}"
    cb: Optional[In] = None
    cc: Any = Path("x")


def source(sx, kind):
    v = sx.int("v")
    if kind == "dict":
        return {"a": v, "b": None, "ab": {"k": v, "x": "${..a}", "m": "???"}, "ba": [v, {"y": "${a}"}, []], "aa": "${a}", "bb": r"\${a}", "c": "???", "ca": Color.RED, "cb": b"x", "cc": {}}
    if kind == "struct":
        return OmegaConf.structured(S(a=v))
    if kind == "keys":
        return {1: v, "1": "s", Color.RED: {"k": v}, b"a": [1], 1.5: "${a}", True and "a": "t", "RED": "w"}
    if kind == "nodes":
        c = OmegaConf.create({"a": v, "b": {"k": [1]}, "ab": [1], "ba": 1})
        OmegaConf.set_readonly(c.b, True)
        OmegaConf.set_struct(c.ab, True)
        c._get_node("a")._set_flag("readonly", True)
        return c


def requested(sx, kind):
    """The keys argument."""
    if kind == "keys":
        pool = (1, "1", Color.RED, b"a", 1.5, "a", "RED", "zz", 2, None, True)
        return [pool[sx.choice("k%d" % i, tuple(range(len(pool))))] for i in range(sx.choice("n", sx.p["nk"]))]
    form = sx.choice("form", ("str", "list", "tuple"))
    if form == "str":
        return sx.str("q", 0, 2, "abcz")
    n = sx.choice("n", sx.p["n"])
    ks = [sx.str("q%d" % i, 1, 2, sx.p["alphabet"]) for i in range(n)]
    return ks if form == "list" else tuple(ks)


def mask(sx):
    kind = sx.choice("kind", ("dict", "struct", "keys", "nodes"))
    keys = requested(sx, kind)
    src = source(sx, kind)
    cfg = src if isinstance(src, DictConfig) else OmegaConf.create(src)
    place = sx.choice("place", ("top", "nested"))
    root = cfg
    if place == "nested":
        root = OmegaConf.create({"r": [0, cfg], "a": "root"})
        cfg = root.r[1]
    flag = sx.choice("flag", ("none", "readonly", "struct"))
    if flag == "readonly":
        OmegaConf.set_readonly(root, True)
    if flag == "struct":
        OmegaConf.set_struct(cfg, True)
    before, given = snap(root), copy.deepcopy(keys)
    r = sx.attempt(lambda: OmegaConf.masked_copy(cfg, keys))
    sx.observe("r", r.kind)
    sx.prove(r.ok and isinstance(r.value, DictConfig), "a dict config is returned")
    out = r.value
    wanted = [keys] if isinstance(keys, str) else keys
    names = [k for k in cfg._content if any(type(k) is type(w) and k == w or k == w for w in wanted)]
    sx.prove([k for k in out._content] == names and all(type(x) is type(y) for x, y in zip(out._content, names)), "exactly the requested keys that the config has, in their order")
    for k in names:
        a, b = cfg._content[k], out._content[k]
        if isinstance(a, (DictConfig, ListConfig)):
            sx.prove(sx.eq(snap(b), snap(a)), "containers keep their content, type and flags")
        else:
            x, y = a._value(), b._value()
            x = x._value() if hasattr(x, "_value") else x
            y = y._value() if hasattr(y, "_value") else y
            sx.prove(type(x) is type(y) and sx.eq(x, y), "values, interpolations and missing values stay as written")
    sx.prove(sx.eq(snap(root), before) and sx.eq(keys, given), "the config and the keys stay as they were")
    ids = {id(n) for n in all_nodes(root)}
    sx.prove(out._get_parent() is None and keys_ok(out) and not any(id(n) in ids for n in all_nodes(out)), "the copy has its own nodes")
    for k, n in children(out):
        if isinstance(n, DictConfig) and not n._is_none() and not n._is_missing():
            OmegaConf.set_readonly(n, False)
            OmegaConf.set_struct(n, False)
            n._set_flag("allow_objects", True)
            for kk, x in children(n):
                if type(x._value()) is int:
                    x._set_value(77)
        elif isinstance(n, ListConfig) and isinstance(n._content, list):
            OmegaConf.set_readonly(n, False)
            n.clear()
    for k in list(out._content):
        del out[k]
    sx.prove(sx.eq(snap(root), before), "changing the copy changes nothing else")


def live(sx):
    """Interpolations of the copy are resolved in the copy."""
    v, w = sx.int("v"), sx.int("w")
    cfg = OmegaConf.create({"a": v, "x": "${a}", "y": "${.a}", "n": {"z": "${a}", "u": "${..a}", "s": "${.t}", "t": 5}, "l": ["${a}", "${.0}"]})
    place = sx.choice("place", ("top", "nested"))
    if place == "nested":
        cfg = OmegaConf.create({"p": cfg, "a": v}).p
    keys = [k for k in ("a", "x", "y", "n", "l") if sx.flag(k)]
    out = OmegaConf.masked_copy(cfg, keys)
    if "a" in keys:
        out.a = w
    for k, f in (("x", lambda: out.x), ("y", lambda: out.y), ("n", lambda: out.n.z), ("n", lambda: out.n.u), ("l", lambda: out.l[0]), ("l", lambda: out.l[1])):
        if k in keys:
            r = sx.attempt(f)
            sx.observe("r", r.kind)
            sx.prove(sx.eq(r.value, w) if "a" in keys and r.ok else not r.ok and isinstance(r.exc, InterpolationKeyError) and "a" not in keys, "interpolations refer to the copy")
    if "n" in keys:
        sx.prove(out.n.s == 5, "interpolations within a part still work")
    sx.prove(sx.eq(cfg.a, v) and sx.eq(cfg.x, v), "the config is independent of the copy")


def refused(sx):
    """Only dict configs."""
    x = sx.choice("x", ("list", "dict", "none", "int", "str", "node", "class", "instance", "nonedict", "missingdict", "emptykeys"))
    obj = {"list": lambda: OmegaConf.create([1]), "dict": lambda: {"a": 1}, "none": lambda: None, "int": lambda: 3, "str": lambda: "a", "node": lambda: AnyNode(1), "class": lambda: S, "instance": lambda: S(), "nonedict": lambda: DictConfig(None), "missingdict": lambda: DictConfig("???"), "emptykeys": lambda: OmegaConf.create({"a": 1})}[x]()
    keys = sx.choice("keys", (["a"], "a", [], ()))
    r = sx.attempt(lambda: OmegaConf.masked_copy(obj, keys))
    sx.observe("r", r.kind)
    if x == "emptykeys":
        sx.prove(r.ok and plain(r.value) == ({"a": 1} if keys in (["a"], "a") else {}), "no keys give an empty config")
    elif x == "nonedict":
        sx.prove(not r.ok and isinstance(r.exc, ConfigTypeError), "a None config has no keys to copy")
    elif x == "missingdict":
        sx.prove(not r.ok and isinstance(r.exc, MissingMandatoryValue), "a missing config has no keys to copy")
    else:
        sx.prove(not r.ok and type(r.exc) is ValueError, "anything but a dict config raises")


HARNESSES = [
    ("mask", mask, {"quick": {"n": (0, 1, 2), "nk": (0, 1, 2), "alphabet": "abz"}, "thorough": {"n": (0, 1, 2, 3), "nk": (0, 1, 2, 3), "alphabet": "abcz"}}, ["exactly the requested keys that the config has, in their order", "the copy has its own nodes"]),
    ("live", live, {"quick": {}, "thorough": {}}, ["interpolations refer to the copy"]),
    ("refused", refused, {"quick": {}, "thorough": {}}, ["anything but a dict config raises"]),
]
BOUNDS = ("4 configs (plain, structured, with keys of all types, with flags on nodes), at the top or nested, with struct or read-only flags; as keys a string, list or tuple of up to 2 (3) symbolic strings of up to 2 letters or keys of other types; all subsets of 5 keys for interpolations. The declared types of single fields and the flags of the config itself are not kept (documented behaviour: the result is a plain dict config) and are not claimed")
