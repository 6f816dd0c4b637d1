"""to_container turns structured configs into dicts, configs or instances exactly as asked."""
from dataclasses import dataclass, field
from enum import Enum
from typing import Any, Dict, List, Optional, Union

from omegaconf import DictConfig, ListConfig, OmegaConf, SCMode
from omegaconf.errors import InterpolationResolutionError, MissingMandatoryValue

from .common import snap


class Color(Enum):
    RED = 1
    BLUE = 2


@dataclass
class In:
    x: int = 1
    u: Union[int, str] = 2
    e: Color = Color.RED


@dataclass
class Out:
    n: In = field(default_factory=In)
    l: List[In] = field(default_factory=list)
    d: Dict[str, In] = field(default_factory=dict)
    o: Optional[In] = None
    a: Any = None
    k: Dict[Color, int] = field(default_factory=lambda: {Color.BLUE: 3})


class Missing(Exception):
    pass


class Bad(Exception):
    pass


class T:
    """A structured config in the model."""
    def __init__(self, cls, **kw):
        self.cls, self.kw = cls, kw


class I:
    """An interpolation in the model, with the model of what it leads to."""
    def __init__(self, text, to):
        self.text, self.to = text, to


NOPE = object()


def build(m):
    if isinstance(m, T):
        return m.cls(**{k: build(v) for k, v in m.kw.items()})
    if isinstance(m, I):
        return m.text
    if isinstance(m, dict):
        return {k: build(v) for k, v in m.items()}
    if isinstance(m, list):
        return [build(v) for v in m]
    return m


def conv(m, mode, resolve, throw, e2s, cfgs=None):
    """The documented conversion of a model."""
    if isinstance(m, I):
        if not resolve:
            return m.text
        if m.to is NOPE:
            raise Bad()
        return conv(m.to, mode, resolve, throw, e2s)
    if isinstance(m, T):
        if mode == SCMode.DICT_CONFIG:
            return ("config", m)
        if mode == SCMode.INSTANTIATE:
            return m.cls(**{k: inst(v) for k, v in m.kw.items()})
        return conv(m.kw, mode, resolve, throw, e2s)
    if isinstance(m, dict):
        return {(k.name if e2s and isinstance(k, Enum) else k): conv(v, mode, resolve, throw, e2s) for k, v in m.items()}
    if isinstance(m, list):
        return [conv(v, mode, resolve, throw, e2s) for v in m]
    if isinstance(m, str) and m == "???":
        if throw:
            raise Missing()
        return m
    return m.name if e2s and isinstance(m, Enum) else m


def inst(m):
    """Inside an instance everything is resolved and instantiated, missing values raise."""
    if isinstance(m, I):
        if m.to is NOPE:
            raise Bad()
        return inst(m.to)
    return conv(m, SCMode.INSTANTIATE, True, True, False)


def same(sx, a, b):
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], T):
        return isinstance(b, DictConfig) and OmegaConf.get_type(b) is a[1].cls
    if type(a) is not type(b):
        return False
    if isinstance(a, (In, Out)):
        return same(sx, vars(a), vars(b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(x == y for x, y in zip(a, b)) and all(same(sx, a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(sx, x, y) for x, y in zip(a, b))
    return a is b or bool(sx.eq(a, b))


def leaf(sx, name, kinds, v):
    k = sx.choice(name, kinds)
    tin = T(In, x=v, u="q", e=Color.BLUE)
    return {"int": lambda: v, "missing": lambda: "???", "interp": lambda: I("${t}", v), "nope": lambda: I("${nope}", NOPE), "none": lambda: None, "enum": lambda: Color.RED, "struct": lambda: tin, "istruct": lambda: I("${s}", T(In, x=v, u=5, e=Color.RED)),
            "iunion": lambda: I("${s.u}", 5), "smiss": lambda: T(In, x="???", u=1, e=Color.RED), "sinter": lambda: T(In, x=I("${t}", v), u=I("${s.u}", 5), e=I("${e}", Color.BLUE)), "snope": lambda: T(In, x=I("${nope}", NOPE), u=1, e=Color.RED), "dict": lambda: {"p": tin, "q": Color.RED},
            "list": lambda: [tin, v], "dmiss": lambda: {"p": "???"}, "imiss": lambda: I("${m}", NOPE), "sbare": lambda: T(In, x=v, u=2, e="???")}[k]()


def modes(sx):
    v = sx.int("v")
    shape = sx.choice("shape", sx.p["shapes"])
    x = leaf(sx, "x", sx.p["kinds"], v)
    tin = T(In, x=7, u="z", e=Color.RED)
    empty = dict(n=T(In, x=1, u=2, e=Color.RED), l=[], d={}, o=None, a=None, k={Color.BLUE: 3})
    struct = isinstance(x, T) or isinstance(x, I) and (x.to is NOPE or isinstance(x.to, T)) or isinstance(x, str)
    if shape in ("n", "o", "l", "dd") and not struct and not (shape == "o" and x is None):
        sx.stop()
    m = {"plain": lambda: {"c": x, "w": 1}, "item": lambda: [x, [x]], "a": lambda: {"c": T(Out, **dict(empty, a=x))}, "n": lambda: {"c": T(Out, **dict(empty, n=x))}, "o": lambda: {"c": T(Out, **dict(empty, o=x))},
         "l": lambda: {"c": T(Out, **dict(empty, l=[tin, x]))}, "dd": lambda: {"c": T(Out, **dict(empty, d={"k": x}))}, "root": lambda: T(Out, **dict(empty, a=x)), "ekey": lambda: {Color.RED: {Color.BLUE: x}}}[shape]()
    base = {"t": v, "s": In(x=v, u=5), "e": Color.BLUE, "m": "???"}
    cfg = OmegaConf.create(dict(base, sub=build(m)))
    sub = cfg.sub
    mode = sx.choice("mode", (SCMode.DICT, SCMode.DICT_CONFIG, SCMode.INSTANTIATE))
    resolve, throw, e2s = sx.flag("resolve"), sx.flag("throw"), sx.flag("e2s")
    to_object = mode == SCMode.INSTANTIATE and resolve and throw and not e2s and sx.flag("to_object")
    before = snap(cfg)
    f = (lambda: OmegaConf.to_object(sub)) if to_object else lambda: OmegaConf.to_container(sub, resolve=resolve, throw_on_missing=throw, enum_to_str=e2s, structured_config_mode=mode)
    r = sx.attempt(f)
    sx.observe("r", r.kind)
    sx.prove(sx.eq(snap(cfg), before), "the config is unchanged")
    try:
        want = conv(m, mode, resolve, throw, e2s)
    except (Missing, Bad):
        sx.prove(not r.ok and isinstance(r.exc, (MissingMandatoryValue, InterpolationResolutionError)), "missing and unresolvable values raise")
        return
    sx.prove(r.ok, "the conversion succeeds")
    sx.prove(same(sx, want, r.value), "structured configs become what was asked for, everything else plain data")
    if mode == SCMode.DICT_CONFIG:
        one = r.value
        if isinstance(one, DictConfig):
            sx.prove(sx.eq(snap(one), snap(sub)), "a structured config stays itself")


K = ("int", "missing", "interp", "nope", "none", "enum", "struct", "istruct", "iunion", "smiss", "sinter", "snope", "dict", "list", "dmiss", "imiss", "sbare")
SH = ("plain", "item", "a", "n", "o", "l", "dd", "root", "ekey")
HARNESSES = [("modes", modes, {"quick": {"kinds": K, "shapes": SH}, "thorough": {"kinds": K, "shapes": SH}}, ["structured configs become what was asked for, everything else plain data", "missing and unresolvable values raise", "a structured config stays itself"])]
BOUNDS = ("17 kinds of content (structured configs, their fields missing, interpolated or unresolvable, unions, enums, interpolations of structured configs, containers of them) at 9 places (plain dict and list, every kind of typed field, the root, enum keys), "
          "all 3 modes x resolve x throw_on_missing x enum_to_str, and to_object; symbolic int leaves")
