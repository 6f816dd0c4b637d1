"""Typed containers hold only elements and keys of the declared types."""
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Dict, List, Optional, Tuple, Union

from omegaconf import DictConfig, FloatNode, IntegerNode, ListConfig, OmegaConf, StringNode
from omegaconf.errors import OmegaConfBaseException, ValidationError

from .common import keys_ok, snap
from .p05 import BAD, Color, Size, reference


@dataclass
class Inner:
    v: int = 1


@dataclass
class Sub(Inner):
    w: int = 2


@dataclass
class Other:
    v: int = 1


def mk(*a):
    return field(default_factory=lambda: a[0]() if callable(a[0]) else a[0])


@dataclass
class S:
    li: List[int] = field(default_factory=lambda: [1, 2])
    lo: List[Optional[int]] = field(default_factory=lambda: [1, None])
    lb: List[bool] = field(default_factory=lambda: [True, False])
    lf: List[float] = field(default_factory=lambda: [1.5, 2.5])
    ls: List[str] = field(default_factory=lambda: ["q", "r"])
    lc: List[Color] = field(default_factory=lambda: [Color.RED, Color.BLUE])
    ly: List[bytes] = field(default_factory=lambda: [b"q", b"r"])
    lu: List[Union[int, str]] = field(default_factory=lambda: [1, "r"])
    tu: Tuple[int, ...] = field(default_factory=lambda: (1, 2))
    ll: List[List[int]] = field(default_factory=lambda: [[1], [2]])
    ld: List[Dict[str, int]] = field(default_factory=lambda: [{"a": 1}, {"b": 2}])
    ln: List[Inner] = field(default_factory=lambda: [Inner(), Inner(v=2)])
    lon: List[Optional[Inner]] = field(default_factory=lambda: [Inner(), None])
    di: Dict[str, int] = field(default_factory=lambda: {"a": 1})
    do: Dict[str, Optional[float]] = field(default_factory=lambda: {"a": 1.5})
    dki: Dict[int, int] = field(default_factory=lambda: {1: 1})
    dkc: Dict[Color, bool] = field(default_factory=lambda: {Color.RED: True})
    dkb: Dict[bool, str] = field(default_factory=lambda: {True: "q"})
    dkf: Dict[float, str] = field(default_factory=lambda: {1.5: "q"})
    dky: Dict[bytes, int] = field(default_factory=lambda: {b"q": 1})
    dl: Dict[str, List[bool]] = field(default_factory=lambda: {"a": [True]})
    dd: Dict[str, Dict[int, int]] = field(default_factory=lambda: {"a": {1: 1}})
    dn: Dict[str, Inner] = field(default_factory=lambda: {"a": Inner()})


# hints: a type, ("opt", T), ("list", T), ("dict", K, V), ("union", T, ...)
HINT = {
    "li": ("list", int), "lo": ("list", ("opt", int)), "lb": ("list", bool), "lf": ("list", float), "ls": ("list", str),
    "lc": ("list", Color), "ly": ("list", bytes), "lu": ("list", ("union", int, str)), "tu": ("list", int),
    "ll": ("list", ("list", int)), "ld": ("list", ("dict", str, int)), "ln": ("list", Inner), "lon": ("list", ("opt", Inner)),
    "di": ("dict", str, int), "do": ("dict", str, ("opt", float)), "dki": ("dict", int, int), "dkc": ("dict", Color, bool),
    "dkb": ("dict", bool, str), "dkf": ("dict", float, str), "dky": ("dict", bytes, int), "dl": ("dict", str, ("list", bool)),
    "dd": ("dict", str, ("dict", int, int)), "dn": ("dict", str, Inner),
}
LISTS = tuple(k for k in HINT if HINT[k][0] == "list")
DICTS = tuple(k for k in HINT if HINT[k][0] == "dict")
SCALARS = (int, float, bool, str, bytes, Path, Color)


def is_interp(v):
    return isinstance(v, str) and v.startswith("${")


def well(c, hint):
    """Every element below c (a container node) has the type its hint declares."""
    if isinstance(c, str):
        return c == "???" or is_interp(c)
    if hint[0] == "list":
        if not isinstance(c, ListConfig):
            return False
        pairs = [(None, n) for n in c._content] if isinstance(c._content, list) else []
        elem = hint[1]
    else:
        if not isinstance(c, DictConfig):
            return False
        pairs = list(c._content.items()) if isinstance(c._content, dict) else []
        elem = hint[2]
        for k, _ in pairs:
            if not (isinstance(k, hint[1]) and (hint[1] is not int or not isinstance(k, bool))):
                return False
    for _, n in pairs:
        if not well_elem(n, elem):
            return False
    return True


def well_elem(n, hint):
    opt = False
    if type(hint) is tuple and hint[0] == "opt":
        opt, hint = True, hint[1]
    if n._is_missing() or n._is_interpolation():
        return True
    if n._is_none():
        return opt
    if type(hint) is tuple and hint[0] in ("list", "dict"):
        return well(n, hint)
    if type(hint) is tuple:
        v = n._value()
        v = v._value() if hasattr(v, "_value") else v
        return type(v) in hint[1:] or isinstance(v, hint[1:]) and not isinstance(v, bool)
    if hint in SCALARS:
        if isinstance(n, (ListConfig, DictConfig)):
            return False
        v = n._value()
        return isinstance(v, hint) and not (hint is int and isinstance(v, bool))
    if not isinstance(n, DictConfig):
        return False
    t = OmegaConf.get_type(n)
    return isinstance(t, type) and issubclass(t, hint) and well_elem(n._get_node("v"), int)


def ref(sx, hint, v):
    """("ok", expected plain value), ("bad", None) or ("?", None) when only soundness is claimed."""
    opt = False
    if type(hint) is tuple and hint[0] == "opt":
        opt, hint = True, hint[1]
    if v is None:
        return ("ok", None) if opt else (BAD, None)
    if isinstance(v, str) and (v == "???" or is_interp(v)):
        return "?", None
    if isinstance(hint, type) and hint not in SCALARS:  # a structured class
        t = v if isinstance(v, type) else OmegaConf.get_type(v) if isinstance(v, DictConfig) else type(v)
        if t is dict or isinstance(v, (IntegerNode, StringNode, FloatNode, ListConfig)):
            return "?", None
        if not issubclass(t, hint):
            return BAD, None
        return "ok", (t, OmegaConf.to_container(v if isinstance(v, DictConfig) else OmegaConf.structured(v)))
    if isinstance(v, (IntegerNode, StringNode, FloatNode, ListConfig, DictConfig, Inner, Other, type)):
        return "?", None
    if type(hint) is tuple and hint[0] == "list":
        if not isinstance(v, (list, tuple)):
            return BAD, None
        out = []
        for x in v:
            k, e = ref(sx, hint[1], x)
            if k != "ok":
                return k, None
            out.append(e)
        return "ok", out
    if type(hint) is tuple and hint[0] == "dict":
        if not isinstance(v, dict):
            return BAD, None
        out = {}
        for kk, x in v.items():
            if not isinstance(kk, hint[1]):
                return "?", None
            k, e = ref(sx, hint[2], x)
            if k != "ok":
                return k, None
            out[kk] = e
        return "ok", out
    if type(hint) is tuple:  # union: exact type of one of the members
        for t in hint[1:]:
            if isinstance(v, t) and (not isinstance(v, bool) or t is bool):
                return "ok", v
        return BAD, None
    if hint in SCALARS:
        if isinstance(v, (list, dict, tuple)) or isinstance(v, (Inner, Other)):
            return ("?", None) if hint is str else (BAD, None)
        k, e = reference(sx, hint, v)
        return ("?", None) if k == "str_of_int" else (k, e)
    return "?", None


def value(sx, name):
    k = sx.choice(name + ".kind", sx.p["values"])
    return scalar(sx, name, k)


def scalar(sx, name, k):
    if k == "int":
        return sx.int(name, -99, 99)
    if k == "bool":
        return sx.bool(name)
    if k == "float":
        return sx.choice(name, (1.0, -2.5))
    if k == "num":
        return sx.str(name, 1, sx.p["slen"], "01.-x")
    if k == "snum":
        return sx.choice(name, ("zz", "5"))
    return {
        "none": lambda: None, "missing": lambda: "???", "interp": lambda: "${li}", "bytes": lambda: b"z", "color": lambda: Color.BLUE, "cname": lambda: "RED",
        "size": lambda: Size.S, "inner": lambda: Inner(v=7), "sub": lambda: Sub(), "other": lambda: Other(), "cls": lambda: Inner, "dcls": lambda: Other,
        "snode": lambda: StringNode("zz"), "inode": lambda: IntegerNode(5), "fnode": lambda: FloatNode(2.0),
        "list": lambda: [sx.int(name, -9, 9)], "slist": lambda: ["zz"], "nlist": lambda: [None], "blist": lambda: [sx.bool(name)], "llist": lambda: [[1]],
        "clist": lambda: ListConfig([sx.int(name, -9, 9)]), "tclist": lambda: ListConfig(["5"], element_type=str), "mixlist": lambda: [3, "zz"],
        "dict": lambda: {"a": sx.int(name, -9, 9)}, "idict": lambda: {1: sx.int(name, -9, 9)}, "sdict": lambda: {"a": "zz"}, "ddict": lambda: {"a": {1: 2}},
        "vdict": lambda: {"v": sx.int(name, -9, 9)}, "cdict": lambda: OmegaConf.create({"a": sx.int(name, -9, 9)}), "empty": lambda: {}, "eml": lambda: [],
        "tcdict": lambda: DictConfig({"a": "5"}, element_type=str, key_type=str), "icfg": lambda: OmegaConf.structured(Inner(v=3)), "ocfg": lambda: OmegaConf.structured(Other),
    }[k]()


LOPS = ("set0", "setneg", "append", "insert", "slice", "extend", "iadd", "whole", "wholecfg", "merge", "mergecfg", "upd0", "upd", "ctor")
DOPS = ("setitem", "setattr", "setdefault", "dupdate", "whole", "wholecfg", "merge", "mergeself", "upd", "updkey", "ctor", "unsafe")


def run_list(cfg, f, op, v):
    c = cfg[f]
    if op == "set0":
        c[0] = v
    elif op == "setneg":
        c[-1] = v
    elif op == "append":
        c.append(v)
    elif op == "insert":
        c.insert(1, v)
    elif op == "slice":
        c[0:1] = [v]
    elif op == "extend":
        c.extend([v])
    elif op == "iadd":
        cfg[f] += [v]
    elif op == "whole":
        cfg[f] = [v]
    elif op == "wholecfg":
        cfg[f] = ListConfig([v], flags={"allow_objects": False})
    elif op == "merge":
        cfg.merge_with({f: [v]})
    elif op == "mergecfg":
        cfg.merge_with(OmegaConf.create({f: [v]}))
    elif op == "upd0":
        OmegaConf.update(cfg, f + ".0", v, merge=False)
    elif op == "upd":
        OmegaConf.update(cfg, f, [v])
    else:
        return OmegaConf.structured(S(**{f: [v]}))
    return cfg


POS = {"set0": 0, "setneg": 1, "append": 2, "insert": 1, "slice": 0, "extend": 2, "iadd": 2, "upd0": 0}


def elements(sx):
    """One element inserted into a typed list."""
    f = sx.choice("field", sx.p["fields"])
    op = sx.choice("op", sx.p["ops"])
    v = value(sx, "v")
    if op in ("wholecfg", "mergecfg") and (isinstance(v, str) and v == "${li}"):
        sx.stop()
    cfg = OmegaConf.structured(S)
    before = snap(cfg)
    r = sx.attempt(lambda: run_list(cfg, f, op, v))
    sx.observe("r", (f, op, r.kind))
    judge(sx, f, HINT[f][1], op, r, cfg, before, v, op, lambda c: c[f][POS.get(op, 0)])


def judge(sx, f, hint, op, r, cfg, before, v, tag, got):
    c = r.value if r.ok and r.value is not None else cfg
    sx.prove(well(c._get_node(f), HINT[f]), "every element has the declared type: " + tag)
    sx.prove(keys_ok(c), "links: " + tag)
    kind, exp = ref(sx, hint, v)
    if kind == BAD:
        sx.prove(r.isa(ValidationError, OmegaConfBaseException), "an element that does not convert is rejected: " + tag)
    elif kind == "ok" and type(hint) is tuple and hint[0] in ("list", "dict") and op in ("merge", "mergecfg", "mergeself", "wholecfg", "unsafe", "upd"):
        pass  # nodes of a config are not converted inside a new nested element (they must have the type): only soundness is claimed
    elif kind == "ok":
        sx.prove(r.ok, "an element that converts is accepted: " + tag)
        g = got(c)
        if type(exp) is tuple:
            g = OmegaConf.get_type(g), OmegaConf.to_container(g)
        g = OmegaConf.to_container(g) if isinstance(g, (ListConfig, DictConfig)) else g
        sx.prove(sx.eq(g, exp), "the element read back is the documented conversion: " + tag)
    if not r.ok and op not in ("extend", "ctor", "dupdate", "merge", "mergecfg", "mergeself", "unsafe", "upd", "iadd"):
        sx.prove(sx.eq(snap(cfg), before), "a rejected element changes nothing: " + tag)


def key_of(sx, f):
    k = sx.choice("key", ("a", "new", 1, 0, True, 2, 1.5, 2.0, b"q", Color.RED, Color.BLUE, "RED", "BLUE", "PINK", Size.S, None, (1,)))
    return k


def key_ref(kt, k):
    """Normalised key or None when it is of another type."""
    if kt is Color:
        if isinstance(k, Color):
            return k
        if isinstance(k, str):
            return Color[k] if k in ("RED", "BLUE") else None
        if isinstance(k, int) and not isinstance(k, bool):
            return Color(k) if k in (1, 2) else None
        return None
    if kt is bool:
        return bool(k) if isinstance(k, (bool, int, float)) and k in (0, 1) else None
    if kt is int and isinstance(k, bool):
        return "?"
    return k if isinstance(k, kt) else None


def run_dict(cfg, f, op, k, v):
    c = cfg[f]
    if op == "setitem":
        c[k] = v
    elif op == "setattr":
        setattr(c, k, v)
    elif op == "setdefault":
        c.setdefault(k, v)
    elif op == "dupdate":
        c.update({k: v})
    elif op == "whole":
        cfg[f] = {k: v}
    elif op == "wholecfg":
        cfg[f] = DictConfig({k: v})
    elif op == "merge":
        cfg.merge_with({f: {k: v}})
    elif op == "mergeself":
        c.merge_with(OmegaConf.create({k: v}))
    elif op == "unsafe":
        return OmegaConf.unsafe_merge(cfg, {f: {k: v}})
    elif op == "upd":
        OmegaConf.update(cfg, f, {k: v})
    elif op == "updkey":
        OmegaConf.update(cfg, f + "." + k, v, merge=False)
    else:
        return OmegaConf.structured(S(**{f: {k: v}}))
    return cfg


def dict_elements(sx):
    """One value set in a typed dict, under a key of the right type."""
    f = sx.choice("field", sx.p["fields"])
    op = sx.choice("op", sx.p["ops"])
    old = next(iter(getattr(S(), f)))
    k = old if sx.flag("old") and op not in ("setdefault",) else {str: "new", int: 7, Color: Color.BLUE, bool: False, float: 2.5, bytes: b"n"}[HINT[f][1]]
    if op in ("setattr", "updkey") and not isinstance(k, str):
        sx.stop()
    v = value(sx, "v")
    cfg = OmegaConf.structured(S)
    before = snap(cfg)
    r = sx.attempt(lambda: run_dict(cfg, f, op, k, v))
    sx.observe("r", (f, op, r.kind))
    judge(sx, f, HINT[f][2], op, r, cfg, before, v, op, lambda c: c[f][k])


def keys(sx):
    """Keys of all types."""
    f = sx.choice("field", sx.p["fields"])
    op = sx.choice("op", ("setitem", "setdefault", "dupdate", "whole", "merge", "upd", "ctor"))
    kt, vt = HINT[f][1], HINT[f][2]
    k = key_of(sx, f)
    v = {int: 5, ("opt", float): 2.5, bool: False, str: "z"}[vt]
    cfg = OmegaConf.structured(S)
    before = snap(cfg)
    r = sx.attempt(lambda: run_dict(cfg, f, op, k, v))
    sx.observe("r", (f, op, r.kind))
    c = r.value if r.ok else cfg
    sx.prove(sx.Or(r.ok, sx.Not(op in ("setitem", "setdefault")), sx.eq(snap(cfg), before)), "a rejected key changes nothing")
    nk = key_ref(kt, k)
    if nk == "?":
        sx.stop()
    sx.prove(well(c._get_node(f), HINT[f]), "every key and element has the declared type: " + op)
    if nk is None:
        sx.prove(not r.ok, "a key of another type is rejected: " + op)
    else:
        sx.prove(r.ok, "a key of the declared type is accepted: " + op)
        sx.prove(nk in list(c[f].keys()), "the key is there: " + op)


def whole(sx):
    """Assigning or merging a whole container of any kind to a typed container field."""
    f = sx.choice("field", sx.p["fields"])
    op = sx.choice("op", ("setitem", "setattr", "merge", "mergecfg", "upd", "updrep", "ctor", "node"))
    v = value(sx, "v")
    cfg = OmegaConf.structured(S)
    before = snap(cfg)

    def run():
        if op == "setitem":
            cfg[f] = v
        elif op == "setattr":
            setattr(cfg, f, v)
        elif op == "merge":
            cfg.merge_with({f: v})
        elif op == "mergecfg":
            cfg.merge_with(OmegaConf.create({f: v}))
        elif op == "upd":
            OmegaConf.update(cfg, f, v)
        elif op == "updrep":
            OmegaConf.update(cfg, f, v, merge=False)
        elif op == "node":
            cfg._get_node(f)._set_value(v)
        else:
            return OmegaConf.structured(S(**{f: v}))
        return cfg
    if op == "node" and isinstance(v, (StringNode, IntegerNode, FloatNode)):
        sx.stop()
    r = sx.attempt(run)
    sx.observe("r", (f, op, r.kind))
    c = r.value if r.ok else cfg
    n = c._get_node(f)
    sx.prove(isinstance(n, (ListConfig if HINT[f][0] == "list" else DictConfig)), "the field stays a container of its kind: " + op)
    sx.prove(well(n, HINT[f]), "every element has the declared type: whole " + op)
    sx.prove(not n._is_none(), "a required container never becomes None: " + op)
    sx.prove(keys_ok(c), "links: whole " + op)
    kind, exp = ref(sx, HINT[f], v)
    if kind == BAD and not isinstance(v, (ListConfig, DictConfig)) and not isinstance(v, (Inner, Other)) and not isinstance(v, type):
        sx.prove(not r.ok, "a container with an element that does not convert is rejected: " + op)
    elif kind == "ok" and op not in ("merge", "mergecfg", "upd"):
        sx.prove(r.ok and sx.eq(OmegaConf.to_container(n), exp), "a container of convertible elements is accepted: " + op)
    if not r.ok and op in ("setitem", "setattr", "updrep"):
        sx.prove(sx.eq(snap(cfg), before), "a rejected container changes nothing: " + op)

SRC = {"int": int, "bool": bool, "float": float, "str": str, "bytes": bytes, "color": Color, "optint": Optional[int], "optstr": Optional[str],
       "u": Union[int, str], "lint": List[int], "lstr": List[str], "dint": Dict[str, int], "inner": Inner, "sub": Sub, "other": Other, "any": Any}
SVALS = {"int": (3,), "bool": (True,), "float": (1.5, 2.0), "str": ("zz", "5"), "bytes": (b"z",), "color": (Color.RED,), "optint": (None, 3), "optstr": (None, "zz"), "u": (3, "zz"),
         "lint": ([3], ["???"], ["${x}"]), "lstr": (["zz"], ["???"], ["${x}"]), "dint": ({"k": 3}, {"k": "???"}), "inner": (Inner(),), "sub": (Sub(),), "other": (Other(),), "any": (3, "zz", True, None)}


def sources(sx):
    """A container of another declared type is given to a typed field, then one of the elements it brought is assigned."""
    f = sx.choice("field", sx.p["fields"])
    st = sx.choice("source", sx.p["sources"])
    vals = SVALS[st] + ("???", "${x}")
    v = sx.choice("v", vals)
    op = sx.choice("op", sx.p["ops"])
    is_list = HINT[f][0] == "list"
    if is_list:
        src = ListConfig([v], element_type=SRC[st], ref_type=List[SRC[st]])
    else:
        k = next(iter(getattr(S(), f))) if sx.flag("old") else {str: "new", int: 7, Color: Color.BLUE, bool: False, float: 2.5, bytes: b"n"}[HINT[f][1]]
        src = DictConfig({k: v}, element_type=SRC[st], key_type=HINT[f][1], ref_type=Dict[HINT[f][1], SRC[st]])
    cfg = OmegaConf.structured(S)

    def run():
        if op == "set":
            cfg[f] = src
        elif op == "merge":
            cfg.merge_with({f: src})
        elif op == "self":
            cfg[f].merge_with(src)
        elif op == "Merge":
            return OmegaConf.merge(cfg, {f: src})
        elif op == "upd":
            OmegaConf.update(cfg, f, src, merge=False)
        elif op == "ctor":
            return OmegaConf.structured(S(**{f: src}))
        elif op == "extend":
            for n in list(src._content) if is_list else ():
                cfg[f].append(n)
            for kk, n in src._content.items() if not is_list else ():
                cfg[f][kk] = n
        return cfg
    r = sx.attempt(run)
    sx.observe("r", (f, st, op, r.kind))
    if not r.ok:
        sx.stop()
    c = r.value
    n = c._get_node(f)
    sx.prove(well(n, HINT[f]), "every element has the declared type: from " + op)
    w = scalar(sx, "w", sx.choice("w.kind", sx.p["assigned"]))
    elem = n._content[-1] if is_list else n._content[k]
    target = c[f]
    deep = sx.flag("deep")
    if deep:
        if not isinstance(elem, (ListConfig, DictConfig)) or not isinstance(elem._content, (list, dict)) or not elem._content:
            sx.stop()
        kk = 0 if isinstance(elem, ListConfig) else next(iter(elem._content))
        r2 = sx.attempt(lambda: elem.__setitem__(kk, w))
    elif is_list:
        r2 = sx.attempt(lambda: target.__setitem__(-1, w))
    else:
        r2 = sx.attempt(lambda: target.__setitem__(k, w))
    sx.observe("r2", r2.kind)
    sx.prove(well(n, HINT[f]), "every element has the declared type after assigning one that came from another container: " + op)
    sx.prove(keys_ok(c), "links: from " + op)


SV = ("int", "bool", "float", "num", "none", "missing", "interp", "bytes", "color", "cname", "size", "snode", "inode", "fnode")
CV = ("list", "slist", "nlist", "blist", "llist", "mixlist", "clist", "tclist", "dict", "idict", "sdict", "ddict", "vdict", "cdict", "tcdict", "empty", "eml")
TV = ("inner", "sub", "other", "cls", "dcls", "icfg", "ocfg")
HARNESSES = [
    ("list_scalar", elements, {"quick": {"fields": ("li", "lo", "lb", "lf", "ls", "lc", "ly", "lu", "tu"), "ops": ("set0", "append", "insert", "slice", "whole", "merge", "upd0"), "values": SV, "slen": 1},
                               "thorough": {"fields": ("li", "lo", "lb", "lf", "ls", "lc", "ly", "lu", "tu"), "ops": LOPS, "values": SV + ("list", "dict", "inner"), "slen": 3}},
     ["an element that does not convert is rejected: append", "the element read back is the documented conversion: insert"]),
    ("list_nested", elements, {"quick": {"fields": ("ll", "ld", "ln", "lon"), "ops": ("set0", "append", "slice", "whole", "mergecfg"), "values": CV + TV + ("int", "none", "missing"), "slen": 1},
                               "thorough": {"fields": ("ll", "ld", "ln", "lon"), "ops": LOPS, "values": CV + TV + SV, "slen": 1}},
     ["an element that converts is accepted: append"]),
    ("dict_scalar", dict_elements, {"quick": {"fields": ("di", "do", "dkc", "dkb", "dky"), "ops": ("setitem", "dupdate", "whole", "merge", "mergeself", "setattr"), "values": SV, "slen": 1},
                                    "thorough": {"fields": ("di", "do", "dki", "dkc", "dkb", "dkf", "dky"), "ops": DOPS, "values": SV + ("list", "dict", "inner"), "slen": 3}},
     ["an element that does not convert is rejected: setitem", "the element read back is the documented conversion: merge"]),
    ("dict_nested", dict_elements, {"quick": {"fields": ("dl", "dd", "dn"), "ops": ("setitem", "whole", "merge", "mergeself", "updkey"), "values": CV + TV + ("int", "none", "missing"), "slen": 1},
                                    "thorough": {"fields": ("dl", "dd", "dn"), "ops": DOPS, "values": CV + TV + SV, "slen": 1}},
     ["an element that converts is accepted: setitem"]),
    ("keys", keys, {"quick": {"fields": ("di", "do", "dki", "dkc", "dkb", "dkf", "dky")}, "thorough": {"fields": ("di", "do", "dki", "dkc", "dkb", "dkf", "dky")}},
     ["a key of another type is rejected: setitem", "a key of the declared type is accepted: merge"]),
    ("whole", whole, {"quick": {"fields": ("li", "lo", "ls", "ll", "ln", "di", "dki", "dl", "dd", "dn"), "values": CV + TV + ("int", "none", "missing"), "slen": 1},
                      "thorough": {"fields": tuple(HINT), "values": CV + TV + ("int", "none", "missing", "num", "interp"), "slen": 1}},
     ["a container of convertible elements is accepted: setitem", "a container with an element that does not convert is rejected: setattr"]),
    ("sources", sources, {"quick": {"fields": ("li", "lo", "lb", "ln", "ll", "di", "dn"), "sources": ("int", "bool", "str", "optstr", "lstr", "inner", "any"), "ops": ("set", "merge", "extend"), "assigned": ("int", "bool", "snum", "none")},
                          "thorough": {"fields": tuple(HINT), "sources": tuple(SRC), "ops": ("set", "merge", "self", "Merge", "upd", "ctor", "extend")}},
     ["every element has the declared type after assigning one that came from another container: set"]),
]
BOUNDS = ("23 typed container fields (lists, dicts with every key type, nested, of structured configs, unions, optional elements); one inserting operation of up to 14 kinds "
          "with symbolic ints (-99..99), bools, strings up to slen over '01.-x', and constants of every other kind, typed nodes, containers and structured configs")
