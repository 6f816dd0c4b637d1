"""Errors name the full path of the node they are about."""
import threading
from dataclasses import dataclass, field
from enum import Enum
from typing import Any, Dict, List

from omegaconf import MISSING, DictConfig, ListConfig, OmegaConf
from omegaconf.errors import (ConfigAttributeError, ConfigIndexError, ConfigKeyError, ConfigTypeError, ConfigValueError, InterpolationKeyError, InterpolationResolutionError, InterpolationToMissingValueError, InterpolationValidationError, KeyValidationError, MissingMandatoryValue,
                              OmegaConfBaseException, ReadonlyConfigError, UnsupportedInterpolationType, UnsupportedValueType, ValidationError)

from .p12 import Color, N, T, TPATHS, split
from .p12 import walk as down


class Tag(Enum):
    T = "x-y"


@dataclass
class Box:
    sub: Any = None
    other: int = 1


@dataclass
class S:
    i: int = 1
    m: int = MISSING
    x: int = "${nope}"  # type: ignore
    l: List[int] = field(default_factory=lambda: [1])


class Opaque:
    """Something no config can hold."""


O = Opaque()
LEVELS = {"dict": ("k", "k"), "list": (1, "[1]"), "struct": ("sub", "sub"), "int": (3, "3"), "enum": (Color.RED, "RED"), "tag": (Tag.T, "T"), "float": (1.5, "1.5"), "bool": (True, "True"), "bytes": (b"k", "b'k'"), "dots": ("a.b", "a.b"), "dollar": ("$KEY", "$KEY")}


def wrap(kind, x):
    if kind == "list":
        return ListConfig([0, x])
    if kind == "struct":
        return OmegaConf.structured(Box(sub=x))
    k = LEVELS[kind][0]
    return DictConfig({k: x}, key_type=type(k)) if kind in ("int", "enum", "tag", "float") else DictConfig({k: x})


def text(steps, key=None):
    """The path as text: steps are (is list, text)."""
    out = ""
    for is_list, t in steps:
        out += ("[" + t + "]") if is_list else ("." + t if out != "" else t)
    return out


def tree(sx, target, depths):
    """(root, the node holding the target content, steps to it)."""
    levels = sx.choice("levels", depths)
    x, steps = target if isinstance(target, (DictConfig, ListConfig)) else OmegaConf.create(target), []
    for kind in reversed(levels):
        x = wrap(kind, x)
        steps.insert(0, (kind == "list", keytext(LEVELS[kind][0])))
    n = x
    for kind in levels:
        n = n._get_node(LEVELS[kind][0])
    return x, n, steps


def keytext(k):
    return k.name if isinstance(k, Enum) else str(k)


def check(sx, r, classes, parent, steps, key, is_list, what="an error"):
    sx.observe("r", r.kind)
    sx.prove(not r.ok, "the operation fails")
    e = r.exc
    if isinstance(getattr(e, "key", None), Color) and not isinstance(key, Color):  # the key after its conversion is as good
        sx.prove(key == e.key.name or key == e.key.value, "the key is the one given")
        key = e.key
    sx.prove(isinstance(e, OmegaConfBaseException) and isinstance(e, classes), "the error has the documented class")
    if key is None:
        sx.prove(e.full_key == text(steps), "the full path of the node is reported")
    else:
        sx.prove(e.full_key == text(steps + [(is_list, keytext(key))]), "the full path of the key is reported")
    sx.prove(e.key is key or type(e.key) is type(key) and e.key == key, "the key is reported")
    sx.prove(e.parent_node is parent, "the parent node is reported")


TARGETS = {
    "dict": lambda: {"a": 1, "m": "???", "x": "${nope}", "n": None, "u": "${oc.nope:1}", "mm": "${.m}"},
    "struct": lambda: OmegaConf.structured(S),
    "int": lambda: DictConfig({1: 1, 2: "???", 3: "${nope}"}, key_type=int, element_type=int),
    "enum": lambda: DictConfig({Color.RED: "???"}, key_type=Color, element_type=int),
    "list": lambda: [1, "???", "${nope}"],
    "ilist": lambda: ListConfig([1, 2, "???"], element_type=int),
}


def pick_key(sx, T):
    """A key of any kind; for dicts, symbolic text over the letters of their keys."""
    k = sx.choice("key", ("str", "int", "enum", "bool", "none"))
    if k == "str":
        return sx.str("s", 1, 2, sx.p["alphabet"])
    if k == "int":
        return sx.int("i", -5, 5)
    return {"enum": Color.BLUE, "bool": True, "none": None}[k]


def norm(T, key):
    """(acceptable, stored key) for a dict target."""
    if T == "int":
        return isinstance(key, int) and not isinstance(key, Enum), key
    if T == "enum":
        if isinstance(key, Color):
            return True, key
        if isinstance(key, str):
            return (True, Color[key]) if key in ("RED", "BLUE") else (False, key)
        if isinstance(key, int) and not isinstance(key, bool):
            return (True, Color(key)) if key in (1, 2) else (False, key)
        return False, key
    return isinstance(key, (str, int, bool, float, bytes, Enum)), key


def read(sx):
    """Reading: by key, by attribute, by get, by select."""
    T = sx.choice("T", tuple(TARGETS))
    root, t, steps = tree(sx, TARGETS[T](), sx.p["depths"])
    how = sx.choice("how", ("item", "attr", "get", "getd", "pop"))
    flag = sx.choice("flag", ("none", "struct"))
    if flag == "struct":
        OmegaConf.set_struct(root, True)
    key = pick_key(sx, T)
    is_list = T in ("list", "ilist")
    if how == "attr" and not isinstance(key, str):
        sx.stop()
    content = t._content
    op = {"item": lambda: t[key], "attr": lambda: getattr(t, key), "get": lambda: t.get(key), "getd": lambda: t.get(key, 5), "pop": lambda: t.pop(key)}[how]
    if is_list:
        if how == "attr":
            if key.isdigit():
                sx.stop()
            return check(sx, sx.attempt(op), ConfigAttributeError, t, steps, key, True)
        if not isinstance(key, int):
            if how == "getd" and key is None:
                pass
            return check(sx, sx.attempt(op), (KeyValidationError, ConfigTypeError), t, steps, key, True)
        if key < -len(content) or key >= len(content):
            if how == "pop" or how in ("item", "get", "getd"):
                return check(sx, sx.attempt(op), ConfigIndexError, t, steps, key, True)
        v = content[key]._value()
        if v == "???":
            if how in ("getd", "get", "pop"):
                r = sx.attempt(op)
                sx.prove(r.ok, "missing values have defaults")
                return
            return check(sx, sx.attempt(op), MissingMandatoryValue, t, steps, key, True)
        if isinstance(v, str):
            return check(sx, sx.attempt(op), InterpolationResolutionError, t, steps, key, True)
        r = sx.attempt(op)
        sx.prove(r.ok, "values are read")
        return
    if how == "pop" and (flag == "struct" or T == "struct"):
        return check(sx, sx.attempt(op), ConfigTypeError, t, steps, key, False)
    good, k2 = norm(T, key)
    if not good:
        if how == "attr":
            return check(sx, sx.attempt(op), ConfigAttributeError, t, steps, key, False)
        return check(sx, sx.attempt(op), KeyValidationError, t, steps, key, False)
    if k2 not in content:
        if how == "getd" or how == "get":
            r = sx.attempt(op)
            sx.prove(r.ok, "absent keys have defaults")
            return
        return check(sx, sx.attempt(op), ConfigAttributeError if how == "attr" else ConfigKeyError, t, steps, k2 if how == "pop" else key, False)
    v = content[k2]._value()
    if isinstance(v, str) and v == "???" or isinstance(v, str) and v == "${.m}":
        if how in ("get", "getd"):
            r = sx.attempt(op)
            if v == "???":
                sx.prove(r.ok, "missing values have defaults")
                return
        if v == "???":
            return check(sx, sx.attempt(op), MissingMandatoryValue, t, steps, k2 if how == "pop" else key, False)
        return check(sx, sx.attempt(op), InterpolationResolutionError, t, steps, k2, False)
    if isinstance(v, str) and v.startswith("${"):
        cls = UnsupportedInterpolationType if "oc" in v else InterpolationResolutionError
        return check(sx, sx.attempt(op), cls, t, steps, k2, False)
    r = sx.attempt(op)
    sx.prove(r.ok, "values are read")


def write(sx):
    """Setting and deleting."""
    T = sx.choice("T", tuple(TARGETS))
    root, t, steps = tree(sx, TARGETS[T](), sx.p["depths"])
    how = sx.choice("how", ("item", "attr", "del", "delattr", "update", "setdefault", "append", "insert", "extend", "oupdate", "merge"))
    flag = sx.choice("flag", ("none", "struct", "readonly"))
    if flag == "struct":
        OmegaConf.set_struct(root, True)
    if flag == "readonly":
        OmegaConf.set_readonly(root, True)
    key = pick_key(sx, T)
    is_list = T in ("list", "ilist")
    typed = T in ("int", "enum", "ilist")
    value = sx.choice("value", ("opaque", "text", "good"))
    v = {"opaque": O, "text": "q", "good": 1}[value]
    if (how in ("attr", "delattr", "oupdate") and not isinstance(key, str)) or (is_list and how in ("update", "setdefault", "delattr", "merge")) or (not is_list and how in ("append", "insert", "extend")):
        sx.stop()
    if how == "oupdate" and is_list:
        key = sx.choice("ok", ("a", "0", "7", "a.b", "0.b"))
    op = {"item": lambda: t.__setitem__(key, v), "attr": lambda: setattr(t, key, v), "del": lambda: t.__delitem__(key), "delattr": lambda: delattr(t, key), "update": lambda: t.update({key: v}), "setdefault": lambda: t.setdefault(key, v),
          "append": lambda: t.append(v), "insert": lambda: t.insert(key, v), "extend": lambda: t.extend([1, v]), "oupdate": lambda: OmegaConf.update(t, key, v), "merge": lambda: t.merge_with({key: v})}[how]
    n = len(t._content)
    deleting = how in ("del", "delattr")
    if is_list:
        if how == "attr":
            return check(sx, sx.attempt(op), ConfigAttributeError, t, steps, key, True)
        if how in ("append", "extend"):
            if flag == "readonly":
                return check(sx, sx.attempt(op), ReadonlyConfigError, t, steps, n, True)
            cls = UnsupportedValueType if value == "opaque" and T == "list" else ValidationError if value == "opaque" or value == "text" and T == "ilist" else None
            if cls is None:
                sx.prove(sx.attempt(op).ok, "valid changes succeed")
                return
            return check(sx, sx.attempt(op), cls, t, steps, n + (how == "extend"), True)
        if how == "insert":
            if flag == "readonly":
                return check(sx, sx.attempt(op), ReadonlyConfigError, t, steps, key, True)
            if not isinstance(key, int):
                return check(sx, sx.attempt(op), (ConfigTypeError, KeyValidationError), t, steps, key, True)
            cls = UnsupportedValueType if value == "opaque" and T == "list" else ValidationError if value == "opaque" or value == "text" and T == "ilist" else None
            if cls is None:
                sx.prove(sx.attempt(op).ok, "valid changes succeed")
                return
            at = sx.ite(key < 0, sx.ite(key + n < 0, 0, key + n), sx.ite(key > n, n, key))
            r = sx.attempt(op)
            sx.observe("r", r.kind)
            sx.prove(not r.ok and isinstance(r.exc, cls), "the error has the documented class")
            sx.prove(r.exc.full_key == text(steps + [(True, str(at))]), "the full path of the key is reported")
            sx.prove(r.exc.parent_node is t, "the parent node is reported")
            return
        if how == "oupdate":
            if key in ("a", "a.b"):
                return check(sx, sx.attempt(op), (ReadonlyConfigError, ConfigTypeError, KeyValidationError), t, steps, "a", True)
            if flag == "readonly":
                return check(sx, sx.attempt(op), (ReadonlyConfigError, ConfigIndexError), t, steps, 7 if key == "7" else 0, True)
            if key == "7":
                return check(sx, sx.attempt(op), ConfigIndexError, t, steps, 7, True)
            if key == "0":
                cls = UnsupportedValueType if value == "opaque" and T == "list" else ValidationError if value == "opaque" or value == "text" and T == "ilist" else None
                if cls is None:
                    sx.prove(sx.attempt(op).ok, "valid changes succeed")
                    return
                return check(sx, sx.attempt(op), cls, t, steps, 0, True)
            if flag == "struct" and T == "list":
                sx.stop()  # the new dict has no b
            r = sx.attempt(op)  # 0.b replaces the value with a dict, if the list can hold it
            sx.observe("r", r.kind)
            if T == "ilist":
                sx.prove(not r.ok and isinstance(r.exc, ValidationError) and r.exc.full_key == text(steps + [(True, "0")]) and r.exc.parent_node is t, "the full path of the key is reported")
            elif value == "opaque":
                sx.prove(not r.ok and isinstance(r.exc, UnsupportedValueType) and r.exc.full_key == text(steps + [(True, "0"), (False, "b")]), "the full path of the key is reported")
            else:
                sx.prove(r.ok, "valid changes succeed")
            return
        if not isinstance(key, int):
            return check(sx, sx.attempt(op), (KeyValidationError, ReadonlyConfigError), t, steps, key, True)
        if flag == "readonly":
            return check(sx, sx.attempt(op), (ReadonlyConfigError, ConfigIndexError), t, steps, key, True)
        if key < -n or key >= n:
            return check(sx, sx.attempt(op), ConfigIndexError, t, steps, key, True)
        cls = None if deleting else UnsupportedValueType if value == "opaque" and T == "list" else ValidationError if value == "opaque" or value == "text" and T == "ilist" else None
        if cls is None:
            sx.prove(sx.attempt(op).ok, "valid changes succeed")
            return
        r = sx.attempt(op)
        if key < 0 and not r.ok and getattr(r.exc, "key", None) == key + n:
            key = key + n  # the index counted from the start is as good
        return check(sx, r, cls, t, steps, key, True)
    good, k2 = norm(T, key)
    if not good and how != "delattr":
        if how == "merge" and key is None or how in ("merge", "setdefault", "update") and isinstance(key, (Opaque,)):
            sx.stop()
        r = sx.attempt(op)
        if how == "merge":  # the key may already be wrong for the config made of the argument
            sx.prove(not r.ok and isinstance(r.exc, (KeyValidationError, UnsupportedValueType, ReadonlyConfigError)), "the error has the documented class")
            return
        return check(sx, r, KeyValidationError, t, steps, key, False)
    if how in ("merge",) and v is O:
        r = sx.attempt(op)  # the argument cannot be converted to a config
        return sx.prove(not r.ok and isinstance(r.exc, UnsupportedValueType) and r.exc.full_key == keytext(key) and r.exc.key == key, "the full path of the key is reported")
    have = k2 in t._content
    if deleting:
        if flag == "readonly":
            return check(sx, sx.attempt(op), ReadonlyConfigError, t, steps, key if how == "delattr" else k2, False)
        if how == "del" and (flag == "struct" or T == "struct"):
            return check(sx, sx.attempt(op), ConfigTypeError, t, steps, k2, False)
        if how == "delattr":
            if key in t._content:
                sx.stop()  # see P05
            return check(sx, sx.attempt(op), ConfigAttributeError, t, steps, key, False)
        if not have:
            return check(sx, sx.attempt(op), ConfigKeyError, t, steps, k2, False)
        sx.prove(sx.attempt(op).ok, "valid changes succeed")
        return
    if how == "setdefault" and have:
        if isinstance(t._content[k2]._value(), str):
            sx.stop()  # missing values are set
        r = sx.attempt(op)
        if not r.ok:
            check(sx, r, (MissingMandatoryValue, InterpolationResolutionError), t, steps, key, False)
        return
    r = sx.attempt(op)
    sx.observe("r", r.kind)
    if flag == "readonly":
        return check(sx, r, (ReadonlyConfigError, ConfigAttributeError, ConfigKeyError), t, steps, key, False)
    if not have and (flag == "struct" or T == "struct"):
        return check(sx, r, ConfigKeyError if how in ("item", "setdefault") else (ConfigAttributeError, ConfigKeyError), t, steps, key, False)
    bad = value == "opaque" or value == "text" and (typed or T == "struct" and k2 != "l") or T == "struct" and k2 == "l"
    if not bad:
        sx.prove(r.ok, "valid changes succeed")
        return
    check(sx, r, ValidationError, t, steps, key, False)


def convert(sx):
    """Errors of conversions of a whole config name the nested node."""
    bad = sx.choice("bad", ("missing", "inter", "tomissing", "type", "resolver", "parse"))
    root, t, steps = tree(sx, {"p": [0, {"q": 1}]}, sx.p["depths"])
    where = sx.choice("where", ("p", "p1", "pq"))
    text_ = {"missing": "???", "inter": "${nope}", "tomissing": "${miss}", "type": "${oc.env:}", "resolver": "${oc.decode:'['}", "parse": "${oc.nope:}"}[bad]
    parent, key = {"p": (t, "p"), "p1": (t.p, 1), "pq": (t.p[1], "q")}[where]
    steps = steps + {"p": [], "p1": [(False, "p")], "pq": [(False, "p"), (True, "1")]}[where]
    parent[key] = text_
    if bad == "tomissing":
        if not isinstance(root, DictConfig) or OmegaConf.get_type(root) is Box:
            sx.stop()
        if root._metadata.key_type is not Any:
            sx.stop()
        root["miss"] = "???"
    how = sx.choice("how", ("container", "object", "throw", "yaml", "resolve", "iter", "getall", "select", "in"))
    names = [k[1] for k in steps] + [str(key)]
    op = {
        "container": lambda: OmegaConf.to_container(root, resolve=True),
        "object": lambda: OmegaConf.to_object(root),
        "throw": lambda: OmegaConf.to_container(root, throw_on_missing=True),
        "yaml": lambda: OmegaConf.to_yaml(root, resolve=True),
        "resolve": lambda: OmegaConf.resolve(root),
        "iter": lambda: list(parent) if isinstance(parent, ListConfig) else list(parent.values()),
        "getall": lambda: parent[key],
        "select": lambda: OmegaConf.select(parent, str(key), throw_on_missing=True),
        "in": lambda: 77 in parent if isinstance(parent, ListConfig) else parent.pop(key),
    }[how]
    before = OmegaConf.to_container(root)
    r = sx.attempt(op)
    sx.observe("r", r.kind)
    missing_ok = how in ("container", "yaml", "resolve") or how == "in" and isinstance(parent, ListConfig)
    if bad == "missing" and missing_ok or how == "throw" and bad not in ("missing",) or bad == "tomissing" and how == "resolve" or bad == "tomissing" and how in ("throw",):
        if bad == "tomissing" and how == "throw":
            return  # the target itself is missing
        sx.prove(r.ok, "conversions that need no value succeed")
        return
    if bad == "tomissing" and how == "select":
        sx.prove(not r.ok and isinstance(r.exc, OmegaConfBaseException), "the error has the documented class")
        return
    if bad == "tomissing" and how == "object":
        pass
    sx.prove(not r.ok, "the operation fails")
    e = r.exc
    cls = {"missing": MissingMandatoryValue, "inter": InterpolationResolutionError, "tomissing": (InterpolationToMissingValueError, MissingMandatoryValue), "type": InterpolationResolutionError, "resolver": InterpolationResolutionError, "parse": UnsupportedInterpolationType}[bad]
    sx.prove(isinstance(e, OmegaConfBaseException) and isinstance(e, cls), "the error has the documented class")
    if bad == "tomissing" and how in ("object",) and isinstance(e, MissingMandatoryValue):
        return
    sx.prove(e.full_key == text(steps + [(isinstance(parent, ListConfig), str(key))]), "the full path of the nested node is reported")
    sx.prove(("full_key: " + e.full_key) in str(e), "the message has the full path")
    sx.prove(e.parent_node is parent and (e.key == key or how == "select" and e.key == str(key)), "the parent node and the key are reported")
    if how != "resolve":
        sx.prove(OmegaConf.to_container(root) == before, "the config stays as it was")


def construct(sx):
    """Errors of creating and merging configs name the nested node of the content given."""
    depth = sx.choice("levels", (("dict",), ("list",), ("dict", "list"), ("list", "dict"), ("dict", "dict"), ("list", "list"), ("dict", "list", "dict"), ("int", "dict"), ("enum", "list"), ("tag", "dict"), ("bytes",), ("dots", "list")))
    how = sx.choice("how", ("create", "assign", "merge", "init", "update", "append"))
    x, steps = O, []
    for kind in reversed(depth):
        k = LEVELS[kind][0]
        x = [0, x] if kind == "list" else {k: x}
        steps.insert(0, (kind == "list", keytext(k)))
    root = OmegaConf.create({"z": {"y": 1, "l": []}})
    op = {"create": lambda: OmegaConf.create(x), "assign": lambda: root.z.__setitem__("y", x), "merge": lambda: OmegaConf.merge(root, {"z": x}), "init": lambda: (ListConfig if isinstance(x, list) else DictConfig)(x), "update": lambda: OmegaConf.update(root, "z.y", x), "append": lambda: root.z.l.append(x)}[how]
    before = OmegaConf.to_container(root)
    r = sx.attempt(op)
    sx.observe("r", r.kind)
    sx.prove(not r.ok and isinstance(r.exc, UnsupportedValueType), "values that are not supported raise")
    pre = {"create": [], "init": [], "merge": [(False, "z")], "assign": [(False, "z"), (False, "y")], "update": [(False, "z"), (False, "y")], "append": [(False, "z"), (False, "l"), (True, "0")]}[how]
    sx.prove(r.exc.full_key == text(pre + steps) or r.exc.full_key == text(steps), "the full path of the value is reported")
    if how in ("create", "init"):
        sx.prove(r.exc.full_key == text(steps), "the full path in the new config is reported")
    sx.prove(r.exc.key == LEVELS[depth[-1]][0], "the key is reported")
    sx.prove(OmegaConf.to_container(root) == before, "the config stays as it was")


def mergeerr(sx):
    """Errors of merging into typed parts name the nested node."""
    root, t, steps = tree(sx, OmegaConf.structured(S), sx.p["depths"])
    what = sx.choice("what", ("i", "l", "l0", "new", "ro", "lmsg"))
    src = {"i": {"i": "q"}, "l": {"l": {"a": 1}}, "l0": {"l": ["q"]}, "new": {"zz": 1}, "ro": {"i": 5}, "lmsg": {"l": 3}}[what]
    if what == "ro":
        OmegaConf.set_readonly(t, True)
    how = sx.choice("how", ("merge_with", "merge", "update", "oupdate"))
    if how in ("merge", "oupdate") and what == "ro":
        sx.stop()
    if how in ("merge", "oupdate"):
        y, ks = src, [LEVELS[k][0] for k in sx.p["depths"][_index(sx.p["depths"], root, t)]]
        for k in reversed(ks):
            if k == 1:
                sx.stop()  # merging replaces lists
            y = {k: y}
    op = {"merge_with": lambda: t.merge_with(src), "merge": lambda: OmegaConf.merge(root, y), "update": lambda: t.update(src), "oupdate": lambda: root.merge_with(y)}[how]
    if how == "update" and what in ("l", "l0", "lmsg"):
        pass
    r = sx.attempt(op)
    sx.observe("r", r.kind)
    sx.prove(not r.ok, "the operation fails")
    cls = {"i": ValidationError, "l": (ValidationError, ConfigTypeError), "l0": ValidationError, "new": (ConfigAttributeError, ConfigKeyError), "ro": ReadonlyConfigError, "lmsg": ValidationError}[what]
    sx.prove(isinstance(r.exc, OmegaConfBaseException) and isinstance(r.exc, cls), "the error has the documented class")
    k = {"i": "i", "l": "l", "l0": "l", "new": "zz", "ro": "i", "lmsg": "l"}[what]
    full = text(steps + [(False, k)])
    ok = (full, full + "[0]", text([(False, "l"), (True, "0")])) if what == "l0" else (full,) if what != "ro" else (full, text(steps))
    sx.prove(r.exc.full_key in ok, "the full path of the nested node is reported")


def _index(depths, root, t):
    n, c = 0, t
    chain = []
    while c._get_parent() is not None:
        chain.insert(0, c._key())
        c = c._get_parent()
    for i, d in enumerate(depths):
        if [LEVELS[k][0] for k in d] == chain:
            return i
    raise AssertionError


class Picky(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


class PickyType(TypeError):
    def __init__(self, a, b):
        super().__init__(a, b)


class NoStr:
    def __repr__(self):
        return "nostr"

    def __deepcopy__(self, memo):
        raise RuntimeError("no copies")


def fails(exc):
    raise exc


def robust(sx):
    """Formatting an error never raises a different one."""
    what = sx.choice("what", ("lock", "nocopy", "picky", "pickytype", "unicode", "format", "template", "unhashable", "longkey", "none_dict", "none_list", "missing_dict", "missing_list", "nested_missing"))
    root, t, steps = tree(sx, OmegaConf.structured(S) if what in ("lock", "nocopy", "template", "format") else {"l": [3, 1, 2]}, sx.p["depths"])
    s = sx.choice("s", ("a", "$", "$KEY", "${", "{x}", "%s", "$1"))
    if what in ("lock", "nocopy"):
        v = threading.Lock() if what == "lock" else NoStr()
        check(sx, sx.attempt(lambda: t.__setitem__("zz", v)), ConfigKeyError, t, steps, "zz", False)
        check(sx, sx.attempt(lambda: setattr(t, "zz", v)), ConfigAttributeError, t, steps, "zz", False)
        check(sx, sx.attempt(lambda: setattr(t, "i", v)), ValidationError, t, steps, "i", False)
    elif what in ("picky", "pickytype", "unicode"):
        x = {"picky": Picky(1, 2), "pickytype": PickyType(1, 2), "unicode": UnicodeDecodeError("utf-8", b"x", 0, 1, "r")}[what]
        r = sx.attempt(lambda: t.l.sort(key=lambda y: fails(x)))
        sx.observe("r", r.kind)
        sx.prove(not r.ok and isinstance(r.exc, type(x) if what != "pickytype" else TypeError), "an error of the caller's function stays one")
        sx.prove(what == "pickytype" or r.exc is x or isinstance(r.exc, OmegaConfBaseException), "the error raised is the caller's")
    elif what in ("format", "template"):
        r = sx.attempt(lambda: t.__setitem__("i", s + "q"))
        if s == "${":
            sx.prove(not r.ok and isinstance(r.exc, OmegaConfBaseException) and r.exc.full_key == text(steps + [(False, "i")]), "odd text in values does not break errors")
            return
        check(sx, r, ValidationError, t, steps, "i", False)
        check(sx, sx.attempt(lambda: t[s]), ConfigKeyError, t, steps, s, False)
        sx.prove(("Value '" + s + "q'") in str(r.exc) or s in ("$KEY",), "values are reported as they are")
    elif what == "unhashable":
        for k in ([1], {"a": 1}, {1}, object()):
            for op in (lambda: t[k], lambda: t.get(k), lambda: t.__setitem__(k, 1), lambda: t.pop(k), lambda: t.__delitem__(k), lambda: t.l[k], lambda: t.l.get(k), lambda: t.l.__setitem__(k, 1), lambda: t.l.pop(k), lambda: t.l.__delitem__(k), lambda: OmegaConf.is_missing(t, k)):
                r = sx.attempt(op)
                sx.prove(not r.ok and isinstance(r.exc, (KeyValidationError, ConfigTypeError)) and r.exc.key is k and r.exc.parent_node in (t, t.l) and r.exc.full_key == "", "keys of no supported type raise a key error")
    elif what == "longkey":
        k = s * 50
        check(sx, sx.attempt(lambda: t[k]), ConfigKeyError, t, steps, k, False)
        check(sx, sx.attempt(lambda: t.l[k]), KeyValidationError, t.l, steps + [(False, "l")], k, True)
    else:
        c = {"none_dict": DictConfig(None), "none_list": ListConfig(None), "missing_dict": DictConfig("???"), "missing_list": ListConfig("???"), "nested_missing": None}[what]
        cls = ConfigTypeError if what.startswith("none") else MissingMandatoryValue
        pre = []
        if c is None:
            par = OmegaConf.create({"w": DictConfig("???")})
            c, pre, cls = par._get_node("w"), [(False, "w")], MissingMandatoryValue
        k = 0 if isinstance(c, ListConfig) else s
        lst = isinstance(c, ListConfig)
        if not lst and cls is MissingMandatoryValue:  # a missing dict has no keys
            cls = ConfigKeyError
            check(sx, sx.attempt(lambda: getattr(c, s)), ConfigAttributeError, c, pre, k, lst)
            check(sx, sx.attempt(lambda: setattr(c, s, 1)), ConfigAttributeError, c, pre, k, lst)
            sx.prove(OmegaConf.is_missing(c, k) is False and not hasattr(c, s), "a missing dict has no keys")
        else:
            check(sx, sx.attempt(lambda: OmegaConf.is_missing(c, k)), cls, c, pre, k, lst)
        for op in (lambda: c[k], lambda: c.__setitem__(k, 1)):
            check(sx, sx.attempt(op), cls, c, pre, k, lst)
        r = sx.attempt(lambda: c.__delitem__(k))
        sx.prove(not r.ok and isinstance(r.exc, OmegaConfBaseException) and r.exc.full_key == text(pre + [(lst, str(k))]), "deleting from it raises")
        if lst:
            check(sx, sx.attempt(lambda: c.append(1)), cls, c, pre, 0, True)
            for op in (lambda: list(c), lambda: c.sort(), lambda: 1 in c):
                check(sx, sx.attempt(op), cls, c, pre, None, True)
        else:
            r = sx.attempt(lambda: c.pop(k))
            sx.prove(not r.ok and isinstance(r.exc, OmegaConfBaseException), "taking from it raises")
            check(sx, sx.attempt(lambda: list(c.items())), MissingMandatoryValue if cls is ConfigKeyError else cls, c, pre, None, False)
            if cls is not ConfigKeyError:
                check(sx, sx.attempt(lambda: getattr(c, k)), cls, c, pre, k, False)


Q = ((), ("dict",), ("list", "struct"), ("tag", "list"), ("int", "dots"))
D = Q + (("enum", "list"), ("list",), ("struct",), ("bool",), ("float", "bytes"), ("list", "list"), ("dict", "list", "dict"), ("dollar", "list", "list", "int"))
TBAD = {
    "opaque": lambda: O, "text": lambda: "q q", "none": lambda: None, "int": lambda: 77, "float": lambda: 0.25, "color": lambda: Color.RED, "dict": lambda: {"zz": 1}, "list": lambda: ["q"], "nlist": lambda: [[O]], "ndict": lambda: {"i": "q"},
    "box": lambda: OmegaConf.structured(Box), "cls": lambda: S, "cfg": lambda: OmegaConf.create({"i": O}, flags={"allow_objects": True}), "bytes": lambda: b"q",
}


def typed(sx):
    """Fields of every type, unions and optionals included: reading what is not there, assigning what does not fit."""
    p = sx.choice("path", tuple(TPATHS))
    base = OmegaConf.structured(T)
    base.on = N(5)
    root, t, steps = tree(sx, base, sx.p["depths"])
    c, k = down(t, p)
    for j, x in enumerate(split(p)[:-1]):
        steps = steps + [(isinstance(x, int), str(x))]
    is_list = isinstance(c, ListConfig)
    full = text(steps + [(is_list, keytext(k))])
    how = sx.choice("how", ("missing", "nope", "nested", "item", "attr", "update", "node"))
    if how in ("missing", "nope", "nested"):
        c[k] = {"missing": "???", "nope": "${nope}", "nested": "a${..nope.x}"}[how] if how != "nested" or TPATHS[p][0] in (str, Any) else sx.stop()
        op = {"item": lambda: c[k], "get": lambda: c.get(k), "select": lambda: OmegaConf.select(c, keytext(k) if not is_list else str(k), throw_on_missing=True), "dict": lambda: OmegaConf.to_container(c, resolve=True, throw_on_missing=True), "iter": lambda: [x for x in (c if is_list else c.items())]}[sx.choice("read", ("item", "get", "select", "dict", "iter"))]
        if c is not t and not is_list and c._metadata.key_type not in (str, Any) and not isinstance(k, Color):
            sx.stop()
        r = sx.attempt(op)
        if r.ok and how == "missing":  # get gives None, items() of a dict does not hide it
            sx.stop()
        sx.observe("r", r.kind)
        sx.prove(not r.ok and isinstance(r.exc, MissingMandatoryValue if how == "missing" else InterpolationResolutionError), "reading what is not there fails")
        sx.prove(r.exc.full_key == full, "the full path of a typed field is reported on reading")
        sx.prove(r.exc.parent_node is c, "its parent node is reported")
        return
    val = TBAD[sx.choice("val", tuple(TBAD))]()
    if how == "attr" and is_list or how == "node" and isinstance(val, (DictConfig, ListConfig)):
        sx.stop()
    n = c._get_node(k)
    r = sx.attempt({"item": lambda: c.__setitem__(k, val), "attr": lambda: setattr(c, keytext(k), val), "update": lambda: OmegaConf.update(c, keytext(k), val, merge=False), "node": lambda: n._set_value(val)}[how])
    if r.ok:
        sx.stop()
    sx.observe("r", r.kind)
    if how == "node":
        return sx.prove(isinstance(r.exc, ValidationError), "a value that does not fit is refused")
    sx.prove(isinstance(r.exc, (ValidationError, ConfigKeyError, KeyValidationError, ConfigAttributeError)), "a value that does not fit is refused")
    fk = r.exc.full_key
    sx.prove(bool(fk == full) or fk.startswith(full + ".") or fk.startswith(full + "["), "the full path of a typed field is reported on writing")
    if not isinstance(val, (dict, list, DictConfig)):
        sx.prove(fk == full and r.exc.parent_node is c, "the very field is reported")


HARNESSES = [
    ("typed", typed, {"quick": {"depths": Q[:1] + Q[2:3]}, "thorough": {"depths": D}}, ["the full path of a typed field is reported on reading", "the full path of a typed field is reported on writing", "the very field is reported"]),
    ("read", read, {"quick": {"depths": Q[:1] + Q[2:4], "alphabet": "amx"}, "thorough": {"depths": D, "alphabet": "amxnu1"}}, ["the full path of the key is reported"]),
    ("write", write, {"quick": {"depths": Q[2:4], "alphabet": "ai"}, "thorough": {"depths": D, "alphabet": "amil"}}, ["the full path of the key is reported"]),
    ("convert", convert, {"quick": {"depths": Q}, "thorough": {"depths": D}}, ["the full path of the nested node is reported"]),
    ("construct", construct, {"quick": {}, "thorough": {}}, ["the full path of the value is reported"]),
    ("mergeerr", mergeerr, {"quick": {"depths": Q[:2] + (("struct",), ("list",), ("enum", "struct"))}, "thorough": {"depths": D}}, ["the full path of the nested node is reported"]),
    ("robust", robust, {"quick": {"depths": Q[:3]}, "thorough": {"depths": D}}, ["keys of no supported type raise a key error"]),
]
BOUNDS = ("6 kinds of containers (dict, structured, int and enum keyed, list, typed list) below 0 to 4 containers of 11 kinds; keys: text of 1..2 letters, ints -5..5, enums, bools and None; 5 ways of reading, 11 of writing, 9 of converting, 6 of constructing; three kinds of values; struct and read-only flags; 27 typed paths (unions, optionals, containers) with 3 kinds of unreadable values and 14 unsuitable ones. "
          "Containers that are interpolations, errors of keys of unsupported types (which have no path), and exceptions that end the process are outside")
