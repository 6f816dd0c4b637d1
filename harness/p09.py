"""DictConfig behaves as a Python dict."""
from copy import deepcopy
from enum import Enum
from typing import Any, Dict, List, Optional, Union

from omegaconf import DictConfig, ListConfig, OmegaConf

from .common import keys_ok, plain


class Color(Enum):
    RED = 1
    BLUE = 2


OPS = ("get", "getattr", "get_default", "get_none", "set", "setattr", "del", "delattr", "pop", "pop_default", "popitem", "setdefault",
       "update", "update_kw", "clear", "keys", "items", "values", "iter", "len", "contains", "eq", "ne", "copy", "copy_indep", "bool")
BASIC = ("get", "set", "del", "pop_default", "setdefault", "contains", "get_default", "update", "items")


def key(sx, name, kinds):
    k = sx.choice(name + ".kind", kinds)
    if k == "str":
        return sx.str(name, 0, 1, "ab") if sx.p.get("empty") else sx.str(name, 1, 1, "ab.")
    if k == "int":
        return sx.int(name, -1, 2)
    if k == "bool":
        return sx.flag(name)
    if k == "float":
        return sx.choice(name, (0.0, 1.0, 1.5, -1.0))
    if k == "bytes":
        return sx.choice(name, (b"", b"a", b"b"))
    return sx.choice(name, (Color.RED, Color.BLUE))


def val(sx, name):
    k = sx.choice(name + ".vk", sx.p.get("vkinds", ("int", "none")))
    if k == "int":
        return sx.int(name)
    if k == "str":
        return sx.str(name, 1, 1, "ab")
    if k == "nested":
        return {"a": [sx.int(name)]}
    return None


def pairs(sx, name, n, kinds):
    m = sx.choice(name + ".n", range(n + 1))
    out = {}
    for i in range(m):
        out[key(sx, "%sk%d" % (name, i), kinds)] = val(sx, "%sv%d" % (name, i))
    return out


def same_items(sx, cfg, ref):
    """Same keys (identity of type and value), same order, same values."""
    a, b = list(OmegaConf.to_container(cfg).items()), list(ref.items())
    if len(a) != len(b):
        return False
    return sx.And(*[sx.And(sx.eq(x[0], y[0]), sx.eq(x[1], y[1])) for x, y in zip(a, b)])


class Skip(Exception):
    pass


def apply(sx, op, t, cfg, ref, kinds):
    def both(f, g=None):
        return sx.attempt(lambda: f(cfg)), sx.attempt(lambda: (g or f)(ref))

    if op == "get":
        k = key(sx, t + "k", kinds)
        return both(lambda c: c[k])
    if op == "getattr":
        k = sx.choice(t + "k", ("a", "b", "c"))
        return both(lambda c: getattr(c, k), lambda r: r[k])
    if op == "get_default":
        k, d = key(sx, t + "k", kinds), val(sx, t + "d")
        return both(lambda c: c.get(k, d))
    if op == "get_none":
        k = key(sx, t + "k", kinds)
        return both(lambda c: c.get(k))
    if op == "set":
        k, v = key(sx, t + "k", kinds), val(sx, t + "v")

        def f(c):
            c[k] = v
        return both(f)
    if op == "setattr":
        k, v = sx.choice(t + "k", ("a", "b")), val(sx, t + "v")

        def f(c):
            setattr(c, k, v)

        def g(r):
            r[k] = v
        return both(f, g)
    if op == "del":
        k = key(sx, t + "k", kinds)

        def f(c):
            del c[k]
        return both(f)
    if op == "delattr":
        k = sx.choice(t + "k", ("a", "b"))

        def f(c):
            delattr(c, k)

        def g(r):
            del r[k]
        return both(f, g)
    if op == "pop":
        k = key(sx, t + "k", kinds)
        return both(lambda c: c.pop(k))
    if op == "pop_default":
        k, d = key(sx, t + "k", kinds), val(sx, t + "d")
        return both(lambda c: c.pop(k, d))
    if op == "popitem":
        # the MutableMapping method removes some item; it must be one of them
        def f(c):
            return c.popitem()

        def g(r):
            k = next(iter(r))
            return k, r.pop(k)
        if not ref:
            return both(f, lambda r: r.popitem())
        return both(f, g)
    if op == "setdefault":
        k, d = key(sx, t + "k", kinds), val(sx, t + "d")
        return both(lambda c: c.setdefault(k, d))
    if op == "update":
        o = pairs(sx, t + "o", sx.p["m"], kinds)
        return both(lambda c: c.update(o))
    if op == "update_kw":
        o, v = pairs(sx, t + "o", 1, kinds), val(sx, t + "kv")
        return both(lambda c: c.update(o, a=v))
    if op == "clear":
        return both(lambda c: c.clear())
    if op == "keys":
        return both(lambda c: list(c.keys()))
    if op == "items":
        return both(lambda c: [tuple(x) for x in c.items()])
    if op == "values":
        return both(lambda c: list(c.values()))
    if op == "iter":
        return both(lambda c: [k for k in c])
    if op == "len":
        return both(lambda c: len(c))
    if op == "bool":
        return both(lambda c: bool(c))
    if op == "contains":
        k = key(sx, t + "k", kinds)
        return both(lambda c: k in c)
    if op in ("eq", "ne"):
        o = pairs(sx, t + "o", sx.p["m"], kinds)
        if op == "eq":
            return both(lambda c: c == o)
        return both(lambda c: c != o)
    if op == "copy":
        return both(lambda c: plain(c.copy()), lambda r: r.copy())
    if op == "copy_indep":
        k, v = key(sx, t + "k", kinds), val(sx, t + "v")

        def f(c):
            d = c.copy()
            d[k] = v
            return plain(d)
        return both(f, lambda r: f2(r, k, v))
    raise AssertionError(op)


def f2(r, k, v):
    r = dict(r)
    r[k] = v
    return r


def check(sx, op, r, e, cfg, ref):
    sx.observe("res", (op, r.kind))
    sx.prove(r.ok == e.ok, "same outcome as dict: " + op)
    if e.ok:
        sx.prove(sx.eq(r.value, e.value), "same result as dict: " + op)
    elif op in ("getattr", "delattr"):
        sx.prove(isinstance(r.exc, AttributeError), "same kind of error as dict: " + op)
    else:
        sx.prove(isinstance(r.exc, KeyError), "same kind of error as dict: " + op)
    sx.prove(same_items(sx, cfg, ref), "same items in the same order as dict: " + op)
    sx.prove(len(cfg) == len(ref), "same length as dict: " + op)
    sx.prove(keys_ok(cfg), "children know their key: " + op)
    sx.observe("cfg", plain(cfg))


def one_op(sx):
    op = sx.choice("op", OPS)
    kinds = sx.p["kinds"]
    ref = pairs(sx, "x", sx.p["n"], kinds)
    cfg = OmegaConf.create(dict(ref))
    r, e = apply(sx, op, "", cfg, ref, kinds)
    check(sx, op, r, e, cfg, ref)


def key_types(sx):
    """All supported key types; two entries and one operation."""
    op = sx.choice("op", BASIC)
    kinds = ("str", "int", "bool", "float", "bytes", "enum")
    ref = pairs(sx, "x", sx.p["n"], kinds)
    cfg = OmegaConf.create(dict(ref))
    r, e = apply(sx, op, "", cfg, ref, kinds)
    check(sx, op, r, e, cfg, ref)


BAD = (None, (1, 2), object, frozenset())


def bad_keys(sx):
    """Unsupported key types are rejected and change nothing."""
    ref = pairs(sx, "x", 1, ("str",))
    cfg = OmegaConf.create(dict(ref))
    k = sx.choice("bad", BAD)
    op = sx.choice("op", ("set", "get", "del", "pop", "contains", "create"))

    def f():
        if op == "set":
            cfg[k] = 1
        elif op == "get":
            return cfg[k]
        elif op == "del":
            del cfg[k]
        elif op == "pop":
            return cfg.pop(k)
        elif op == "create":
            return OmegaConf.create({k: 1})
        else:
            return k in cfg
    r = sx.attempt(f)
    sx.observe("r", (op, r.kind))
    if op == "contains":
        sx.prove(r.ok and r.value is False, "unsupported key is not contained")
    else:
        sx.prove(not r.ok, "unsupported key is rejected")
    sx.prove(same_items(sx, cfg, ref), "rejected key changes nothing")


def history(sx):
    kinds = ("str", "int")
    ref = pairs(sx, "x", 1, kinds)
    cfg = OmegaConf.create(dict(ref))
    for i in range(sx.p["steps"]):
        op = sx.choice("op%d" % i, ("set", "del", "pop_default", "setdefault", "update", "clear", "popitem", "setattr"))
        r, e = apply(sx, op, "%d" % i, cfg, ref, kinds)
        check(sx, op, r, e, cfg, ref)


ELEMS = {"any": (Any, ("int", "none", "str", "bool", "float", "list", "dict", "bytes")), "opt": (Optional[int], ("int", "none")), "union": (Union[int, str], ("int", "str")),
         "optunion": (Optional[Union[int, str]], ("int", "none")), "str": (str, ("str", "str2")), "lists": (List[int], ("list", "list2")), "dicts": (Dict[str, int], ("dict", "dict2"))}
KEYT = {"str": (str, "a", "b", "zz"), "int": (int, 1, 2, -3), "float": (float, 1.0, 2.5, -0.5), "bool": (bool, True, False, None), "bytes": (bytes, b"a", b"b", b""), "enum": (Color, Color.RED, Color.BLUE, None), "any": (Any, "a", 1, b"a")}
KOPS = ("get", "getter", "getdef", "set", "del", "pop", "popdef", "popitem", "setdefault", "update", "merge", "iter", "keys", "items", "items_ex", "values", "contains", "eq", "eqother", "copy", "clear",
        "star", "dictof", "sorted", "reversed", "keysset", "itemsin")


def elem(sx, name, kind):
    k = sx.choice(name + ".kind", ELEMS[kind][1])
    if k == "int":
        return sx.int(name, -9, 9)
    return {"none": None, "str": "zz", "str2": "a", "bool": True, "float": 1.0, "list": [1], "list2": [2, 3], "dict": {"k": 1}, "dict2": {"k": 2}, "bytes": b"b"}[k]


def deep(x):
    """Plain data of a result, which must not be a node of the config other than a container."""
    if isinstance(x, (ListConfig, DictConfig)):
        return OmegaConf.to_container(x, resolve=False)
    if isinstance(x, (list, tuple)):
        return [deep(y) for y in x]
    if isinstance(x, dict):
        return {k: deep(y) for k, y in x.items()}
    if hasattr(x, "_metadata"):
        return ("a node", type(x).__name__)
    return x


def kinds(sx):
    """Values of all kinds, in dicts of all element and key types."""
    kind = sx.choice("elements", tuple(ELEMS))
    kt = sx.choice("keys", tuple(KEYT) if kind in sx.p["allkeys"] else ("str",))
    op = sx.choice("op", KOPS)
    n = sx.choice("n", (1, 2) if op in ("iter", "items", "values", "copy", "popitem", "eq", "reversed", "sorted", "del") else (1,))
    T, *ks = KEYT[kt]
    ref = {ks[i]: elem(sx, "x%d" % i, kind) for i in range(n)}
    cfg = DictConfig(deepcopy(ref), element_type=ELEMS[kind][0], key_type=T)
    holder = OmegaConf.create({"a": 1})
    if sx.choice("nested", sx.p["nested"]):
        holder.l = cfg
        cfg = holder.l
    v = elem(sx, "v", kind) if op in ("set", "setdefault", "update", "merge", "eqother", "getdef", "popdef", "itemsin") else None
    k = sx.choice("k", tuple(x for x in ks if x is not None)) if op in ("get", "getter", "getdef", "set", "del", "pop", "popdef", "setdefault", "update", "merge", "contains", "eqother", "itemsin") else ks[0]

    def c2(x):
        return deepcopy(x)

    def popitem(c):
        if c is ref:
            i = next(iter(c))
            return i, c.pop(i)
        return c.popitem()
    f = {
        "get": lambda c: c[k], "getter": lambda c: c.get(k), "getdef": lambda c: c.get(k, v), "set": lambda c: c.__setitem__(k, c2(v)), "del": lambda c: c.__delitem__(k), "pop": lambda c: c.pop(k), "popdef": lambda c: c.pop(k, v),
        "popitem": popitem, "setdefault": lambda c: c.setdefault(k, c2(v)), "update": lambda c: c.update({k: c2(v)}), "merge": lambda c: c.merge_with({k: c2(v)}) if c is cfg else c.update({k: merged(c.get(k), v)}),
        "iter": lambda c: [x for x in c], "keys": lambda c: list(c.keys()), "items": lambda c: [[a, b] for a, b in c.items()],
        "items_ex": lambda c: [[a, b] for a, b in (c.items_ex() if c is cfg else c.items())], "values": lambda c: list(c.values()), "contains": lambda c: k in c, "eq": lambda c: c == c2(ref), "eqother": lambda c: c == {k: v},
        "copy": lambda c: c.copy(), "clear": lambda c: c.clear(), "star": lambda c: {**c} if kt == "str" else dict(c.items()), "dictof": lambda c: dict(c), "sorted": lambda c: sorted(c), "reversed": lambda c: list(reversed(list(c))),
        "keysset": lambda c: c.keys() == c2(ref).keys(), "itemsin": lambda c: (k, v) in c.items(),
    }[op]
    if op == "merge" and (isinstance(ref.get(k), dict) and isinstance(v, list) or isinstance(ref.get(k), list) and isinstance(v, dict)):
        sx.stop()  # a dict and a list do not merge
    if op == "sorted" and kt in ("any", "enum") or op == "update" and isinstance(ref.get(k), (dict, list)):
        sx.stop()  # unordered keys; update merges
    r, e = sx.attempt(lambda: f(cfg)), sx.attempt(lambda: f(ref))
    sx.observe("res", (op, r.kind))
    sx.prove(r.ok == e.ok, "same outcome as dict: kinds " + op)
    if e.ok:
        sx.prove(sx.eq(deep(r.value), deep(e.value)), "same result as dict: kinds " + op)
        sx.prove(same_items(sx, cfg, ref), "same items in the same order as dict: kinds " + op)
    sx.prove(keys_ok(cfg), "children know their key: kinds " + op)


def merged(a, b):
    return dict(a, **b) if isinstance(a, dict) and isinstance(b, dict) else b


HARNESSES = [
    ("one_op", one_op, {"quick": {"n": 2, "m": 1, "kinds": ("str", "int")}, "thorough": {"n": 3, "m": 2, "kinds": ("str", "int", "bool"), "vkinds": ("int", "none", "str")}},
     ["same items in the same order as dict: " + o for o in OPS]),
    ("key_types", key_types, {"quick": {"n": 1, "m": 1}, "thorough": {"n": 2, "m": 1, "vkinds": ("int",)}}, []),
    ("kinds", kinds, {"quick": {"nested": (True,), "allkeys": ("union", "lists")}, "thorough": {"nested": (False, True), "allkeys": tuple(ELEMS)}}, ["same result as dict: kinds items", "same items in the same order as dict: kinds set"]),
    ("bad_keys", bad_keys, {"quick": {}, "thorough": {}}, ["unsupported key is rejected", "rejected key changes nothing"]),
    ("history", history, {"quick": {"steps": 2, "m": 1}, "thorough": {"steps": 3, "m": 1}}, []),
]
BOUNDS = ("dicts of up to n entries with unbounded symbolic integer (or None) values; keys: symbolic one-character strings over a,b,'.', symbolic ints "
          "-1..2, bools, floats 0,1,1.5,-1, bytes, an enum; one operation with any key; then `steps` operations in a row; one of 27 operations on a dict "
          "of 7 element types (unions and containers included) and 7 key types holding values of every kind")
