"""ListConfig behaves as a Python list."""
from copy import copy, deepcopy
from typing import Any, Dict, List, Optional, Union

from omegaconf import DictConfig, ListConfig, OmegaConf

from .common import keys_ok, plain

OPS = ("get", "getslice", "set", "setslice", "del", "delslice", "append", "insert", "extend", "pop", "pop0", "remove",
       "index", "index_range", "count", "sort", "rsort", "reverse", "clear", "contains", "iter", "add", "radd", "iadd",
       "eq", "copy", "reversed", "getter")


BIG = 2 ** 62


def index(sx, name):
    return sx.int(name, -BIG, BIG)


def opt_int(sx, name):
    return index(sx, name) if sx.flag(name + "?") else None


def vals(sx, name, lo, hi):
    n = sx.choice(name + ".n", range(lo, hi + 1))
    return [sx.int("%s%d" % (name, i)) for i in range(n)]


def apply(sx, op, tag, cfg, ref, mv):
    """Run one operation on both; returns the two results."""
    def a(f):
        return sx.attempt(f)

    if op == "get":
        i = index(sx, tag + "i")
        return a(lambda: cfg[i]), a(lambda: ref[i])
    if op == "getter":
        i = index(sx, tag + "i")
        return a(lambda: cfg.get(i)), a(lambda: ref[i])
    if op == "getslice":
        s, e, st = opt_int(sx, tag + "s"), opt_int(sx, tag + "e"), opt_int(sx, tag + "st")
        return a(lambda: cfg[s:e:st]), a(lambda: ref[s:e:st])
    if op == "set":
        i, v = index(sx, tag + "i"), sx.int(tag + "v")

        def f(c):
            c[i] = v
        return a(lambda: f(cfg)), a(lambda: f(ref))
    if op == "setslice":
        s, e, st = opt_int(sx, tag + "s"), opt_int(sx, tag + "e"), opt_int(sx, tag + "st")
        v = vals(sx, tag + "v", 0, mv)

        def f(c):
            c[s:e:st] = v
        return a(lambda: f(cfg)), a(lambda: f(ref))
    if op == "del":
        i = index(sx, tag + "i")

        def f(c):
            del c[i]
        return a(lambda: f(cfg)), a(lambda: f(ref))
    if op == "delslice":
        s, e, st = opt_int(sx, tag + "s"), opt_int(sx, tag + "e"), opt_int(sx, tag + "st")

        def f(c):
            del c[s:e:st]
        return a(lambda: f(cfg)), a(lambda: f(ref))
    if op == "append":
        v = sx.int(tag + "v")
        return a(lambda: cfg.append(v)), a(lambda: ref.append(v))
    if op == "insert":
        i, v = index(sx, tag + "i"), sx.int(tag + "v")
        return a(lambda: cfg.insert(i, v)), a(lambda: ref.insert(i, v))
    if op == "extend":
        v = vals(sx, tag + "v", 0, mv)
        return a(lambda: cfg.extend(v)), a(lambda: ref.extend(v))
    if op == "pop":
        i = index(sx, tag + "i")
        return a(lambda: cfg.pop(i)), a(lambda: ref.pop(i))
    if op == "pop0":
        return a(lambda: cfg.pop()), a(lambda: ref.pop())
    if op == "remove":
        v = sx.int(tag + "v")
        return a(lambda: cfg.remove(v)), a(lambda: ref.remove(v))
    if op == "index":
        v = sx.int(tag + "v")
        return a(lambda: cfg.index(v)), a(lambda: ref.index(v))
    if op == "index_range":
        v = sx.int(tag + "v")
        s = sx.choice(tag + "s", range(len(ref) + 1))
        e = sx.choice(tag + "e", range(len(ref) + 1))
        return a(lambda: cfg.index(v, s, e)), a(lambda: ref.index(v, s, e))
    if op == "count":
        v = sx.int(tag + "v")
        return a(lambda: cfg.count(v)), a(lambda: ref.count(v))
    if op == "sort":
        return a(lambda: cfg.sort()), a(lambda: ref.sort())
    if op == "rsort":
        return a(lambda: cfg.sort(reverse=True)), a(lambda: ref.sort(reverse=True))
    if op == "reverse":
        return a(lambda: cfg.reverse()), a(lambda: ref.reverse())
    if op == "clear":
        return a(lambda: cfg.clear()), a(lambda: ref.clear())
    if op == "contains":
        v = sx.int(tag + "v")
        return a(lambda: v in cfg), a(lambda: v in ref)
    if op == "iter":
        return a(lambda: [x for x in cfg]), a(lambda: [x for x in ref])
    if op == "reversed":
        return a(lambda: [x for x in reversed(cfg)]), a(lambda: [x for x in reversed(ref)])
    if op == "add":
        v = vals(sx, tag + "v", 0, mv)
        return a(lambda: plain(cfg + v)), a(lambda: ref + v)
    if op == "radd":
        v = vals(sx, tag + "v", 0, mv)
        return a(lambda: plain(v + cfg)), a(lambda: v + ref)
    if op == "iadd":
        v = vals(sx, tag + "v", 0, mv)

        def f(c):
            c += v
        return a(lambda: f(cfg)), a(lambda: f(ref))
    if op == "eq":
        v = vals(sx, tag + "v", 0, 2)
        return a(lambda: cfg == v), a(lambda: ref == v)
    if op == "copy":
        return a(lambda: plain(cfg.copy())), a(lambda: ref.copy())
    raise AssertionError(op)


def check(sx, op, r, e, cfg, ref):
    sx.observe("res", (op, r.kind))
    sx.prove(r.ok == e.ok, "same outcome as list: " + op)
    if e.ok:
        sx.prove(sx.eq(r.value, e.value), "same result as list: " + op)
        sx.observe("val", r.value)
    else:
        sx.prove(isinstance(r.exc, type(e.exc)), "same kind of error as list: " + op)
    sx.prove(sx.eq(plain(cfg), ref), "same content as list: " + op)
    sx.prove(len(cfg) == len(ref), "same length as list: " + op)
    sx.prove(keys_ok(cfg), "children know their position: " + op)
    sx.observe("cfg", plain(cfg))


def one_op(sx):
    op = sx.choice("op", OPS)
    ref = vals(sx, "x", 0, sx.p["n"])
    cfg = OmegaConf.create(list(ref))
    r, e = apply(sx, op, "", cfg, ref, sx.p["mv"])
    check(sx, op, r, e, cfg, ref)


SEQ = ("set", "del", "append", "insert", "pop", "sort", "reverse", "setslice1", "clear", "extend")


def history(sx):
    """Two or more operations in a row on a short list (small index range)."""
    ref = vals(sx, "x", sx.p["n"], sx.p["n"])
    cfg = OmegaConf.create(list(ref))
    for k in range(sx.p["steps"]):
        t = "%d" % k
        op = sx.choice("op" + t, SEQ)
        n = len(ref)
        if op in ("set", "del", "insert", "pop"):
            i = sx.choice("i" + t, range(-n, n + 1))
            v = 100 + k

            def f(c):
                if op == "set":
                    c[i] = v
                elif op == "del":
                    del c[i]
                elif op == "insert":
                    c.insert(i, v)
                else:
                    return c.pop(i)
            r, e = sx.attempt(lambda: f(cfg)), sx.attempt(lambda: f(ref))
        elif op == "setslice1":
            i = sx.choice("i" + t, range(n + 1))

            def f(c):
                c[i:i + 1] = [200 + k, 300 + k]
            r, e = sx.attempt(lambda: f(cfg)), sx.attempt(lambda: f(ref))
        elif op == "append":
            r, e = sx.attempt(lambda: cfg.append(k)), sx.attempt(lambda: ref.append(k))
        elif op == "extend":
            r, e = sx.attempt(lambda: cfg.extend([k, k])), sx.attempt(lambda: ref.extend([k, k]))
        elif op == "sort":
            r, e = sx.attempt(lambda: cfg.sort()), sx.attempt(lambda: ref.sort())
        elif op == "reverse":
            r, e = sx.attempt(lambda: cfg.reverse()), sx.attempt(lambda: ref.reverse())
        else:
            r, e = sx.attempt(lambda: cfg.clear()), sx.attempt(lambda: ref.clear())
        check(sx, op, r, e, cfg, ref)


ELEMS = {"any": (Any, ("int", "none", "str", "bool", "float", "list", "dict", "bytes")), "opt": (Optional[int], ("int", "none")), "union": (Union[int, str], ("int", "str")),
         "optunion": (Optional[Union[int, str]], ("int", "none")), "str": (str, ("str", "str2")), "lists": (List[int], ("list", "list2")), "dicts": (Dict[str, int], ("dict", "dict2"))}


def elem(sx, name, kind):
    k = sx.choice(name + ".kind", ELEMS[kind][1])
    if k == "int":
        return sx.int(name, -9, 9)
    return {"none": None, "str": "zz", "str2": "a", "bool": True, "float": 1.0, "list": [1], "list2": [2, 3], "dict": {"k": 1}, "dict2": {"k": 2}, "bytes": b"b"}[k]


def deep(x):
    """Plain data of a result, which must not be a node of the config other than a container."""
    if isinstance(x, (ListConfig, DictConfig)):
        return OmegaConf.to_container(x, resolve=False)
    if isinstance(x, (list, tuple)):
        return [deep(y) for y in x]
    if hasattr(x, "_metadata"):
        return ("a node", type(x).__name__)
    return x


def kinds(sx):
    """Elements of all kinds, in lists of all element types."""
    kind = sx.choice("elements", tuple(ELEMS))
    n = sx.choice("n", range(1, sx.p["n"] + 1))
    ref = [elem(sx, "x%d" % i, kind) for i in range(n)]
    cfg = ListConfig([x for x in deepcopy(ref)], element_type=ELEMS[kind][0], ref_type=List[ELEMS[kind][0]])
    holder = OmegaConf.create({"a": 1})
    if sx.choice("nested", sx.p["nested"]):
        holder.l = cfg
        cfg = holder.l
    op = sx.choice("op", sx.p["ops"])
    if op in ("sortplain", "sortkey"):
        sx.assume(not any(isinstance(x, (list, dict)) for x in ref))  # containers have no order
    v = elem(sx, "v", kind) if op in ("set", "insert", "append", "extend", "remove", "index", "count", "contains", "add", "radd", "eq", "eqlist", "setslice") else None
    i = sx.choice("i", range(-n - 1, n + 1)) if op in ("get", "set", "del", "insert", "pop", "getter") else 0

    def copied(x):
        return deepcopy(x)

    f = {
        "get": lambda c: c[i], "getter": lambda c: c.get(i) if c is cfg else c[i], "set": lambda c: c.__setitem__(i, copied(v)), "del": lambda c: c.__delitem__(i),
        "insert": lambda c: c.insert(i, copied(v)), "pop": lambda c: c.pop(i), "append": lambda c: c.append(copied(v)), "extend": lambda c: c.extend([copied(v)]),
        "remove": lambda c: c.remove(v), "index": lambda c: c.index(v), "count": lambda c: c.count(v), "contains": lambda c: v in c, "add": lambda c: c + [copied(v)],
        "radd": lambda c: [copied(v)] + c, "iter": lambda c: [x for x in c], "reversed": lambda c: [x for x in reversed(c)], "slice": lambda c: c[0:2],
        "eq": lambda c: c == [v], "eqlist": lambda c: c == [v, v], "copy": lambda c: c.copy(), "reverse": lambda c: c.reverse(), "clear": lambda c: c.clear(),
        "setslice": lambda c: c.__setitem__(slice(0, 1), [copied(v), copied(v)]), "delslice": lambda c: c.__delitem__(slice(None, None, 2)),
        "sort": lambda c: c.sort(key=lambda x: 0), "sortplain": lambda c: c.sort(), "sortkey": lambda c: c.sort(key=lambda x: len(x) if isinstance(x, (str, bytes)) else -1 if x is None else x),
        "sortin": lambda c: c.sort(key=lambda x: x["a"] if "a" in x else 7, reverse=True), "tuple": lambda c: list(tuple(c)), "enum": lambda c: [x for _, x in enumerate(c)], "unpack": lambda c: [*c],
        "minmax": lambda c: [x is None for x in c],
    }[op]
    r, e = sx.attempt(lambda: f(cfg)), sx.attempt(lambda: f(ref))
    sx.observe("res", (op, r.kind))
    sx.prove(r.ok == e.ok, "same outcome as list: kinds " + op)
    if e.ok and r.ok:
        sx.prove(sx.eq(deep(r.value), deep(e.value)), "same result as list: kinds " + op)
    if e.ok:
        sx.prove(sx.eq(plain(cfg), ref), "same content as list: kinds " + op)
    sx.prove(keys_ok(cfg), "children know their position: kinds " + op)

IOPS = ("get", "neg", "getter", "slice", "stepped", "add", "radd", "addself", "addref", "raddref", "iadd", "iter", "reversed", "count", "index", "contains", "copy", "shallow", "deepcopy", "pop", "eq", "eqr", "unpack", "insert", "extend", "extendcfg", "append", "remove", "del", "set", "reverse", "sort", "sum")


def inter(sx):
    """Lists whose elements name values elsewhere in the tree behave as lists of those values."""
    v, w = sx.int("v"), sx.int("w")
    srcs = {"abs": ("${x}", v), "rel": ("${..x}", v), "deep": ("${b.c}", w), "chain": ("${z}", v), "plain": (7, 7), "text": ("${s}!", "t!"), "sib": ("${.0}", None)}
    n = sx.p["n"]
    ks = [sx.choice("e%d" % i, tuple(k for k in srcs if i or k != "sib")) for i in range(n)]
    ref = []
    for k in ks:
        ref.append(ref[0] if k == "sib" else srcs[k][1])
    typed = sx.flag("typed")
    data = [srcs[k][0] for k in ks]
    cfg = OmegaConf.create({"x": v, "b": {"c": w, "z": "${x}"}, "z": "${b.z}", "s": "t", "l": ListConfig(data, element_type=Union[int, str]) if typed else data})
    lst = cfg.l
    op = sx.choice("op", sx.p["ops"])
    if op in ("pop", "insert", "remove", "del", "set", "reverse", "sort", "radd", "raddref", "slice", "stepped"):
        sx.assume("sib" not in ks)  # relative to a position that changes
    if op in ("sort", "sum"):
        sx.assume("text" not in ks)
    i = sx.choice("i", range(-n - 1, n + 1)) if op in ("get", "pop", "del", "set", "insert", "getter") else 0

    def ip(c):
        c += [8, "${x}"] if c is lst else [8, v]
        return None

    f = {
        "get": lambda c: c[i], "neg": lambda c: c[-1], "getter": lambda c: c.get(i) if c is lst else c[i], "slice": lambda c: c[0:2], "stepped": lambda c: c[::-1], "add": lambda c: [x for x in c + [8]], "radd": lambda c: [x for x in [8] + c],
        "addself": lambda c: [x for x in c + c], "addref": lambda c: [x for x in c + (["${x}"] if c is lst else [v])], "raddref": lambda c: [x for x in (["${x}"] if c is lst else [v]) + c], "iadd": ip, "iter": lambda c: [x for x in c],
        "reversed": lambda c: [x for x in reversed(c)], "count": lambda c: c.count(v), "index": lambda c: c.index(v), "contains": lambda c: v in c, "copy": lambda c: [x for x in c.copy()], "shallow": lambda c: [x for x in copy(c)], "deepcopy": lambda c: [x for x in deepcopy(c)],
        "pop": lambda c: c.pop(i), "eq": lambda c: c == ref, "eqr": lambda c: ref == c, "unpack": lambda c: [*c], "insert": lambda c: c.insert(i, "${x}" if c is lst else v), "extend": lambda c: c.extend(["${x}", 8] if c is lst else [v, 8]),
        "extendcfg": lambda c: c.extend(lst if c is lst else list(ref)), "append": lambda c: c.append("${b.c}" if c is lst else w), "remove": lambda c: c.remove(v), "del": lambda c: c.__delitem__(i), "set": lambda c: c.__setitem__(i, "${x}" if c is lst else v),
        "reverse": lambda c: c.reverse(), "sort": lambda c: c.sort(), "sum": lambda c: sum(c),
    }[op]
    mod = list(ref)
    r, e = sx.attempt(lambda: f(lst)), sx.attempt(lambda: f(mod))
    sx.observe("res", (op, r.kind))
    sx.prove(r.ok == e.ok, "same outcome as list: references " + op)
    if r.ok and e.ok:
        sx.prove(sx.eq(deep(r.value), deep(e.value)), "same result as list: references " + op)
        sx.observe("val", deep(r.value))
    if not (op == "remove" and "sib" in ks):
        sx.prove(sx.eq([x for x in cfg.l], mod), "same content as list: references " + op)
    if op in ("get", "slice", "add", "radd", "addself", "iter", "copy", "deepcopy", "count", "contains", "eq"):
        sx.prove(OmegaConf.to_container(lst) == data, "reading keeps the references")
    sx.prove(keys_ok(cfg) and lst is cfg._get_node("l"), "children know their position: references " + op)


KOPS = ("get", "getter", "set", "del", "insert", "pop", "append", "extend", "remove", "index", "count", "contains", "add", "radd", "iter", "reversed", "slice", "eq", "eqlist",
        "copy", "reverse", "clear", "setslice", "delslice", "sort", "sortplain", "sortkey", "sortin", "tuple", "enum", "unpack", "minmax")
HARNESSES = [
    ("one_op", one_op, {"quick": {"n": 3, "mv": 2}, "thorough": {"n": 5, "mv": 3}},
     ["same content as list: " + o for o in OPS] + ["children know their position: " + o for o in OPS]),
    ("history", history, {"quick": {"n": 2, "steps": 2}, "thorough": {"n": 3, "steps": 3}}, []),
    ("kinds", kinds, {"quick": {"n": 2, "ops": KOPS, "nested": (True,)}, "thorough": {"n": 3, "ops": KOPS, "nested": (False, True)}}, ["same result as list: kinds iter", "same content as list: kinds set"]),
    ("inter", inter, {"quick": {"n": 2, "ops": IOPS}, "thorough": {"n": 3, "ops": IOPS}}, ["same result as list: references " + o for o in ("add", "radd", "slice", "index")]),
]
BOUNDS = ("lists of up to n unbounded symbolic integers, one operation with symbolic indices and slice members in [-2^62, 2^62] and unbounded symbolic "
          "values; then `steps` operations in a row on an n-element list; one operation on a list of up to n elements of every kind "
          "(int -9..9, None, strings, bool, float, bytes, lists, dicts), in lists of 7 element types including unions; "
          "one of 33 operations on a list of n elements that name values elsewhere in the tree (absolute, relative, deep, chained, in text, a sibling), with and without an element type")
