"""Dotlist and command-line arguments set exactly the paths they name."""
import copy
import sys
from dataclasses import dataclass, field
from typing import Dict, List, Optional

import yaml
from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf._utils import get_yaml_loader
from omegaconf.errors import OmegaConfBaseException

from .common import keys_ok, plain, snap
from .p12 import N, T, TPATHS, split
from .p12 import walk as down
from .p17 import same

MAKERS = ("from_dotlist", "from_cli", "argv", "merge_with_dotlist", "merge_with_cli")


def make(how, args, base=None):
    """The config the arguments give, over a base if there is one."""
    saved = sys.argv
    c = OmegaConf.create() if base is None else base
    try:
        if how == "from_dotlist":
            return OmegaConf.from_dotlist(args)
        if how == "from_cli":
            return OmegaConf.from_cli(args)
        if how == "argv":
            sys.argv = ["prog"] + list(args)
            return OmegaConf.from_cli()
        if how == "merge_with_dotlist":
            c.merge_with_dotlist(args)
            return c
        sys.argv = ["prog"] + list(args)
        c.merge_with_cli()
        return c
    finally:
        sys.argv = saved


def reference(args, c):
    """Update with each path and value in order."""
    for a in args:
        key, eq, text = a.partition("=")
        OmegaConf.update(c, key, yaml.load(text, Loader=get_yaml_loader()) if eq else None)
    return c


def against(sx, args, base):
    how = sx.choice("how", sx.p["how"])
    if base is not None and not how.startswith("merge"):
        sx.stop()
    given = list(args)
    mk = lambda: None if base is None else base()
    r = sx.attempt(lambda: make(how, args, mk()))
    w = sx.attempt(lambda: reference(args, OmegaConf.create() if base is None else base()))
    sx.observe("k", (r.kind, w.kind))
    sx.prove(r.ok == w.ok and r.kind == w.kind, "arguments fail exactly when updating does")
    if r.ok:
        sx.prove(type(r.value) is DictConfig or base is not None, "a dict config is made")
        sx.prove(same(sx, plain(r.value), plain(w.value)) and sx.eq(snap(r.value), snap(w.value)), "as updating with each path and value in order")
        sx.prove(keys_ok(r.value), "links are right")
    sx.prove(sx.eq(args, given), "the arguments are left as they are")


def chars(sx):
    """One argument of free characters."""
    s = sx.str("s", 0, sx.p["len"], sx.p["alpha"])
    base = {"none": None, "cfg": lambda: OmegaConf.create({"a": {"b": 1, "a": 2}, "b": [1, [2]], "1": {"a": 3}, "a ": 5, " ": 6})}[sx.choice("base", sx.p["base"])]
    against(sx, [s], base)


def value(sx):
    """Everything after the first equals sign is the value."""
    s = sx.str("s", 0, sx.p["len"], sx.p["alpha"])
    against(sx, [sx.choice("key", sx.p["keys"]) + "=" + s], None)


LITERALS = {"1": 1, "-3": -3, "1.5": 1.5, "1e3": 1000.0, ".5": 0.5, "true": True, "no": False, "null": None, "~": None, "": None, "abc": "abc", "a b": "a b", "'1'": "1", "\"true\"": "true", "[1,a,[2]]": [1, "a", [2]], "{x: 1, y: [z]}": {"x": 1, "y": ["z"]},
            "a=b": "a=b", "a:b": "a:b", "${a}": "${a}", "???": "???", "2020-01-02": "2020-01-02", ".inf": float("inf"), "inf": "inf", "0x1f": 31, "[]": [], "{}": {}, " 7 ": 7, "x # c": "x", "a.b": "a.b", "1_000": 1000, "''": "", "[a=b, 'c=d']": ["a=b", "c=d"]}


def literals(sx):
    path = sx.choice("path", ("k", "a.b", "a[b]", "[k]", "a.b.c"))
    num = sx.flag("num")
    t = None if num else sx.choice("t", tuple(LITERALS))
    n = sx.int("n", 0, 10 ** sx.p["digits"]) if num else 0
    text, want = (str(n), n) if num else (t, LITERALS[t])
    c = sx.attempt(lambda: make(sx.choice("how", sx.p["how"]), [path + "=" + text]))
    sx.prove(c.ok, "accepted")
    keys = path.replace("[", ".").replace("]", "").strip(".").split(".")
    x = plain(c.value)
    for k in keys:
        sx.prove(isinstance(x, dict) and list(x) == [k], "exactly the named path is set")
        x = x[k]
    sx.prove(same(sx, x, want), "to the value its text stands for")
    b = sx.attempt(lambda: make("from_dotlist", [path]))
    x = plain(b.value)
    for k in keys:
        x = x[k]
    sx.prove(x is None, "without an equals sign to None")


PATHS = {"a": ("a",), "a.b": ("a", "b"), "a.b.c": ("a", "b", "c"), "a[d]": ("a", "d"), "l": ("l",), "l[0]": ("l", 0), "l.1.x": ("l", 1, "x"), "l[1]": ("l", 1), "e": ("e",), "new.x": ("new", "x"), "b": ("b",)}
VALS = {"5": 5, "{b: 1}": {"b": 1}, "{c: {y: 2}}": {"c": {"y": 2}}, "[7]": [7], "": None, "z": "z", "[]": [], "{}": {}, "none": Ellipsis}


def merge(old, new):
    if isinstance(old, dict) and isinstance(new, dict):
        out = dict(old)
        for k, v in new.items():
            out[k] = merge(old[k], v) if k in old else v
        return out
    if isinstance(old, (dict, list)) and isinstance(new, (dict, list)) and type(old) is not type(new):
        raise TypeError
    return new


def put(m, path, v):
    """Reference update of plain data."""
    k = path[0] if isinstance(m, list) else str(path[0])
    if len(path) == 1:
        m[k] = merge(m[k], v) if (isinstance(m, list) or k in m) else v
        return
    if isinstance(m, list) or k in m:
        if not isinstance(m[k], (dict, list)):
            m[k] = {}
    else:
        m[k] = {}
    put(m[k], path[1:], v)


def order(sx):
    """Several arguments in order over a base config, against a model on plain data."""
    x, y = sx.int("x"), sx.int("y")
    m = {"a": {"b": {"c": x}, "d": y}, "l": [x, {"x": 1, "w": y}, 3], "e": {}, "b": "${a.d}"}
    base = OmegaConf.create(m)
    args = []
    for i in range(sx.p["n"]):
        p, v = sx.choice("p%d" % i, sx.p["paths"]), sx.choice("v%d" % i, sx.p["vals"])
        text, val = v, copy.deepcopy(VALS[v])
        if v == "none":
            args.append(p)
            val = None
        elif v == "5" and sx.p.get("free"):
            val = sx.int("n%d" % i, 0, 99)
            args.append(p + "=" + str(val))
        else:
            args.append(p + "=" + text)
        try:
            put(m, PATHS[p], val)
        except (IndexError, TypeError):
            sx.stop()
    r = sx.attempt(lambda: make("merge_with_dotlist", args, base))
    sx.observe("r", r.kind)
    sx.prove(r.ok, "updating named paths succeeds")
    sx.prove(sx.eq(plain(base), m), "exactly the named paths change")
    sx.prove(keys_ok(base), "links are right")


@dataclass
class In:
    i: int = 1
    f: float = 0.5


@dataclass
class S:
    i: int = 1
    s: str = "q"
    b: bool = False
    o: Optional[int] = None
    l: List[int] = field(default_factory=lambda: [1])
    d: Dict[str, float] = field(default_factory=dict)
    n: In = field(default_factory=In)


def typed(sx):
    """Structured configs convert and validate arguments; unknown paths raise; other fields stay."""
    t = sx.str("t", 0, sx.p["len"], sx.p["alpha"])
    f = sx.choice("f", ("i", "s", "b", "o", "l", "d", "n.i", "n.f", "d.k", "l[0]", "zz", "n.zz", "n"))
    against(sx, [f + "=" + t], lambda: OmegaConf.structured(S))
    c = OmegaConf.structured(S)
    before = plain(c)
    sx.attempt(lambda: c.merge_with_dotlist([f + "=" + t]))
    after, k = plain(c), f.split(".")[0].split("[")[0]
    sx.prove(list(after) == list(before) and all(after[g] == before[g] for g in before if g != k), "only the named path changes")


FTEXTS = {"7": 7, "0.5": 0.5, "true": True, "null": None, "": "", "abc": "abc", "'7'": "7", "[7, 8]": [7, 8], "[]": [], "{k: 7}": {"k": 7}, "{i: 7}": {"i": 7}, "{}": {}, "???": "???", "${x}": "${x}", "RED": "RED", "a=b": "a=b", "-1e3": -1000.0}


def fields(sx):
    """Arguments for fields of every type do what updating with the value does, and nothing else."""
    cfg, twin = OmegaConf.create({"x": sx.int("x"), "t": T}), None
    if sx.flag("more"):
        cfg.t.on = N(5)
        cfg.t.li = [1]
        OmegaConf.set_struct(cfg, True)
    twin = copy.deepcopy(cfg)
    p = sx.choice("path", tuple(TPATHS))
    t = sx.choice("text", tuple(FTEXTS))
    v = FTEXTS[t]
    form = sx.choice("form", ("eq", "noeq")) if v is None else "eq"
    how = sx.choice("how", ("merge_with_dotlist", "merge_with_cli"))
    arg = "t." + p + ("=" + t if form == "eq" else "")
    before = plain(cfg)

    def run():
        if how == "merge_with_dotlist":
            return cfg.merge_with_dotlist([arg])
        old = sys.argv
        sys.argv = ["prog", arg]
        try:
            cfg.merge_with_cli()
        finally:
            sys.argv = old
    r = sx.attempt(run)
    w = sx.attempt(lambda: OmegaConf.update(twin, "t." + p, None if t == "" else v))
    sx.observe("r", (r.kind, w.kind))
    sx.prove(r.ok == w.ok and (r.ok or type(r.exc) is type(w.exc)), "an argument is accepted when the update is: fields")
    sx.prove(sx.eq(snap(cfg), snap(twin)), "with the same effect: fields")
    sx.prove(keys_ok(cfg), "links: fields")
    after = plain(cfg)
    ks = ["t"] + split(p)
    top = ks[1]
    sx.prove(sx.eq({k: x for k, x in after["t"].items() if k != top}, {k: x for k, x in before["t"].items() if k != top}) and sx.eq(after["x"], before["x"]), "only the named path changes: fields")
    if r.ok:
        tc, tk = down(cfg.t, p)
        n = tc._get_node(tk)
        if not n._is_missing() and not n._is_interpolation() and not isinstance(n, (DictConfig, ListConfig)) and t not in ("", "null"):
            g = n._value()
            g = g._value() if hasattr(g, "_value") else g
            sx.prove(g == v or str(g) == t or getattr(g, "name", None) == t or str(g) == str(v) or g == bytes(t, "utf8") or g == str(v).encode() or isinstance(g, bool) and g == bool(v) or isinstance(g, float) and g == float(v), "the field has the value: fields")


def misuse(sx):
    """Anything but a list or tuple of strings raises."""
    x = sx.choice("x", (None, "a=1", 5, {"a": 1}, {"a=1"}, [1], ["a=1", 2], [None], [b"a=1"], ("b=2", []), iter(["a=1"])))
    c = OmegaConf.create({"k": 1})
    r = sx.attempt(lambda: c.merge_with_dotlist(x))
    sx.prove(not r.ok and isinstance(r.exc, ValueError), "anything but a list of strings raises ValueError")
    sx.prove(c.k == 1, "and keeps what was there")
    t = sx.attempt(lambda: OmegaConf.from_dotlist(("a=1", "b=[2]")))
    sx.prove(t.ok and plain(t.value) == {"a": 1, "b": [2]}, "a tuple is accepted")
    sx.prove(plain(OmegaConf.from_dotlist([])) == {} and plain(OmegaConf.from_cli([])) == {}, "no arguments give an empty config")


FD = ("from_dotlist",)
LAB = ["as updating with each path and value in order"]
HARNESSES = [
    ("chars", chars, {"quick": {"len": 4, "alpha": "ab=.[]1", "base": ("none",), "how": FD}, "thorough": {"len": 5, "alpha": "ab=.[]1-", "base": ("none", "cfg"), "how": ("from_dotlist", "merge_with_dotlist")}}, LAB),
    ("base", chars, {"quick": {"len": 3, "alpha": "ab=.[]1 ", "base": ("cfg",), "how": ("merge_with_dotlist",)}, "thorough": {"len": 4, "alpha": "ab=.[]10- ", "base": ("cfg", "none"), "how": MAKERS}}, LAB),
    ("makers", chars, {"quick": {"len": 2, "alpha": "a=.1 \n", "base": ("none", "cfg"), "how": MAKERS}, "thorough": {"len": 3, "alpha": "a=.1[] \n", "base": ("none", "cfg"), "how": MAKERS}}, LAB),
    ("value", value, {"quick": {"len": 2, "alpha": "=1a:[],{}' #.-~\"\n", "keys": ("k",), "how": FD}, "thorough": {"len": 3, "alpha": "=1a:[],{}' #.-~\"\n&*!|>", "keys": ("k", "a.b"), "how": FD}}, LAB),
    ("literals", literals, {"quick": {"how": MAKERS, "digits": 2}, "thorough": {"how": MAKERS, "digits": 3}}, ["to the value its text stands for"]),
    ("order", order, {"quick": {"n": 2, "paths": ("a", "a.b", "a.b.c", "l", "l[0]", "l.1.x", "e", "new.x"), "vals": ("5", "{b: 1}", "[7]", "none", "{}")}, "thorough": {"n": 2, "paths": tuple(PATHS), "vals": tuple(VALS), "free": True}}, ["exactly the named paths change"]),
    ("typed", typed, {"quick": {"len": 2, "alpha": "1.a[-", "how": ("merge_with_dotlist",)}, "thorough": {"len": 3, "alpha": "1.a[]-:{}", "how": ("merge_with_dotlist", "merge_with_cli")}}, ["only the named path changes"]),
    ("fields", fields, {"quick": {}, "thorough": {}}, ["with the same effect: fields", "the field has the value: fields"]),
    ("misuse", misuse, {"quick": {}, "thorough": {}}, ["anything but a list of strings raises ValueError"]),
]
BOUNDS = ("single arguments of ≤ 4 (5) free characters over keys, dots, brackets, digits and '=' on an empty config, ≤ 3 (4) on a nested one; values of ≤ 2 (3) free characters over 16 (21) YAML characters; 32 value texts with known meaning and integers on 5 paths, given in 5 ways; "
          "sequences of two arguments over 8 (11) paths and 5 (9) values on a nested base with symbolic leaves against a model on plain data; 18 texts for 27 typed paths; a structured base with values of ≤ 2 (3) free characters. The YAML code executed symbolically is the pure-Python half of PyYAML; every path is replayed with libyaml")
ASSUMPTIONS = ["libyaml and the pure-Python PyYAML agree (checked on one witness per path)"]
