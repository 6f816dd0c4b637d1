"""A node interpolation reads the node it names, live."""
from dataclasses import dataclass, field
from enum import Enum
from pathlib import Path
from typing import Any, Dict, List, Optional, Union

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.errors import InterpolationKeyError, InterpolationResolutionError, InterpolationToMissingValueError

from .common import keys_ok, plain, snap


class I:
    """Model of an interpolation: ups leading dots, then a path of keys (strings, ints, or I for a nested one)."""
    def __init__(self, ups, path, note=0):
        self.ups, self.path, self.note = ups, tuple(path), note

    def text(self):
        out = "." * self.ups
        for i, k in enumerate(self.path):
            t = k.text() if isinstance(k, I) else str(k)
            br = self.note == 1 and i > 0 or self.note == 2 or (self.note == 3 and i % 2 == 1) or (self.note == 4 and i % 2 == 0)
            if br:
                out += "[" + t + "]"
            else:
                out += ("." if i else "") + t
        return "${" + out + "}"


class Err(Exception):
    def __init__(self, kind):
        self.kind = kind


CLS = {"key": InterpolationKeyError, "missing": InterpolationToMissingValueError, "other": InterpolationResolutionError, "type": InterpolationResolutionError}


def build(m):
    """Plain data for a config from the model."""
    if isinstance(m, I):
        return m.text()
    if isinstance(m, dict):
        return {k: build(v) for k, v in m.items()}
    if isinstance(m, list):
        return [build(v) for v in m]
    return m


def at(m, pos):
    for k in pos:
        m = m[k]
    return m


def follow(m, pos, interp, depth=0):
    """Position of the node an interpolation stored at pos finally names."""
    if depth > 12:
        raise Err("other")
    cont = pos[:-1]
    keys = []
    for k in interp.path:
        if isinstance(k, I):
            k = at(m, follow(m, pos, k, depth + 1))
            if not isinstance(k, str):
                raise Err("other")  # documented: must be a string
        keys.append(k)
    if interp.ups == 0:
        cur = ()
    else:
        if interp.ups - 1 > len(cont):
            raise Err("key")
        cur = cont[:len(cont) - (interp.ups - 1)]
    for k in keys:
        c = at(m, cur)
        if isinstance(c, list):
            if not (isinstance(k, int) or k.lstrip("-").isdigit()):
                raise Err("type")
            k = int(k)
            if not -len(c) <= k < len(c):
                raise Err("key")
            k %= len(c)
        elif isinstance(c, dict):
            k = str(k)
            if k not in c:
                raise Err("key")
        else:
            raise Err("type")
        cur = cur + (k,)
        x = at(m, cur)
        if isinstance(x, I):
            cur = follow(m, cur, x, depth + 1)
            x = at(m, cur)
        if isinstance(x, str) and x == "???":
            raise Err("missing")
    if cur == cont[:len(cur)] and isinstance(at(m, cur), (dict, list)):
        raise Err("other")
    return cur


def node_at(cfg, pos):
    for k in pos:
        cfg = cfg._get_node(k)
    return cfg


def read(c, k, how):
    if how == "item":
        return c[k]
    if how == "attr":
        return getattr(c, k)
    if how == "get":
        return c.get(k, "DEFAULT")
    if how == "iter":
        return [v for v in c][k] if isinstance(c, ListConfig) else dict(c.items())[k]
    if how == "select":
        return OmegaConf.select(c, "%s" % k if isinstance(k, str) else "[%d]" % k)
    if how == "deref":
        n = c._get_node(k)._dereference_node()
        return n._value() if not isinstance(n, (DictConfig, ListConfig)) else n


def check(sx, cfg, m, pos, how, tag=""):
    src = at(m, pos)
    c = node_at(cfg, pos[:-1])
    before = snap(cfg)
    r = sx.attempt(lambda: read(c, pos[-1], how))
    sx.observe("read" + tag, (how, r.kind))
    sx.prove(sx.eq(snap(cfg), before), "reading changes nothing" + tag)
    try:
        tgt = follow(m, pos, src) if isinstance(src, I) else pos
    except Err as e:
        sx.prove(not r.ok, "an unresolvable interpolation raises" + tag)
        sx.prove(isinstance(r.exc, CLS[e.kind]), "with the documented error" + tag)
        sx.prove((e.kind == "missing") == isinstance(r.exc, InterpolationToMissingValueError), "the missing error is for missing targets" + tag)
        return
    sx.prove(r.ok, "an interpolation of an existing path is read" + tag)
    want = at(m, tgt)
    if isinstance(want, (dict, list)):
        sx.prove(r.value is node_at(cfg, tgt), "an interpolation of a container gives that container" + tag)
    else:
        sx.prove(sx.eq(r.value, want) if want is not None else r.value is None, "an interpolation gives the value it names" + tag)
        sx.prove(type(r.value) is type(want), "with its type" + tag)
    s = sx.attempt(lambda: OmegaConf.select(cfg, ".".join(map(str, tgt))))
    sx.prove(s.ok and (sx.eq(s.value, want) if not isinstance(want, (dict, list)) else s.value is r.value), "selecting the path gives the same" + tag)


def tree(sx, text=False):
    x, y = sx.int("x"), sx.int("y")
    return {
        "a": {"b": {"c": x, "s": 0, "n": None}, "l": [y, {"z": sx.bool("z"), "s": 0}, 0], "n": None, "m": "???", "s": 0, "e": {}, "d2": {"m": "???"}},
        "t": sx.str("t", 0, sx.p["slen"], "ab$ ") if text else "txt", "s": 0, "k": {"c": y, "a": {"b": {"c": 7}}}, "lnk": I(0, ("a",)), "lnk2": I(1, ("lnk", "b")),
    }


POS = (("s",), ("a", "s"), ("a", "b", "s"), ("a", "l", 2), ("a", "l", 1, "s"))
PATHS = (("t",), ("a",), ("a", "b"), ("a", "b", "c"), ("a", "l"), ("a", "l", 0), ("a", "l", 1, "z"), ("a", "l", 9), ("a", "l", -2, "z"), ("a", "l", "z"), ("a", "n"), ("a", "n", "q"), ("a", "m"),
         ("a", "m", "q"), ("a", "e"), ("a", "e", "q"), ("nope",), ("nope", "q"), ("b", "c"), ("c",), ("b",), ("l", 0), ("z",), ("s",), ("k", "c"), ("t", "c"), ("lnk",), ("lnk", "b", "c"),
         ("lnk2", "c"), ("lnk2", "nope"), (0,), (1,), (2,), ("lnk", "m"), ("lnk", "s"))
HOW = ("item", "deref", "get", "select", "attr", "iter")


def usable(sx, pos, how, src):
    if how == "attr" and not isinstance(pos[-1], str):
        sx.stop()
    if how == "get" and not isinstance(pos[-1], str):
        sx.stop()


def reads(sx):
    path = sx.choice("path", PATHS)
    m = tree(sx, path == ("t",))
    pos = sx.choice("pos", POS)
    ups = sx.choice("ups", sx.p["ups"])
    if ups == 0 and isinstance(path[0], int):
        sx.stop()
    note = sx.choice("note", sx.p["notes"])
    if note and (len(path) < 2 and note != 2):
        sx.stop()
    src = I(ups, path, note)
    if "[-" in src.text() or ".-" in src.text():
        sx.stop()
    at(m, pos[:-1])[pos[-1]] = src
    cfg = OmegaConf.create(build(m))
    how = sx.choice("how", sx.p["how"])
    usable(sx, pos, how, src)
    if how in ("select", "iter"):
        try:
            follow(m, pos, src)
        except Err:
            sx.stop()
        if how == "iter" and pos[:2] != ("a", "l") and pos[:2] != ("a", "b"):
            sx.stop()
    check(sx, cfg, m, pos, how)


MUT = ("set", "leaf->dict", "parent", "del", "missing", "none", "interp", "insert", "poplist", "settree", "delparent", "update", "retarget", "add", "merge", "swaplnk", "clear")


def live(sx):
    """Read, change something, read again."""
    m = tree(sx)
    pos = sx.choice("pos", sx.p["pos"])
    src = sx.choice("src", (I(0, ("a", "b", "c")), I(0, ("a", "l", 0)), I(0, ("a", "b")), I(0, ("lnk", "b", "c")), I(0, ("nope",)), I(0, ("lnk2", "c")), I(0, ("a", "m")), I(0, ("a", "l", 1, "z")), I(0, ("a", "n"))))
    at(m, pos[:-1])[pos[-1]] = src
    cfg = OmegaConf.create(build(m))
    how = sx.choice("how", sx.p["how"])
    usable(sx, pos, how, src)
    sx.attempt(lambda: read(node_at(cfg, pos[:-1]), pos[-1], how))
    if sx.p["conv"]:
        sx.attempt(lambda: OmegaConf.to_container(cfg, resolve=True))
    v = sx.int("v")
    for i in range(sx.p["steps"]):
        mut = sx.choice("mut%d" % i, MUT)
        a = m.get("a")
        if mut == "set":
            if "b" not in a or not isinstance(a["b"], dict):
                sx.stop()
            a["b"]["c"] = v
            cfg.a.b.c = v
        elif mut == "leaf->dict":
            if pos[:2] == ("a", "b"):
                sx.stop()
            a["b"] = {"c": {"q": v}}
            cfg.a.b = {"c": {"q": v}}
        elif mut == "parent":
            if pos[:2] == ("a", "b"):
                sx.stop()
            a["b"] = v
            cfg.a["b"] = v
        elif mut == "del":
            if not isinstance(a.get("b"), dict) or "c" not in a["b"]:
                sx.stop()
            del a["b"]["c"]
            del cfg.a.b["c"]
        elif mut == "missing":
            a["l"][0] = "???"
            cfg.a.l[0] = "???"
            a["n"] = "???"
            cfg.a.n = "???"
        elif mut == "none":
            a["l"][0] = None
            cfg.a.l[0] = None
        elif mut == "interp":
            a["m"] = I(0, ("k", "c"))
            cfg.a.m = "${k.c}"
        elif mut == "insert":
            if pos[:2] == ("a", "l"):
                sx.stop()
            a["l"].insert(0, v)
            cfg.a.l.insert(0, v)
        elif mut == "poplist":
            if pos[:2] == ("a", "l"):
                sx.stop()
            a["l"].pop(0)
            cfg.a.l.pop(0)
        elif mut == "settree":
            if pos[0] == "a":
                sx.stop()
            m["a"] = {"b": {"c": v}, "l": [v], "n": v, "m": v}
            cfg.a = {"b": {"c": v}, "l": [v], "n": v, "m": v}
        elif mut == "delparent":
            if pos[:2] == ("a", "b") or "b" not in a:
                sx.stop()
            del a["b"]
            cfg.a.pop("b")
        elif mut == "update":
            a["n"] = v
            OmegaConf.update(cfg, "a.n", v)
        elif mut == "retarget":
            at(m, pos[:-1])[pos[-1]] = I(0, ("k", "c"))
            node_at(cfg, pos[:-1])[pos[-1]] = "${k.c}"
        elif mut == "add":
            m["nope"] = v
            cfg.nope = v
        elif mut == "merge":
            if not isinstance(a.get("b"), dict) or isinstance(a["b"].get("c"), dict):
                sx.stop()
            a["b"]["c"] = v
            cfg.merge_with({"a": {"b": {"c": v}}})
        elif mut == "swaplnk":
            m["lnk"] = I(0, ("k", "a"))
            cfg.lnk = "${k.a}"
        elif mut == "clear":
            m["k"].clear()
            cfg.k.clear()
        else:
            raise AssertionError(mut)
    sx.prove(keys_ok(cfg), "links")
    check(sx, cfg, m, pos, how, ": after changes")


def chains(sx):
    """Interpolations of interpolations, through any position, cycles included."""
    v = sx.int("v")
    m = {"a": 0, "b": {"c": 0, "v": v}, "l": [0, v], "d": v}
    nodes = (("a",), ("b", "c"), ("l", 0))
    opts = sx.p["targets"]
    for i, p in enumerate((("a",), ("b", "c"), ("l", 0))):
        if i != 1 or not sx.p["repl"]:
            at(m, p[:-1])[p[-1]] = sx.choice("n%d" % i, opts)
        if i == 1 and sx.p["repl"]:
            m["b"] = sx.choice("b", (I(0, ("a",)), I(0, ("b", "c")), I(0, ("l", 0)), I(0, ("b",)), I(0, ("d",))))
            nodes = (("a",), ("b",), ("l", 0))
    cfg = OmegaConf.create(build(m))
    for pos in nodes:
        check(sx, cfg, m, pos, "item")


def levels(sx):
    """Interpolations written alike at several levels."""
    v = sx.int("v")
    opts = sx.p["targets"]
    m = inner = {"y": v}
    for i in range(sx.p["n"]):
        inner["x"] = sx.choice("x%d" % i, opts) if i else sx.choice("x0", sx.p["top"])
        if i < sx.p["n"] - 1:
            inner["a"] = inner = {}
    cfg = OmegaConf.create(build(m))
    for i in range(sx.p["n"]):
        pos = ("a",) * i + ("x",)
        check(sx, cfg, m, pos, "item")
    if sx.p["conv"]:
        sx.attempt(lambda: OmegaConf.to_container(cfg, resolve=True))
        check(sx, cfg, m, pos, "deref", ": again")


def dyn(sx):
    """Keys that are themselves interpolations."""
    m = {"kn": sx.choice("kn", ("b", "l", "nope", "1", 0, "???", None, I(0, ("k2",)), I(0, ("kn",)))), "k2": sx.choice("k2", ("b", "1", "l")),
         "a": {"b": {"c": sx.int("x"), "b": 1, "s": 0, "1": 4}, "l": [sx.int("y"), 5, {"c": 3}], "0": "zero", "1": {"c": 2}}, "b": {"l": 6, "b": 7}, "s": 0}
    pos = sx.choice("pos", (("s",), ("a", "b", "s")))
    k = sx.choice("key", (I(0, ("kn",)), I(0, ("k2",)), I(1, ("kn",)), I(3, ("k2",))))
    shape = sx.choice("shape", ((k,), ("a", k), ("a", k, "c"), ("a", k, k), ("a", "l", k), (k, k), ("a", "b", k)))
    src = I(sx.choice("ups", (0, 2)), shape, sx.choice("note", sx.p["notes"]))
    at(m, pos[:-1])[pos[-1]] = src
    check(sx, OmegaConf.create(build(m)), m, pos, sx.choice("how", sx.p["how"]))


class Color(Enum):
    RED = 1
    BLUE = 2


@dataclass
class N:
    i: int = 1
    u: Union[int, str] = "u"


@dataclass
class T:
    i: int = 1
    f: float = 0.0
    b: bool = False
    s: str = ""
    e: Color = Color.RED
    p: Path = Path("q")
    y: bytes = b""
    a: Any = 0
    u: Union[int, str] = 3
    ou: Optional[Union[float, bool]] = None
    oi: Optional[int] = None
    li: List[int] = field(default_factory=lambda: [4, 5])
    lu: List[Union[int, str]] = field(default_factory=lambda: [4, "5"])
    ll: List[List[Optional[int]]] = field(default_factory=lambda: [[None, 5]])
    di: Dict[str, int] = field(default_factory=lambda: {"k": 6})
    du: Dict[str, Union[int, float]] = field(default_factory=lambda: {"k": 7})
    de: Dict[Color, str] = field(default_factory=lambda: {Color.RED: "x"})
    dk: Dict[int, int] = field(default_factory=lambda: {1: 8})
    n: N = field(default_factory=N)
    on: Optional[N] = None
    ln: List[N] = field(default_factory=lambda: [N(9)])


TPATHS = {  # path -> (declared type, other values)
    "i": (int, ("v",)), "f": (float, (0.5, -1.0)), "b": (bool, (True,)), "s": (str, ("t", "0")), "e": (Color, (Color.BLUE,)), "p": (Path, (Path("z"),)), "y": (bytes, (b"z",)), "a": (Any, (None, "", "v", [1], {"z": 1})), "u": (Union[int, str], ("v", "w", "")),
    "ou": (Optional[Union[float, bool]], (0.0, False, 1.5)), "oi": (Optional[int], (0, "v", None)), "li": (List[int], ([], ["v"])), "li[1]": (int, ("v",)), "lu[0]": (Union[int, str], ("v", "w")), "lu[1]": (Union[int, str], ("v", "")), "ll[0]": (List[Optional[int]], ([], ["v"])), "ll[0][0]": (Optional[int], ("v", None)),
    "di": (Dict[str, int], ({"z": "v"},)), "di.k": (int, ("v",)), "du[k]": (Union[int, float], ("v", 0.5)), "de.RED": (str, ("t",)), "n": (N, (N(4),)), "n.u": (Union[int, str], ("v", "w")), "on": (Optional[N], (N(5), None)), "ln[0].i": (int, ("v",)), "ln[0]": (N, (N(6),)), "ln": (List[N], ([],)),
}


def split(p):
    return [int(k) if k.isdigit() else k for k in p.replace("[", ".").replace("]", "").split(".")]


def walk(c, p):
    """(container, key) by successive access to the nodes."""
    ks = split(p)
    for k in ks[:-1]:
        c = c._get_node(k)
    k = ks[-1]
    if isinstance(c, DictConfig) and c._metadata.key_type is Color:
        k = Color[k]
    return c, k


def typed(sx):
    """Targets and references of every declared type."""
    p = sx.choice("target", tuple(TPATHS))
    ty, vals = TPATHS[p]
    v = sx.int("v")
    where = sx.choice("where", ("dict", "list", "field", "any"))

    @dataclass
    class R:
        x: ty = "${..t.%s}" % p  # type: ignore
        y: Any = "${.x}"

    cfg = OmegaConf.create({"t": T, "d": {"x": "${t.%s}" % p}, "l": ["${t.%s}" % p], "r": R})
    c, k = {"dict": (cfg.d, "x"), "list": (cfg.l, 0), "field": (cfg.r, "x"), "any": (cfg.r, "y")}[where]

    def compare(tag):
        tc, tk = walk(cfg.t, p)
        node = tc._get_node(tk)
        before = snap(cfg)
        r, s = sx.attempt(lambda: c[k]), sx.attempt(lambda: OmegaConf.select(cfg, "t." + p))
        if isinstance(node, (DictConfig, ListConfig)) and not node._is_none():
            sx.prove(r.ok and r.value is node and s.ok and s.value is node, "an interpolation of a typed container gives that container" + tag)
        else:
            w = node._value()
            w = w._value() if hasattr(w, "_value") else w
            sx.prove(r.ok and type(r.value) is type(w) and sx.eq(r.value, w), "an interpolation of a typed value gives that value" + tag)
            sx.prove(s.ok and type(s.value) is type(w) and sx.eq(s.value, w), "as selecting does" + tag)
            g = sx.attempt(lambda: c.get(k) if isinstance(c, DictConfig) else c.get(k, 1))
            sx.prove(g.ok and type(g.value) is type(w) and sx.eq(g.value, w), "as get does" + tag)
        sx.prove(sx.eq(snap(cfg), before), "reading changes nothing" + tag)

    compare("")
    what = sx.choice("change", ("value", "missing", "update", "inter", "delete"))
    tc, tk = walk(cfg.t, p)
    new = sx.choice("new", vals) if what in ("value", "update") else None
    new = v if isinstance(new, str) and new == "v" else [v] if isinstance(new, list) and new else {"z": v} if isinstance(new, dict) else new
    if what == "value":
        tc[tk] = new
        compare(": after a change")
    elif what == "update":
        OmegaConf.update(cfg, "t." + p, new, merge=False)
        compare(": after a change")
    elif what == "missing":
        tc[tk] = "???"
        r = sx.attempt(lambda: c[k])
        sx.prove(not r.ok and isinstance(r.exc, InterpolationToMissingValueError), "a missing target raises")
    elif what == "inter":
        OmegaConf.update(cfg, "o", sx.choice("ov", vals), merge=False)
        tc[tk] = "${o}"
        w = cfg.o
        r = sx.attempt(lambda: c[k])
        if w is None or isinstance(w, (DictConfig, ListConfig)) or isinstance(w, str) and w == "v":
            sx.stop()
        sx.prove(r.ok and type(r.value) is type(w) and sx.eq(r.value, w), "a chain gives the value at its end, through typed fields")
    elif what == "delete":
        if not (isinstance(tc, ListConfig) or tc._metadata.object_type in (dict, None)):
            sx.stop()
        n = len(tc)
        del tc[tk]
        r = sx.attempt(lambda: c[k])
        if isinstance(tc, ListConfig) and tk < n - 1:
            compare(": after a change")
        else:
            sx.prove(not r.ok and isinstance(r.exc, InterpolationKeyError), "a removed target raises")


TG = (I(0, ("a",)), I(0, ("b", "c")), I(0, ("l", 0)), I(0, ("b",)), I(0, ("l",)), I(0, ("d",)), I(0, ("b", "v")), I(1, ("d",)), I(2, ("d",)), I(1, ("c",)), I(0, ("a", "c")), I(0, ("a", "v")), I(0, ("l", 0, "v")), 5, None, "???")
HARNESSES = [
    ("reads", reads, {"quick": {"ups": (0, 1, 2, 3, 4, 5), "notes": (0,), "how": ("item",), "slen": 2},
                      "thorough": {"ups": (0, 1, 2, 3, 4, 5, 6), "notes": (0, 1, 2, 3, 4), "how": HOW, "slen": 3}},
     ["an interpolation gives the value it names", "with the documented error", "an interpolation of a container gives that container"]),
    ("notes", reads, {"quick": {"ups": (0, 2), "notes": (1, 2, 3), "how": ("get", "select", "iter"), "slen": 1}, "thorough": {"ups": (0, 2, 3), "notes": (0, 1, 2, 3, 4), "how": HOW, "slen": 1}},
     ["an interpolation gives the value it names"]),
    ("live", live, {"quick": {"pos": (("s",), ("a", "b", "s")), "how": ("item", "get"), "steps": 1, "conv": False, "slen": 1},
                    "thorough": {"pos": POS, "how": ("item", "get", "deref", "attr"), "steps": 2, "conv": True, "slen": 1}},
     ["an interpolation gives the value it names: after changes", "with the documented error: after changes"]),
    ("repl", chains, {"quick": {"targets": TG[:4] + TG[5:7] + TG[10:13], "repl": 1}, "thorough": {"targets": TG, "repl": 1}}, ["with the documented error", "an interpolation gives the value it names"]),
    ("chains", chains, {"quick": {"targets": TG[:4] + TG[5:7] + TG[10:13], "repl": 0}, "thorough": {"targets": TG, "repl": 0}}, ["with the documented error", "an interpolation gives the value it names"]),
    ("levels", levels, {"quick": {"n": 5, "top": (5, I(1, ("y",))), "targets": (I(2, ("x",)), I(3, ("x",)), I(1, ("x",)), I(0, ("x",))), "conv": False},
                        "thorough": {"n": 6, "top": (5, I(1, ("y",)), "???"), "targets": (I(2, ("x",)), I(3, ("x",)), I(1, ("x",)), I(0, ("x",)), I(2, ("a", "a", "x"))), "conv": True}}, ["an interpolation gives the value it names"]),
    ("typed", typed, {"quick": {}, "thorough": {}}, ["an interpolation of a typed value gives that value: after a change", "a missing target raises", "a removed target raises", "a chain gives the value at its end, through typed fields"]),
    ("dyn", dyn, {"quick": {"how": ("item",), "notes": (0, 3)}, "thorough": {"how": ("item", "get", "deref", "attr", "select"), "notes": (0, 1, 2, 3)}}, ["an interpolation gives the value it names"]),
]
BOUNDS = ("a tree of depth 4 with dicts, lists, None, missing values and links; interpolations at five positions, 0 to 6 leading dots, 36 paths of up to four keys in five "
          "dot/bracket notations; unbounded symbolic ints, bools, strings up to slen as values; one or two changes out of 17 kinds between two reads; three mutually "
          "referring nodes with up to 16 targets each (all chains and cycles up to length 3); five (six) nested levels with four (five) relative or absolute targets each; keys given by nested interpolations; 27 typed targets (unions, optionals, containers, every scalar type) read through four kinds of typed and untyped references before and after five kinds of change. Key names are concrete.")
