"""Path strings and key sequences convert both ways without loss."""
from enum import Enum
from typing import Any, Dict, List

from omegaconf import DictConfig, ListConfig, Node, OmegaConf, UnionNode
from omegaconf._impl import select_node
from omegaconf._utils import split_key
from omegaconf.errors import ConfigKeyError

from .common import all_nodes, plain, snap
from .p12 import Color as PColor
from .p12 import N, T


class Color(Enum):
    RED = 1
    BLUE = 2


def path_of(sx, keys, dots, notes):
    out = "." * dots
    for i, k in enumerate(keys):
        out = out + ("[" + k + "]" if notes[i] else (("." if i else "") + k))
    return out


def split(sx):
    n = sx.choice("n", sx.p["n"])
    dots = sx.choice("dots", sx.p["dots"])
    notes = [sx.flag("b%d" % i) for i in range(n)]
    keys = []
    for i in range(n):
        lo = 0 if i or notes[i] else 1
        keys.append(sx.str("k%d" % i, lo, sx.p["len"], sx.p["alpha"] + (".[" if notes[i] else "]")))
    if sx.p.get("nob"):
        notes = [False] * n
    got = split_key(path_of(sx, keys, dots, notes))
    want = [""] * dots + keys
    sx.prove(len(got) == len(want), "as many keys as written")
    sx.prove(sx.eq(got, want), "splitting recovers the keys as written")


def equivalent(sx):
    """Any mix of notations selects and updates the same node."""
    keys = [sx.str("k%d" % i, 1, sx.p["len"], sx.p["alpha"]) for i in range(sx.p["n"])]
    v = sx.int("v")
    x = v
    for k in reversed(keys):
        x = {k: x}
    cfg = OmegaConf.create(x)
    notes = [sx.flag("b%d" % i) for i in range(len(keys))]
    p = path_of(sx, keys, 0, notes)
    r = sx.attempt(lambda: OmegaConf.select(cfg, p, default="D"))
    sx.prove(r.ok and sx.eq(r.value, v), "any notation selects the node")
    u = sx.attempt(lambda: OmegaConf.update(cfg, p, 7))
    sx.prove(u.ok, "any notation updates")
    y = cfg
    for k in keys:
        y = y[k]
    sx.prove(y == 7 and len(all_nodes(cfg)) == len(keys) + 1, "the same node and no other")
    cfg2 = OmegaConf.create({})
    OmegaConf.update(cfg2, p, 7)
    sx.prove(sx.eq(plain(cfg2), plain(cfg)), "creating the path gives the keys as written")


def full(sx):
    """The full key of every node leads to it."""
    al = sx.p["alpha"]
    ks = [sx.str("k%d" % i, 1, sx.p["len"], al) for i in range(3)]
    v = sx.int("v")
    inner = {ks[0]: v, "z" + ks[1]: [v, {ks[2]: None}, ["???", "${nope}"]]}
    shape = sx.choice("shape", sx.p["shapes"])
    data = {"d": lambda: {ks[1]: inner, "zz": inner}, "l": lambda: [inner, [inner], 3], "ld": lambda: {ks[2]: [[inner]], "q": {"r": inner}},
            "odd": lambda: {ks[0]: {ks[0]: {ks[0]: 1}}, "o": DictConfig(None), "m": DictConfig("???"), "i": ListConfig("${d}"), "e": [[], {}]}}[shape]()
    cfg = OmegaConf.create(data)
    before = snap(cfg)
    for n in all_nodes(cfg):
        fk = n._get_full_key(None)
        if n is cfg:
            sx.prove(fk == "", "the root has the empty key")
            continue
        keys = []
        p = n
        while p._get_parent() is not None:
            keys.insert(0, p._key())
            p = p._get_parent()
        s = split_key(fk)
        sx.prove(len(s) == len(keys), "as many keys as levels")
        sx.prove(sx.eq(s, [str(k) for k in keys]), "the full key splits into the keys on the way")
        if n._is_interpolation() or n._is_none() and isinstance(n, (DictConfig, ListConfig)):
            g = cfg
            for k in keys:
                g = g._get_node(k)
            sx.prove(g is n, "leads to the node")
        else:
            f = sx.attempt(lambda: select_node(cfg, fk))
            sx.prove(f.ok and f.value is n, "the full key leads to the node")
        sx.prove(sx.eq(n._get_parent()._get_full_key(n._key()), fk), "the parent reports the same full key")
        c = cfg
        while n is not cfg:
            n = n._get_parent()
            pk = n._get_full_key(None)
            sx.prove(bool(sx.eq(fk[:len(pk)], pk)), "the key of a container is a prefix of those inside")
    sx.prove(sx.eq(snap(cfg), before), "asking changes nothing")


def absent(sx):
    """The full key of something that is not there is the container's plus the key."""
    k = sx.str("k", 1, sx.p["len"], sx.p["alpha"])
    cfg = OmegaConf.create({"a": {"b": [{"c": {}}, []]}})
    at = sx.choice("at", ("", "a", "a.b[0]", "a.b[0].c"))
    c = OmegaConf.select(cfg, at) if at else cfg
    if k in c:
        sx.stop()
    sx.prove(sx.eq(split_key(c._get_full_key(k)), (split_key(at) if at else []) + [k]), "the key of an absent entry")
    i = sx.int("i", -3, 9)
    l = cfg.a.b
    sx.prove(sx.eq(split_key(l._get_full_key(i)), ["a", "b", str(i if i >= 0 and True else i)]), "the key of a list position")


class Other:
    pass


def typed(sx):
    """Keys that are not strings."""
    kind = sx.choice("kind", ("int", "enum", "bool", "float", "bytes", "untyped-int"))
    if kind in ("int", "untyped-int"):
        key = sx.int("key", -20, 120)
        text = str(key)
    else:
        key, text = {"enum": (Color.RED, "RED"), "bool": (True, "True"), "float": (1.0, "1.0"), "bytes": (b"x", "b'x'")}[kind]
    d = {key: {"x": 1, "y": [0]}}
    if kind == "untyped-int":
        cfg = OmegaConf.create({"d": d})
    else:
        cfg = OmegaConf.create({"d": DictConfig(d, key_type=type(key) if kind != "enum" else Color)})
    n = cfg.d[key]
    for node, tail in ((n, ""), (n._get_node("x"), ".x"), (n._get_node("y"), ".y"), (n.y._get_node(0), ".y[0]")):
        sx.prove(sx.eq(node._get_full_key(None), "d." + text + tail), "the full key names the key")
    sx.prove(sx.eq(n._get_full_key("x"), "d." + text + ".x") and sx.eq(cfg.d._get_full_key(key), "d." + text), "from its parent too")
    if kind == "enum":
        f = sx.attempt(lambda: select_node(cfg, n._get_full_key(None)))
        sx.observe("f", f.kind)
        sx.prove(f.ok and f.value is n, "the key of a typed dict leads to the node")


LISTOPS = {
    "none": lambda l: None, "insert": lambda l: l.insert(0, l[0]), "del": lambda l: l.__delitem__(0), "reverse": lambda l: l.reverse(), "append": lambda l: l.append(l[0]), "pop": lambda l: l.pop(0),
    "iadd": lambda l: l.extend(list(l)), "slice": lambda l: l.__setitem__(slice(0, 1), [l[-1], l[-1]]), "delslice": lambda l: l.__delitem__(slice(0, 1)), "sort": lambda l: l.sort(key=lambda x: -1 if x == l[-1] else 1), "assign": lambda l: l.__setitem__(0, l[-1]),
}


def tfull(sx):
    """The full keys of the nodes of a typed tree, those inside unions included, after lists in it changed."""
    f = sx.choice("field", ("lu", "ln", "ll", "li"))
    cfg = OmegaConf.create({"a": [{"t": T}]})
    t = cfg.a[0].t
    t.li.append(sx.int("v"))
    t.ln.append(N(2, "z"))
    t.ll.append([1])
    for i in range(2):
        op = sx.choice("op%d" % i, tuple(LISTOPS))
        if not len(t[f]):
            sx.stop()
        LISTOPS[op](t[f])

    def check(c, text):
        for k, n in (enumerate(c._content) if isinstance(c, ListConfig) else c._content.items()):
            want = text + ("[%d]" % k if isinstance(c, ListConfig) else "." + (k.name if isinstance(k, PColor) else str(k))) if text else str(k)
            sx.prove(n._get_full_key(None) == want, "the full key of a typed node is its path")
            sx.prove(c._get_full_key(k) == want, "the container reports the same")
            if isinstance(n, UnionNode) and isinstance(n._value(), Node):
                sx.prove(n._value()._get_full_key(None) == want, "the value inside a union has the key of the union")
            if isinstance(n, (ListConfig, DictConfig)) and isinstance(n._content, (list, dict)):
                check(n, want)
    check(cfg, "")


def relative(sx):
    """Leading dots climb one container per dot after the first."""
    cfg = OmegaConf.create({"u": 0, "a": {"u": 1, "b": [{"u": 2, "c": {"u": 3, "d": {"u": 4}}}]}})
    at = sx.choice("at", ("", "a", "a.b", "a.b[0]", "a.b[0].c", "a.b[0].c.d"))
    c = OmegaConf.select(cfg, at) if at else cfg
    dots = sx.choice("dots", range(0, 8))
    depth = len(split_key(at)) if at else 0
    last = sx.choice("last", ("u", "[u]", "0", ""))
    if last == "" and dots == 0:
        sx.stop()
    r = sx.attempt(lambda: OmegaConf.select(c, "." * dots + last))
    sx.observe("r", r.kind)
    up = max(dots - 1, 0)
    if up > depth:
        sx.prove(not r.ok and isinstance(r.exc, ConfigKeyError), "climbing above the root raises")
        return
    t = c
    for _ in range(up):
        t = t._get_parent()
    if last == "":
        sx.prove(r.ok and r.value is t, "dots alone name the container")
    elif isinstance(t, ListConfig):
        if last == "0":
            sx.prove(r.ok and r.value is t[0], "the element")
        else:
            sx.prove(not r.ok, "a list has no such key")
    elif last == "0":
        sx.prove(r.ok and r.value is None, "absent")
    else:
        sx.prove(r.ok and r.value == t.u, "one container per dot after the first")


AL = "ab0 $-:\n\u00e9_"
S = ["splitting recovers the keys as written"]
HARNESSES = [
    ("split", split, {"quick": {"n": (1, 2, 3), "dots": (0, 1, 3), "len": 3, "alpha": AL}, "thorough": {"n": (1, 2, 3, 4), "dots": (0, 1, 2, 3), "len": 5, "alpha": AL}}, S),
    ("equivalent", equivalent, {"quick": {"n": 3, "len": 2, "alpha": "a0 -\n"}, "thorough": {"n": 4, "len": 3, "alpha": AL}}, ["any notation selects the node"]),
    ("full", full, {"quick": {"len": 3, "alpha": AL, "shapes": ("d", "l", "ld", "odd")}, "thorough": {"len": 5, "alpha": AL, "shapes": ("d", "l", "ld", "odd")}}, ["the full key leads to the node", "the full key splits into the keys on the way"]),
    ("absent", absent, {"quick": {"len": 3, "alpha": AL}, "thorough": {"len": 6, "alpha": AL}}, ["the key of an absent entry", "the key of a list position"]),
    ("typed", typed, {"quick": {}, "thorough": {}}, ["the full key names the key", "the key of a typed dict leads to the node"]),
    ("tfull", tfull, {"quick": {}, "thorough": {}}, ["the full key of a typed node is its path", "the value inside a union has the key of the union"]),
    ("relative", relative, {"quick": {}, "thorough": {}}, ["one container per dot after the first", "climbing above the root raises"]),
]
BOUNDS = ("well-formed paths of up to 3 (4) keys, each up to 3 (5) free characters out of ten (letters, digits, blank, dollar, minus, colon, line break, non-ASCII; in brackets also dots and opening brackets), every mix of notations, "
          "0 to 3 leading dots; every node of four tree shapes whose string keys are free; absent keys and list positions; keys of other types name themselves in the full key (only string, enum and list keys lead back: paths are strings); "
          "every node of a typed tree after two of 11 list operations (values inside unions included); up to 7 leading dots from every level. Not claimed: malformed paths (unbalanced brackets), keys that contain dots or brackets or are empty, which full keys do not quote")
