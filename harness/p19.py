"""select, update and item access agree about paths."""
import copy

from omegaconf import DictConfig, ListConfig, OmegaConf, open_dict
from omegaconf.errors import ConfigTypeError, InterpolationResolutionError, MissingMandatoryValue

from .common import all_nodes, keys_ok, plain, snap
from .p12 import TPATHS, Color, Err, I, N, T, at, build, follow, split
from .p12 import walk as down


class Stop(Exception):
    pass


def walk(m, base, ups, keys):
    """('value', pos) | ('absent',) | ('missing', last) | ('inter',) | ('climb',): where successive item access along the path ends."""
    cur = base
    for _ in range(ups - 1):
        if not cur:
            return ("climb",)
        cur = cur[:-1]
    for n, k in enumerate(keys):
        c = at(m, cur)
        if isinstance(c, list):
            try:
                k = int(k)
            except ValueError:
                return ("type",)
            if not 0 <= k < len(c):  # by design, negative indices do not select
                return ("neg",) if -len(c) <= k < 0 else ("absent",)
        elif isinstance(c, dict):
            if k not in c:
                return ("absent",)
        else:
            return ("absent",)
        cur = cur + (k,)
        x = at(m, cur)
        if isinstance(x, I):
            try:
                cur = follow(m, cur, x)
            except Err as e:
                return ("inter",)
            x = at(m, cur)
        if isinstance(x, str) and x == "???":
            return ("missing", n == len(keys) - 1)
    return ("value", cur)


def tree(sx):
    return {"a": {"b": sx.int("v"), "c": [1, {"d": sx.str("w", 0, 2, "a.?")}], "e": "???", "n": None, "s": I(1, ("c",))}, "l": [10, [20, "???"], {"k": True, "1": "one"}],
            "x": I(0, ("a",)), "y": I(0, ("x", "c", 1)), "bad": I(0, ("nope",)), "im": I(0, ("a", "e")), "t": "txt", "0": {"-1": "neg"}}


KEYS = ("a", "b", "c", "d", "e", "n", "s", "l", "k", "x", "y", "bad", "im", "t", "nokey", "0", "1", "-1", "2", "-4")
NOTE = ("dots", "brackets", "last", "first")


def spell(ups, keys, note):
    out = "." * ups
    for i, k in enumerate(keys):
        br = note == "brackets" or note == "last" and i == len(keys) - 1 and i or note == "first" and i == 0
        out += "[" + k + "]" if br else ("." if i else "") + k
    return out


def pick(sx, n, keys):
    return [sx.choice("k%d" % i, keys) for i in range(n)]


def node_at(cfg, pos):
    for k in pos:
        cfg = cfg._get_node(k)
    return cfg


def items(cfg, base, ups, keys):
    c = node_at(cfg, base)
    for _ in range(ups - 1):
        c = c._get_parent()
    for k in keys:
        if not OmegaConf.is_config(c):
            raise ConfigTypeError()
        c = c[int(k) if isinstance(c, ListConfig) else k]
    return c


def select(sx):
    m = tree(sx)
    cfg = OmegaConf.create(build(m))
    base = sx.choice("base", sx.p["base"])
    ups = sx.choice("ups", sx.p["ups"])
    n = sx.choice("n", sx.p["n"])
    keys = pick(sx, n, sx.p["keys"])
    path = spell(ups, keys, sx.choice("note", sx.p["note"]))
    kw = {}
    d = sx.choice("default", sx.p["default"])
    if d != "no":
        kw["default"] = None if d == "none" else "DFLT"
    tm, tr = sx.choice("tm", sx.p["tm"]), sx.choice("tr", sx.p["tr"])
    before = snap(cfg)
    r = sx.attempt(lambda: OmegaConf.select(node_at(cfg, base), path, throw_on_missing=tm, throw_on_resolution_failure=tr, **kw))
    sx.observe("r", r.kind)
    sx.prove(sx.eq(snap(cfg), before), "selecting changes nothing")
    it = sx.attempt(lambda: items(cfg, base, ups, keys))
    o = walk(m, base, max(ups, 1), keys)
    sx.prove(it.ok == (o[0] == "value") or o[0] == "neg", "item access succeeds for the same paths")
    dflt = kw.get("default")
    if o[0] == "value":
        want = at(m, o[1])
        sx.prove(r.ok, "an existing path is selected")
        if isinstance(want, (dict, list)):
            sx.prove(r.value is node_at(cfg, o[1]) and it.value is r.value, "a container is selected as itself")
        else:
            sx.prove(sx.eq(r.value, want) and type(r.value) is type(want) and sx.eq(it.value, want), "the value is the one item access reaches")
    elif o[0] == "missing" and tm:
        sx.prove(not r.ok and isinstance(r.exc, MissingMandatoryValue), "a missing value raises when asked to")
    elif o[0] == "inter" and tr:
        sx.prove(not r.ok and isinstance(r.exc, InterpolationResolutionError), "an unresolvable interpolation raises when asked to")
    elif o[0] == "type" and tr:
        sx.prove(not r.ok and isinstance(r.exc, ConfigTypeError), "a list index that is not an int raises")
    elif o[0] == "climb":
        sx.prove(not r.ok, "climbing above the root raises")
    else:
        sx.prove(r.ok, "an absent value does not raise")
        sx.prove(r.value is None if dflt is None else r.value == dflt, "an absent value gives the default or None")


# ---- update

class Fail(Exception):
    merging = False


def utree(sx, v):
    return {"a": {"b": v, "c": [1, {"d": 2}], "n": None, "q": {"r": {"z": 0}}}, "l": [10, [20], {"k": True}], "t": "txt", "m": "???", "e": {}}


VALUES = {"int": lambda sx: sx.int("u"), "str": lambda sx: "s", "none": lambda sx: None, "miss": lambda sx: "???", "dict": lambda sx: {"b": sx.int("u"), "new": 2}, "dict2": lambda sx: {"d": "dd", "q": {"r": {"y": 1}}},
          "edict": lambda sx: {}, "list": lambda sx: [sx.int("u"), {"g": 1}], "elist": lambda sx: [], "cfg": lambda sx: OmegaConf.create({"b": sx.int("u"), "n": {"o": 1}}), "lcfg": lambda sx: OmegaConf.create([sx.int("u")]),
          "dmiss": lambda sx: {"b": "???", "zz": "???"}}
UKEYS = ("a", "b", "c", "n", "q", "r", "l", "t", "m", "e", "new", "0", "1", "-1", "5")


def struct_at(pos, fl, over):
    while True:
        if pos == over:
            return False
        if pos in fl:
            return True
        if not pos:
            return False
        pos = pos[:-1]


def mrg(d, s, pos, fl, over):
    """Merge plain s into model container d at pos."""
    if isinstance(d, list):
        if not isinstance(s, list):
            raise Fail()
        d[:] = copy.deepcopy(s)
        return
    if not isinstance(s, dict):
        raise Fail()
    for k, x in s.items():
        if k in d:
            if isinstance(d[k], dict) and isinstance(x, dict):
                mrg(d[k], x, pos + (k,), fl, over)
            elif isinstance(x, str) and x == "???":
                pass
            else:
                d[k] = copy.deepcopy(x)
        else:
            if struct_at(pos, fl, over):
                raise Fail()
            d[k] = copy.deepcopy(x)


def model_update(m, keys, val, merge, force, fl):
    cur = ()
    for k in keys[:-1]:
        c = at(m, cur)
        if isinstance(c, list):
            k = index(c, k)
        elif k not in c and struct_at(cur, fl, cur if force else None):
            raise Fail()
        x = c[k] if isinstance(c, list) else c.get(k)
        if not isinstance(x, (dict, list)):
            c[k] = {}
            fl.discard(cur + (k,))
        cur = cur + (k,)
    c = at(m, cur)
    k = keys[-1]
    if isinstance(c, list):
        k = index(c, k)
    over = cur if force else None
    x = c[k] if isinstance(c, list) else c.get(k)
    if merge and isinstance(val, (dict, list)) and isinstance(x, (dict, list)):
        try:
            mrg(x, val, cur + (k,), fl, over)
        except Fail as e:
            e.merging = True
            raise
        return cur + (k,)
    if isinstance(c, dict) and k not in c and struct_at(cur, fl, over):
        raise Fail()
    c[k] = copy.deepcopy(val)
    for p in list(fl):
        if p[:len(cur) + 1] == cur + (k,):
            fl.discard(p)
    return cur + (k,)


def index(c, k):
    try:
        k = int(k)
    except ValueError:
        raise Fail()
    if not -len(c) <= k < len(c):
        raise Fail()
    return k % len(c)


def update(sx):
    v = sx.int("v")
    m = utree(sx, v)
    cfg = OmegaConf.create(m)
    fl = set()
    where = sx.choice("struct", sx.p["struct"])
    for pos in {"no": (), "root": ((),), "a": (("a",),), "q": (("a", "q"),)}[where]:
        OmegaConf.set_struct(node_at(cfg, pos), True)
        fl.add(pos)
    keys = pick(sx, sx.choice("n", sx.p["n"]), sx.p["keys"])
    path = spell(0, keys, sx.choice("note", sx.p["note"]))
    val = VALUES[sx.choice("val", sx.p["values"])](sx)
    merge, force = sx.choice("merge", sx.p["merge"]), sx.choice("force", sx.p["force"])
    before = snap(cfg)
    vb = snap(val) if OmegaConf.is_config(val) else copy.deepcopy(val)
    r = sx.attempt(lambda: OmegaConf.update(cfg, path, val, merge=merge, force_add=force))
    sx.observe("r", r.ok)
    sx.prove(sx.eq(snap(val) if OmegaConf.is_config(val) else val, vb), "the given value is not changed")
    want = copy.deepcopy(m)
    try:
        pos = model_update(want, keys, plain(val), merge, force, fl)
    except Fail as e:
        sx.prove(not r.ok, "an update that names nothing updatable raises")
        if e.merging:  # a merge may keep what it did before the failing element
            sx.stop()
        sx.prove(sx.eq(snap(cfg), before), "a failed update changes nothing")
        return
    sx.prove(r.ok, "the update succeeds")
    sx.prove(sx.eq(plain(cfg), want), "the named path has the new value and every other path keeps its value")
    sx.prove(list(plain(cfg)) == list(want), "in the same order")
    sx.prove(keys_ok(cfg), "links")
    nodes = all_nodes(cfg)
    sx.prove(len({id(n) for n in nodes}) == len(nodes) and not any(n is x for n in nodes for x in (all_nodes(val) if OmegaConf.is_config(val) else ())), "nothing is shared with the given value")
    s = sx.attempt(lambda: OmegaConf.select(cfg, ".".join(map(str, pos))))
    w = at(want, pos)
    w = None if isinstance(w, str) and w == "???" else w
    sx.prove(s.ok and sx.eq(plain(s.value), w) if w is not None else s.ok and s.value is None, "selecting the path gives the new value")
    sx.prove(all(n._get_node_flag("struct") is (True if p in fl else None) for p, n in containers(cfg, ())), "struct flags are unchanged")


def containers(c, pos):
    out = [(pos, c)]
    for k, n in (enumerate(c._content) if isinstance(c, ListConfig) else c._content.items()):
        if isinstance(n, (DictConfig, ListConfig)) and isinstance(n._content, (dict, list)):
            out += containers(n, pos + (k,))
    return out


# ---- typed trees

TV = {
    "int": lambda sx: sx.int("v"), "text": lambda sx: "w", "none": lambda sx: None, "missing": lambda sx: "???", "inter": lambda sx: "${x}", "float": lambda sx: 0.5, "num": lambda sx: "7", "color": lambda sx: Color.BLUE,
    "list": lambda sx: [sx.int("v")], "elist": lambda sx: [], "slist": lambda sx: ["w"], "dict": lambda sx: {"k": sx.int("v")}, "ndict": lambda sx: {"i": sx.int("v")}, "obj": lambda sx: N(sx.int("v")),
    "cfg": lambda sx: OmegaConf.create({"i": sx.int("v")}), "scfg": lambda sx: OmegaConf.structured(N(sx.int("v"), "z")), "lcfg": lambda sx: OmegaConf.create([sx.int("v"), 2]), "cls": lambda sx: N,
}


def typed(sx):
    """Selecting from and updating configs with fields of every type."""
    p = sx.choice("path", tuple(TPATHS))
    cfg = OmegaConf.create({"x": 5, "t": T})
    tc, tk = down(cfg.t, p)
    state = sx.choice("state", ("as it is", "missing", "none", "inter", "gone"))
    if state == "gone":
        if not (isinstance(tc, ListConfig) or tc._metadata.object_type in (dict, None)) or isinstance(tc, ListConfig) and tk != len(tc) - 1:
            sx.stop()
        del tc[tk]
    elif state != "as it is":
        r = sx.attempt(lambda: tc.__setitem__(tk, {"missing": "???", "none": None, "inter": "${nokey}"}[state]))
        if not r.ok:
            sx.stop()
    node = tc._get_node(tk) if state != "gone" else None
    before = snap(cfg)
    tm, tr, d = sx.choice("tm", TF), sx.choice("tr", TF), sx.choice("default", ALLD)
    kw = {} if d == "no" else {"default": None if d == "none" else "DFLT"}
    r = sx.attempt(lambda: OmegaConf.select(cfg, "t." + p, throw_on_missing=tm, throw_on_resolution_failure=tr, **kw))
    sx.prove(sx.eq(snap(cfg), before), "selecting changes nothing: typed")
    if state == "missing" and tm:
        sx.prove(not r.ok and isinstance(r.exc, MissingMandatoryValue), "a missing value raises when asked to: typed")
    elif state == "inter" and tr:
        sx.prove(not r.ok and isinstance(r.exc, InterpolationResolutionError), "an unresolvable interpolation raises when asked to: typed")
    elif state in ("missing", "inter", "gone"):
        sx.prove(r.ok and (r.value == kw["default"] if kw.get("default") else r.value is None), "an absent value gives the default or None: typed")
    elif isinstance(node, (DictConfig, ListConfig)) and not node._is_none():
        sx.prove(r.ok and r.value is node, "a container is selected as itself: typed")
    else:
        w = tc[tk]
        sx.prove(r.ok and type(r.value) is type(w) and sx.eq(r.value, w), "the value is the one item access reaches: typed")


def tupdate(sx):
    """Updating a typed path does what assigning (or merging) at the container on the way does."""
    p = sx.choice("path", tuple(TPATHS))
    val = TV[sx.choice("val", tuple(TV))](sx)
    merge, force = sx.choice("merge", TF), sx.choice("force", TF)
    cfg, twin = OmegaConf.create({"x": 5, "t": T}), OmegaConf.create({"x": 5, "t": T})
    before = snap(cfg)
    r = sx.attempt(lambda: OmegaConf.update(cfg, "t." + p, val, merge=merge, force_add=force))
    tc, tk = down(twin.t, p)

    def model():
        n = tc._get_node(tk)
        if merge and isinstance(n, (DictConfig, ListConfig)) and (isinstance(val, (dict, list)) or OmegaConf.is_config(val)):
            if force:
                with open_dict(tc):
                    n.merge_with(val)
            else:
                n.merge_with(val)
        else:
            tc[tk] = val
    w = sx.attempt(model)
    sx.observe("r", (r.kind, w.kind))
    sx.prove(r.ok == w.ok and (r.ok or type(r.exc) is type(w.exc)), "an update succeeds when assigning or merging at that path does")
    if r.ok:
        sx.prove(sx.eq(snap(cfg), snap(twin)), "and has the same effect")
        sx.prove(keys_ok(cfg), "links: typed")
        n = tc._get_node(tk)
        if not n._is_missing() and not n._is_interpolation():
            s = OmegaConf.select(cfg, "t." + p)
            sx.prove(sx.eq(plain(s), plain(tc[tk])), "selecting the path gives the new value: typed")
    elif not merge:
        sx.prove(sx.eq(snap(cfg), before), "a failed update changes nothing: typed")


LS = ["the value is the one item access reaches", "an absent value gives the default or None"]
LU = ["the named path has the new value and every other path keeps its value", "a failed update changes nothing"]
B, TF, ALLD = ((),), (False, True), ("no", "none", "val")
HARNESSES = [
    ("paths", select, {"quick": {"base": B, "ups": (0,), "n": (1, 2), "keys": KEYS, "note": ("dots",), "default": ("no",), "tm": (False,), "tr": (True,)},
                       "thorough": {"base": B, "ups": (0,), "n": (1, 2, 3), "keys": KEYS, "note": ("dots", "brackets"), "default": ("no",), "tm": (False,), "tr": (True,)}}, LS),
    ("options", select, {"quick": {"base": B, "ups": (0,), "n": (1, 2), "keys": ("a", "e", "x", "bad", "im", "nokey", "0"), "note": ("dots",), "default": ALLD, "tm": TF, "tr": TF},
                         "thorough": {"base": B, "ups": (0,), "n": (1, 2), "keys": KEYS, "note": ("dots",), "default": ALLD, "tm": TF, "tr": TF}}, LS + ["a missing value raises when asked to", "an unresolvable interpolation raises when asked to"]),
    ("relative", select, {"quick": {"base": ((), ("a",), ("a", "c"), ("l", 1)), "ups": (0, 1, 2, 3, 4), "n": (1, 2), "keys": ("a", "b", "c", "1"), "note": ("dots", "first"), "default": ("no",), "tm": (False,), "tr": (True,)},
                          "thorough": {"base": ((), ("a",), ("a", "c"), ("l", 1), ("a", "c", 1)), "ups": (0, 1, 2, 3, 4), "n": (1, 2, 3), "keys": ("a", "b", "c", "1", "x"), "note": NOTE, "default": ("no",), "tm": (False,), "tr": (True,)}},
     LS + ["climbing above the root raises"]),
    ("deep", select, {"quick": {"base": B, "ups": (0,), "n": (3, 4), "keys": ("a", "c", "x", "1", "d", "l"), "note": ("dots",), "default": ("no",), "tm": (False,), "tr": (True,)},
                      "thorough": {"base": B, "ups": (0,), "n": (3, 4), "keys": ("a", "c", "x", "1", "d", "l", "y", "s", "0", "k"), "note": ("dots",), "default": ("no",), "tm": (False,), "tr": (True,)}}, LS),
    ("update", update, {"quick": {"struct": ("no",), "n": (1, 2), "keys": UKEYS, "note": ("dots",), "values": ("int", "dict", "list"), "merge": TF, "force": (False,)},
                        "thorough": {"struct": ("no",), "n": (1, 2, 3), "keys": UKEYS, "note": ("dots", "brackets"), "values": ("int", "dict", "list"), "merge": TF, "force": (False,)}}, LU),
    ("uvals", update, {"quick": {"struct": ("no",), "n": (1, 2), "keys": ("a", "l", "c", "1", "m"), "note": ("dots",), "values": tuple(VALUES), "merge": TF, "force": (False,)},
                       "thorough": {"struct": ("no", "root"), "n": (1, 2, 3), "keys": ("a", "q", "l", "c", "1", "m", "n"), "note": ("dots",), "values": tuple(VALUES), "merge": TF, "force": TF}}, LU),
    ("uneg", update, {"quick": {"struct": ("no",), "n": (3,), "keys": ("l", "-1", "-9", "1", "new"), "note": ("dots",), "values": ("int", "dict"), "merge": TF, "force": (False,)},
                      "thorough": {"struct": ("no",), "n": (4,), "keys": ("l", "-1", "-9", "1", "new", "a"), "note": ("dots",), "values": ("int", "dict"), "merge": TF, "force": (False,)}}, LU),
    ("ustruct", update, {"quick": {"struct": ("root", "a", "q"), "n": (1, 2, 3), "keys": ("a", "q", "r", "new"), "note": ("dots",), "values": ("int", "dict2"), "merge": TF, "force": TF},
                         "thorough": {"struct": ("root", "a", "q"), "n": (1, 2, 3), "keys": UKEYS, "note": ("dots",), "values": ("int", "dict2"), "merge": TF, "force": TF}}, LU),
    ("typed", typed, {"quick": {}, "thorough": {}}, ["the value is the one item access reaches: typed", "a missing value raises when asked to: typed"]),
    ("tupdate", tupdate, {"quick": {}, "thorough": {}}, ["and has the same effect", "selecting the path gives the new value: typed", "a failed update changes nothing: typed"]),
]
BOUNDS = ("paths of up to 2 keys (thorough 3; 4 in the deep and update harnesses) over 20 keys (existing, absent, indices in and out of range, through interpolations, missing and None values), dot and bracket notation, "
          "0 to 4 leading dots from 4 (5) containers, every default and throw option; updates of paths of up to 3 keys with 12 kinds of value, merge and force_add, struct flags at three places; leaf values are symbolic; 27 typed paths (every scalar type, unions, optionals, nested containers, structured configs) in 5 states with every option, and updated with 18 kinds of value. "
          "Negative indices do not select, by design; updates through interpolated containers are not claimed, nor the state after a merge that failed half way")
