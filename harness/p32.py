"""Built-in resolvers compute their documented results."""
import os
import warnings
from enum import Enum
from typing import Any

from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.errors import ConfigKeyError, InterpolationKeyError, InterpolationResolutionError, OmegaConfBaseException

from .common import keys_ok, plain, snap


class Color(Enum):
    RED = 1


VARS = ("OSYM_A", "OSYM_B", "osym_a")
VALUES = (None, "", "x", "1", "null", "${a}", " s ", "a: [1, ${a}]", "é", "a=b", "???")


def env(sx):
    """oc.env: the variable, or the default as text."""
    name = sx.choice("name", VARS)
    val = sx.choice("val", VALUES)
    other = sx.choice("other", (None, "other"))
    default = sx.choice("default", ("no", "int", "str", "null", "bool", "float", "inter", "list", "missing"))
    how = sx.choice("how", sx.p["how"])
    v, s = sx.int("v", -99, 99), sx.str("s", 0, 2, "a1?")
    saved = {k: os.environ.get(k) for k in VARS}
    try:
        for k in VARS:
            os.environ.pop(k, None)
        if val is not None:
            os.environ[name] = val
        if other is not None:
            os.environ[[k for k in VARS if k != name][0]] = other
        d = {"int": lambda: v, "str": lambda: s, "null": lambda: None, "bool": lambda: True, "float": lambda: 1.5, "inter": lambda: "t" + s, "list": lambda: [1, "b"], "missing": lambda: "???", "no": lambda: None}[default]()
        cfg = OmegaConf.create({"n": name, "d": d, "a": 5, "deep": {"l": [None]}})
        if how == "direct":
            from omegaconf.resolvers import oc
            op = (lambda: oc.env(name)) if default == "no" else (lambda: oc.env(name, d))
        else:
            arg = name if how != "nested" else "${n}"
            txt = "${oc.env:" + arg + ("" if default == "no" else ",null" if default == "null" else ",'t" "${d}'" if default == "inter" and how == "never" else ",${d}") + "}"
            if default == "missing":
                sx.stop()
            if how == "list":
                cfg.deep.l[0] = txt
                op = lambda: cfg.deep.l[0]
            else:
                cfg.e = txt
                op = lambda: cfg.e
        r = sx.attempt(op)
        sx.observe("r", r.kind)
        if val is not None:
            sx.prove(r.ok and type(r.value) is str and r.value == val, "a variable that is set gives its text")
        elif default == "no":
            sx.prove(not r.ok and isinstance(r.exc, KeyError if how == "direct" else InterpolationResolutionError), "an unset variable without default raises")
        elif default == "null":
            sx.prove(r.ok and r.value is None, "a null default gives None")
        else:
            want = {"int": lambda: str(v), "str": lambda: s, "bool": lambda: "True", "float": lambda: "1.5", "inter": lambda: "t" + s, "list": lambda: str([1, "b"]), "missing": lambda: "???"}[default]()
            sx.prove(r.ok and isinstance(r.value, str) and r.value == want, "an unset variable gives the default as text")
        # the variable is read anew each time
        if how != "direct":
            os.environ[name] = "later"
            sx.prove(op() == "later", "the environment is read at every access")
    finally:
        for k, x in saved.items():
            if x is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = x


def tree(sx):
    v = sx.int("v")
    return v, {"a": v, "m": "???", "n": None, "x": "${a}", "y": "${nope}", "xm": "${m}", "b": {"c": v, "l": [v, "???", {"q": "w"}], "xr": "${.c}"}, "l": [v, {"k": "z"}, "${b}"], "a:b": 10, "1": "one", "sp ace": 3}


NOTFOUND, MISS, ERR = object(), object(), object()
SELECTS = {  # key -> expected from the top (relative keys are those of the node at b.here)
    "a": lambda v: v, "m": lambda v: MISS, "n": lambda v: None, "x": lambda v: v, "y": lambda v: ERR, "xm": lambda v: ERR, "b.c": lambda v: v, "b.l[0]": lambda v: v, "b.l.0": lambda v: v, "b.l[1]": lambda v: MISS, "b.l[2].q": lambda v: "w", "b.xr": lambda v: v, "l[0]": lambda v: v, "l[1].k": lambda v: "z",
    "l[2].c": lambda v: v, "a:b": lambda v: 10, "1": lambda v: "one", "sp ace": lambda v: 3, "zz": lambda v: NOTFOUND, "b.zz": lambda v: NOTFOUND, "l[9]": lambda v: NOTFOUND, "zz.y.x": lambda v: NOTFOUND, "n.k": lambda v: NOTFOUND, "b.l[9].q": lambda v: NOTFOUND, "b[c]": lambda v: v,
}
RELATIVE = {".c": lambda v: v, ".l[0]": lambda v: v, "..a": lambda v: v, ".zz": lambda v: NOTFOUND, "..m": lambda v: MISS, "..l[1].k": lambda v: "z", "..b.c": lambda v: v}


def select(sx):
    """oc.select: the value of the named node, or the default when it is absent or missing."""
    v, m = tree(sx)
    cfg = OmegaConf.create(m)
    where = sx.choice("where", ("top", "sub", "list"))
    table = dict(SELECTS)
    if where == "sub":
        table.update(RELATIVE)
    key = sx.choice("key", tuple(table))
    if where != "sub" and key not in SELECTS:
        sx.stop()
    default = sx.choice("default", ("no", "int", "null", "text", "inter", "list"))
    w, s = sx.int("w"), sx.str("s", 0, 2, "a?")
    cfg.w, cfg.s = w, s
    if default == "text" and (not s.isalnum() or s == ""):
        sx.stop()
    dt = {"no": "", "int": ",${w}", "null": ",null", "text": ",tt", "inter": ",'<${s}>'", "list": ",[1,2]"}[default]
    txt = "${oc.select:'" + key + "'" + dt + "}"
    if where == "top":
        cfg.here = txt
        op = lambda: cfg.here
    elif where == "sub":
        cfg.b.here = txt
        op = lambda: cfg.b.here
    else:
        cfg.q = [0, [txt]]
        op = lambda: cfg.q[1][0]
    exp = table[key](v)
    before = snap(cfg)
    r = sx.attempt(op)
    sx.observe("r", r.kind)
    if exp is ERR:
        sx.prove(not r.ok and isinstance(r.exc, InterpolationResolutionError), "selecting a node that cannot be resolved raises")
    else:
        if exp is NOTFOUND or exp is MISS:
            exp = {"no": lambda: None, "int": lambda: w, "null": lambda: None, "text": lambda: "tt", "inter": lambda: "<" + s + ">", "list": lambda: [1, 2]}[default]()
            sx.prove(r.ok and (type(r.value) is type(exp) or isinstance(r.value, ListConfig)) and sx.eq(plain(r.value), exp), "absent and missing nodes give the default")
        else:
            sx.prove(r.ok and type(r.value) is type(exp) and sx.eq(r.value, exp), "the value of the named node")
    sx.prove(sx.eq(snap(cfg), before), "nothing changes")
    if key == "a" and where != "list":
        cfg.a = w
        sx.prove(sx.eq(op(), w), "selection follows changes")


def containers(sx):
    """oc.select of containers, live; oc.create; oc.decode."""
    v, w = sx.int("v"), sx.int("w")
    what = sx.choice("what", ("select", "create_dict", "create_list", "create_yaml", "create_none", "create_inter", "create_node", "decode_int", "decode_null", "decode_bad", "decode_num", "decode_rel", "decode_dict", "decode_inter", "decode_text", "select_list", "select_bad", "create_int"))
    OmegaConf.register_new_resolver("give", lambda: {"k": v, "x": "${.k}", "up": "${..a}", "abs": "${a}", "l": [v]})
    cfg = OmegaConf.create({"a": w, "sub": {"c": v, "l": [v], "txt": "here", "t": None}})
    deep = sx.flag("deep")
    home = cfg.sub if deep else cfg
    txt = {"select": "${oc.select:sub}", "select_list": "${oc.select:sub.l}", "select_bad": "${oc.select:[1]}", "create_dict": "${oc.create:${give:}}", "create_list": "${oc.create:[1,{q:${a}},x]}", "create_yaml": "${oc.create:${y}}", "create_none": "${oc.create:null}", "create_inter": "${oc.create:{q:${a},r:'${sub.c}'}}", "create_node": "${oc.create:${sub}}",
           "create_int": "${oc.create:3}", "decode_int": "${oc.decode:'-12'}", "decode_null": "${oc.decode:null}", "decode_bad": "${oc.decode:'[1'}", "decode_num": "${oc.decode:5}", "decode_rel": "${oc.decode:${y}}", "decode_dict": "${oc.decode:'{q: [1, true, x]}'}", "decode_inter": "${oc.decode:${y}}", "decode_text": "${oc.decode:'a b'}"}[what]
    y = {"create_yaml": "A: 10\nC: ${.A}\nD: ${a}\n", "decode_rel": "${.z}", "decode_inter": "[${a}, {q: ${sub.c}}]"}.get(what)
    if y is not None:
        cfg.y = r"\${a}" if False else y.replace("${", "\\${")
    home.z = w
    home.e = txt
    r = sx.attempt(lambda: home.e)
    sx.observe("r", r.kind)
    x = r.value
    if what == "select" and not deep:
        sx.prove(x is cfg.sub, "selecting a container gives the node itself")
    elif what == "select_list":
        sx.prove(x is cfg.sub.l, "selecting a container gives the node itself")
    elif what in ("select_bad", "decode_bad", "decode_num", "create_int"):
        sx.prove(not r.ok and isinstance(r.exc, InterpolationResolutionError), "arguments of a wrong type or form raise")
    elif what == "create_dict":
        sx.prove(isinstance(x, DictConfig) and sx.eq(x.k, v) and sx.eq(x.x, v) and sx.eq(x.abs, w), "a config made of the argument, its interpolations resolved in place")
        sx.prove(x.l == [v] and isinstance(x.l, ListConfig) and x._get_parent() is home, "the config has the parent of the node")
        if not deep:
            sx.prove(sx.eq(x.up, w), "relative interpolations start at the node")
        else:
            sx.prove(not sx.attempt(lambda: x.up).ok, "relative interpolations start at the node")
    elif what == "create_list":
        sx.prove(isinstance(x, ListConfig) and sx.eq(plain(x), [1, {"q": w}, "x"]), "a config made of the argument")
    elif what == "create_yaml":
        sx.prove(isinstance(x, DictConfig) and x.A == 10 and x.C == 10 and sx.eq(x.D, w), "text is read as YAML")
    elif what == "create_none":
        sx.prove(r.ok and (x is None or isinstance(x, DictConfig) and x._is_none()), "null gives a None config")
    elif what == "create_inter":
        sx.prove(isinstance(x, DictConfig) and sx.eq(x.q, w) and sx.eq(x.r, v) or isinstance(x, DictConfig) and sx.eq(x.q, w) and x.r == str(v), "a config made of the argument")
    elif what == "create_node" and not deep:
        sx.prove(isinstance(x, DictConfig) and x is not cfg.sub and sx.eq(x.c, v) and x.txt == "here", "a config made of the argument")
        x.c = w
        sx.prove(sx.eq(cfg.sub.c, v), "the config made is a copy")
    elif what == "decode_int":
        sx.prove(type(x) is int and x == -12, "decoded text")
    elif what == "decode_null":
        sx.prove(r.ok and x is None, "None stays None")
    elif what == "decode_rel":
        sx.prove(r.ok and sx.eq(x, w), "interpolations in decoded text are resolved where the node is")
    elif what == "decode_dict":
        sx.prove(r.ok and x == {"q": [1, True, "x"]} and type(x["q"][1]) is bool, "decoded text")
    elif what == "decode_inter":
        sx.prove(r.ok and sx.eq(plain(x), [w, {"q": v}]), "interpolations in decoded text are resolved")
    elif what == "decode_text":
        sx.prove(r.ok and x == "a b", "decoded text")


def decode_env(sx):
    """Decoding the text of numbers gives the numbers."""
    v = sx.int("v", sx.p["lo"], sx.p["hi"])
    neg = sx.choice("form", ("plain", "plus", "list", "dict", "spaces"))
    t = str(v)
    txt = {"plain": t, "plus": "+" + t, "list": "[" + t + "]", "dict": "{k:" + t + "}", "spaces": t}[neg]
    if neg == "plus" and v < 0:
        sx.stop()
    cfg = OmegaConf.create({"t": txt, "x": "${oc.decode:${t}}"})
    r = sx.attempt(lambda: cfg.x)
    sx.observe("r", r.kind)
    want = {"list": [v], "dict": {"k": v}}.get(neg, v)
    sx.prove(r.ok and sx.eq(plain(r.value), want), "the text of a number decodes to the number")


def nameable(k):
    """Whether an interpolation can name the key k."""
    return isinstance(k, str) and k != "" and not any(c in k for c in ". :[]{}'\"\\()\t")


def dicts(sx):
    """oc.dict.keys and oc.dict.values."""
    n = sx.choice("n", sx.p["n"])
    pool = ("k", "é", "a-b", "null", "1", 1, True, 1.5, Color.RED, b"x", "a b", "a.b", "a:b", "")
    keys = []
    for i in range(n):
        k = sx.str("k%d" % i, 1, 1, "xyz") if sx.flag("sym%d" % i) else sx.choice("p%d" % i, pool)
        if any(k == j for j in keys):
            sx.stop()
        keys.append(k)
    v = [sx.int("v%d" % i) for i in range(n)]
    vals = [v[i] if sx.choice("t%d" % i, ("int", "inter")) == "int" else "${w}" for i in range(n)]
    w = sx.int("w")
    d = {}
    for k, x in zip(keys, vals):
        d[k] = x
    place = sx.choice("place", ("top", "sub", "inter", "relative"))
    m = {"w": w, "d": d, "s": {"d": d}, "link": "${d}"}
    key = {"top": "d", "sub": "s.d", "inter": "link", "relative": ".d"}[place]
    home = lambda c: c.s if place == "relative" else c
    cfg = OmegaConf.create(m)
    home(cfg).ks = "${oc.dict.keys:" + key + "}"
    home(cfg).vs = "${oc.dict.values:" + key + "}"
    r = sx.attempt(lambda: home(cfg).ks)
    sx.observe("ks", r.kind)
    sx.prove(r.ok and isinstance(r.value, ListConfig) and len(r.value) == n and all(type(a) is type(b) and a == b for a, b in zip(r.value, keys)), "the keys of the dict, in order")
    odd = any(not nameable(k) for k in keys)
    q = sx.attempt(lambda: home(cfg).vs)
    want = [w if isinstance(x, str) else x for x in vals]
    held = q.value
    got = sx.attempt(lambda: list(held)) if q.ok else q
    sx.observe("vs", got.kind)
    sx.prove(got.ok and isinstance(held, ListConfig) and sx.eq(got.value, want), "the values of the dict, in order", known=[("P32-dict-values-keys", odd)])
    if odd:
        return
    target = cfg.s.d if place in ("sub", "relative") else cfg.d
    if n:
        target[keys[0]] = 123
        sx.prove(held[0] == 123 and home(cfg).vs[0] == 123, "values follow changes of the dict")
        target["new"] = 5
        sx.prove(len(home(cfg).vs) == n + 1 and list(home(cfg).ks)[-1] == "new", "a new access sees new keys")
    r.value.append("more")
    sx.prove("more" not in target, "the list of keys is a copy")


def baddict(sx):
    """oc.dict.* of something else."""
    fn = sx.choice("fn", ("keys", "values"))
    key = sx.choice("key", ("zz", "i", "l", "m", "n", "xm", "bad", "${i}", "[]", "nd", "s"))
    cfg = OmegaConf.create({"i": sx.int("v"), "l": [1], "m": "???", "n": None, "xm": "${m}", "bad": "${nope}", "nd": DictConfig(None), "s": "text", "e": "${oc.dict." + fn + ":" + key + "}"})
    r = sx.attempt(lambda: cfg.e)
    sx.observe("r", r.kind)
    sx.prove(not r.ok and isinstance(r.exc, InterpolationResolutionError), "anything but an existing dict raises")
    sx.prove(r.exc.full_key == "e" and r.exc.parent_node is cfg, "the error names the node that calls the resolver")


def deprecated(sx):
    """oc.deprecated: the value of the new key, and a warning naming both."""
    v = sx.int("v")
    key = sx.choice("key", ("new", "b.c", "b.l[0]", "b", "e", "el", "f", "fs", "zz", "m", "x", "n", "5", ".new"))
    msg = sx.choice("msg", (None, "Use $NEW_KEY", "$OLD_KEY gone", "plain $X $", "$NEW_KEY$OLD_KEY"))
    where = sx.choice("where", ("top", "sub", "list"))
    cfg = OmegaConf.create({"e": {}, "el": [], "f": False, "fs": "", "new": v, "m": "???", "n": None, "x": "${new}", "b": {"c": v, "l": [v], "new": "near"}})
    txt = "${oc.deprecated:" + (key if key == "5" else "'" + key + "'") + ("" if msg is None else ",'" + msg + "'") + "}"
    if where == "top":
        cfg.old = txt
        op, old = (lambda: cfg.old), "old"
    elif where == "sub":
        cfg.b.old = txt
        op, old = (lambda: cfg.b.old), "b.old"
    else:
        cfg.b.q = [0, txt]
        op, old = (lambda: cfg.b.q[1]), "b.q[1]"
    if key == ".new" and where == "list":
        sx.stop()
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        r = sx.attempt(op)
    sx.observe("r", r.kind)
    texts = [str(x.message) for x in seen if issubclass(x.category, UserWarning)]
    if key in ("zz", "5"):
        sx.prove(not r.ok and isinstance(r.exc, InterpolationResolutionError) and not texts, "an absent or invalid key raises")
        return
    new = {".new": "new" if where == "top" else "b.new"}.get(key, key)
    if key == "x":
        new = r"new" if texts and "new" in texts[0] and "x" not in texts[0] else "x"
    if key == "m":
        return  # the target is a missing node: not claimed (its value is the text "???")
    want = {"b": None, "n": None, ".new": v if where == "top" else "near", "f": False, "fs": ""}.get(key, v)
    if key in ("b", "e", "el"):
        sx.prove(r.ok and r.value is cfg[key], "the node of the new key")
    else:
        sx.prove(r.ok and type(r.value) is type(want) and sx.eq(r.value, want), "the value of the new key")
    full = {None: "'" + old + "' is deprecated. Change your code and config to use '" + new + "'", "Use $NEW_KEY": "Use " + new, "$OLD_KEY gone": old + " gone", "plain $X $": "plain $X $", "$NEW_KEY$OLD_KEY": new + old}[msg]
    sx.prove(len(texts) >= 1 and all(t == full for t in texts), "the warning names the old and the new key")


HARNESSES = [
    ("env", env, {"quick": {"how": ("direct", "interp", "nested")}, "thorough": {"how": ("direct", "interp", "nested", "list")}}, ["a variable that is set gives its text", "an unset variable gives the default as text"]),
    ("select", select, {"quick": {}, "thorough": {}}, ["the value of the named node", "absent and missing nodes give the default"]),
    ("containers", containers, {"quick": {}, "thorough": {}}, ["a config made of the argument", "decoded text"]),
    ("decode_env", decode_env, {"quick": {"lo": -120, "hi": 120}, "thorough": {"lo": -3000, "hi": 3000}}, ["the text of a number decodes to the number"]),
    ("dicts", dicts, {"quick": {"n": (0, 1, 2)}, "thorough": {"n": (0, 1, 2, 3)}}, ["the keys of the dict, in order", "the values of the dict, in order"]),
    ("baddict", baddict, {"quick": {}, "thorough": {}}, ["anything but an existing dict raises"]),
    ("deprecated", deprecated, {"quick": {}, "thorough": {}}, ["the value of the new key", "the warning names the old and the new key"]),
]
BOUNDS = ("oc.env: 3 names, 11 values or unset, 9 kinds of defaults (symbolic ints and text of up to 2 letters), called directly and through interpolations; oc.select: 32 keys, 6 defaults, from 3 places; oc.create and oc.decode: 18 calls from 2 places, decoding of the text of all ints -120..120 (-3000..3000) (the grammar itself: P14); "
          "oc.dict.keys and values: dicts of up to 2 (3) keys, symbolic one-letter texts or 14 special ones, symbolic or interpolated values, 4 places; oc.deprecated: 14 keys, 5 messages, 3 places. Environment variables themselves are set to concrete values in the process")
