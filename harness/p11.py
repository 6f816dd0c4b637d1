"""Merging into a structured config keeps its schema."""
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Union

from omegaconf import MISSING, DictConfig, ListConfig, ListMergeMode, OmegaConf
from omegaconf.errors import OmegaConfBaseException

from .common import all_nodes, children, keys_ok, plain, snap
from .p05 import BAD, Color, reference


@dataclass
class Inner:
    v: int = 1
    o: Optional[str] = None


@dataclass
class Sub(Inner):
    w: int = 5


@dataclass
class Other:
    z: int = 0


@dataclass
class T:
    i: int = 1
    o: Optional[int] = 2
    s: str = "q"
    b: bool = True
    c: Color = Color.RED
    n: Inner = field(default_factory=Inner)
    on: Optional[Inner] = None
    l: List[int] = field(default_factory=lambda: [1, 2])
    ol: Optional[List[int]] = None
    d: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    dn: Dict[str, Inner] = field(default_factory=lambda: {"k": Inner(v=4)})
    ln: List[Inner] = field(default_factory=lambda: [Inner(v=4)])
    u: Union[int, str] = 3
    m: int = MISSING
    mn: Inner = MISSING
    ml: List[int] = MISSING
    ip: int = "${i}"  # type: ignore
    ipn: Inner = "${n}"  # type: ignore


@dataclass
class T2(T):
    x: int = 9


HINT = {"i": int, "o": ("opt", int), "s": str, "b": bool, "c": Color, "n": Inner, "on": ("opt", Inner), "l": ("list", int), "ol": ("opt", ("list", int)),
        "d": ("dict", int), "dn": ("dict", Inner), "ln": ("list", Inner), "u": ("union", int, str), "m": int, "mn": Inner, "ml": ("list", int), "ip": int, "ipn": Inner}
FIELDS = tuple(HINT)
IFIELDS = {"v": int, "o": ("opt", str)}
UNKNOWN = "?"


def is_interp(v):
    return isinstance(v, str) and v.startswith("${")


def schema(node):
    """Declared types of everything below node that a schema fixes (kind of node, type, optionality)."""
    out = []
    for k, n in children(node):
        m = n._metadata
        out.append((k, type(n).__name__, str(m.ref_type), m.optional, str(getattr(m, "element_type", "")), str(getattr(m, "key_type", ""))))
    return out


def conv(hint, cur, v):
    """Reference result of merging plain value v into a field of the given hint whose plain value is cur."""
    opt = False
    if type(hint) is tuple and hint[0] == "opt":
        opt, hint = True, hint[1]
    if v is None:
        return ("ok", None) if opt else (BAD, None)
    if isinstance(v, str) and v == "???":
        return "ok", cur
    if is_interp(v):
        return "ok", v
    if hint is Inner:
        if isinstance(v, dict):
            if isinstance(cur, dict):
                out = dict(cur)
            elif is_interp(cur):
                return UNKNOWN, None
            else:
                out = {"v": 1, "o": None}
            for k, x in v.items():
                if k not in IFIELDS:
                    return BAD, None
                kind, e = conv(IFIELDS[k], out[k], x)
                if kind != "ok":
                    return kind, None
                out[k] = e
            return "ok", out
        return BAD, None
    if type(hint) is tuple and hint[0] == "list":
        if not isinstance(v, list):
            return BAD, None
        out = []
        for x in v:
            kind, e = conv(hint[1], None, x)
            if kind != "ok" or x == "???":
                return (UNKNOWN if kind == "ok" else kind), None
            out.append(e)
        return "ok", out
    if type(hint) is tuple and hint[0] == "dict":
        if not isinstance(v, dict):
            return BAD, None
        out = dict(cur) if isinstance(cur, dict) else {}
        for k, x in v.items():
            if k not in out and isinstance(x, str) and x == "???":
                return UNKNOWN, None
            kind, e = conv(hint[1], out.get(k, None), x)
            if kind != "ok":
                return kind, None
            out[k] = e
        return "ok", out
    if isinstance(v, (list, dict)):
        return BAD, None
    if type(hint) is tuple:
        for t in hint[1:]:
            if isinstance(v, t) and not isinstance(v, bool):
                return "ok", v
        return BAD, None
    kind, e = reference(None if _SX[0] is None else _SX[0], hint, v)
    return (UNKNOWN, None) if kind == "str_of_int" else (kind, e)


_SX = [None]

VALS = ("int", "bool", "num", "none", "missing", "interp", "cname", "list", "badlist", "idict", "baddict", "unkdict", "ndict", "missdict", "nlist", "bytes")


def value(sx, name, kinds):
    k = sx.choice(name + ".kind", kinds)
    if k == "int":
        return sx.int(name, -99, 99)
    if k == "bool":
        return sx.bool(name)
    if k == "num":
        return sx.str(name, 1, sx.p["slen"], "01x")
    if k == "list":
        return [sx.int(name, -99, 99)] * sx.choice(name + ".n", (0, 1, 2))
    if k == "idict":
        return {"v": sx.int(name, -99, 99)}
    if k == "ndict":
        return {"k": {"v": sx.int(name, -99, 99)}, "new": {"o": "t"}}
    return {"none": None, "missing": "???", "interp": "${i}", "cname": "BLUE", "badlist": ["zz"], "baddict": {"v": "zz"}, "unkdict": {"nope": 1},
            "missdict": {"v": "???", "o": "set"}, "nlist": [{"v": 3}], "bytes": b"x", "emptydict": {}, "deepbad": {"k": {"v": "zz"}}, "deepunk": {"k": {"zz": 1}},
            "nonev": {"v": None}, "noneo": {"o": None}, "interpv": {"v": "${i}"}, "nonelist": [None], "dictnone": {"k": None}}[k]


def plain_src(sx):
    """Plain dict (or untyped config) sources."""
    _SX[0] = sx
    f = sx.choice("f", FIELDS)
    v = value(sx, "v", sx.p["values"])
    src = {f: v}
    g = sx.choice("g", sx.p["second"])
    if g == f:
        sx.stop()
    if g:
        w = value(sx, "w", ("int", "none", "missing") if g != "nope" else ("int",))
        if sx.flag("first"):
            src = {g: w, f: v}
        else:
            src[g] = w
    how = sx.choice("how", sx.p["hows"])
    given = OmegaConf.create(src) if how.endswith("cfg") else src
    gsnap = snap(given) if how.endswith("cfg") else src
    cfg = OmegaConf.structured(T)
    before = snap(cfg)
    sch = schema(cfg)
    cur = plain(cfg)

    def run():
        if how.startswith("class"):
            return OmegaConf.merge(T, given)
        if how.startswith("merge"):
            return OmegaConf.merge(cfg, given)
        if how.startswith("with"):
            cfg.merge_with(given)
            return cfg
        if how.startswith("two"):
            return OmegaConf.merge(cfg, {}, given, {})
        if how.startswith("unsafe"):
            return OmegaConf.unsafe_merge(cfg, given)
        root = OmegaConf.create({"t": cfg, "u": 1})
        return OmegaConf.merge(root, {"t": given}).t
    r = sx.attempt(run)
    sx.observe("r", (f, how, r.kind))
    sx.prove(sx.eq(snap(OmegaConf.structured(T)), before), "the class is unchanged")
    sx.prove(sx.eq(snap(given), gsnap) if how.endswith("cfg") else sx.eq(src, gsnap), "the source is unchanged")
    if not (how.startswith("with") or how.startswith("unsafe")):
        sx.prove(sx.eq(snap(cfg), before), "the target of OmegaConf.merge is unchanged")
    exp = dict(cur)
    kind = "ok"
    for k, x in src.items():
        if k not in HINT:
            kind = BAD
            break
        kind, e = conv(HINT[k], cur[k], x)
        if kind != "ok":
            if kind == UNKNOWN and r.ok:
                check_schema(sx, r.value, sch, src)
                sx.stop()
            break
        exp[k] = e
    if kind == BAD:
        sx.prove(not r.ok, "a value that does not fit the schema is rejected")
        sx.prove(isinstance(r.exc, OmegaConfBaseException), "with an OmegaConf error")
        if how.startswith("with"):
            sx.prove([k for k, _ in children(cfg)] == list(FIELDS) and schema(cfg) == sch, "a failed merge keeps the schema")
    elif kind == "ok":
        sx.prove(r.ok, "a source that fits the schema is accepted")
        c = r.value
        check_schema(sx, c, sch, src)
        sx.prove(sx.eq(plain(c), exp), "every field has the converted given value or its previous one")
        if not how.startswith("root"):
            sx.prove(OmegaConf.get_type(c) is T, "the result has the structured type")
        sx.prove(keys_ok(c), "links")


def check_schema(sx, c, sch, src):
    got = schema(c)
    sx.prove([x[0] for x in got] == [x[0] for x in sch], "every field is still present, in order")
    sx.prove(got == sch, "every field keeps its declared type")
    for f, inner in (("n", c._get_node("n")), ("on", c._get_node("on")), ("mn", c._get_node("mn"))):
        if isinstance(inner._content, dict):
            sx.prove(OmegaConf.get_type(inner) is Inner and [x[1] for x in schema(inner)] == ["IntegerNode", "StringNode"],
                     "nested structured configs keep their schema")
    for f, cls in (("dn", DictConfig), ("ln", ListConfig)):
        for _, n in children(c._get_node(f)):
            if isinstance(n, DictConfig) and isinstance(n._content, dict):
                sx.prove(OmegaConf.get_type(n) is Inner and [x[1] for x in schema(n)] == ["IntegerNode", "StringNode"], "elements keep their schema")


def probe(sx, c):
    """The typed nodes still reject values of other types."""
    for f, bad in (("i", "zz"), ("o", "zz"), ("b", "zz"), ("c", "zz"), ("l", ["zz"]), ("d", {"k": "zz"}), ("n", {"v": "zz"}), ("m", "zz"), ("s", None), ("i", None),
                   ("dn", {"q": {"v": 1}}), ("on", 3), ("u", b"x"), ("ip", "zz"), ("mn", Other())):
        r = sx.attempt(lambda: c.__setitem__(f, bad))
        sx.prove(not r.ok, "after the merge, fields still reject other types: " + f)
    for f in ("n", "on"):
        n = c._get_node(f)
        if isinstance(n._content, dict):
            sx.prove(not sx.attempt(lambda: n.__setitem__("v", "zz")).ok and not sx.attempt(lambda: n.__setitem__("zz", 1)).ok, "nested fields too")


def typed_src(sx):
    """Structured sources: the same class, a subclass, an unrelated class, instances with missing or None fields."""
    k = sx.choice("src", ("same", "sub", "other", "inner", "miss", "nested_sub", "nested_other", "nested_none", "nested_missing", "el_sub", "el_other", "cfg_same", "dict_inner", "dict_sub"))
    x = sx.int("x", -99, 99)
    n2 = sx.choice("where", ("n", "on", "mn", "ipn"))
    src = {
        "same": lambda: T(i=x), "sub": lambda: T2(i=x), "other": lambda: Other(), "inner": lambda: Inner(v=x), "miss": lambda: T(i=MISSING, s=MISSING, n=MISSING),
        "nested_sub": lambda: {n2: Sub(v=x)}, "nested_other": lambda: {n2: Other()}, "nested_none": lambda: {n2: DictConfig(None, ref_type=Optional[Inner])},
        "nested_missing": lambda: {n2: DictConfig("???", ref_type=Inner, is_optional=sx.flag("optional"))}, "el_sub": lambda: {"ln": [Sub(v=x)], "dn": {"k": Sub(v=x)}},
        "el_other": lambda: {"ln": [Other()]}, "cfg_same": lambda: OmegaConf.structured(T(i=x)), "dict_inner": lambda: {n2: OmegaConf.structured(Inner(v=x))},
        "dict_sub": lambda: {"dn": {"new": Sub(v=x)}}}[k]()
    how = sx.choice("how", ("class", "merge", "with", "cfg"))
    if k not in ("nested_sub", "nested_other", "nested_none", "nested_missing", "dict_inner") and n2 != "n":
        sx.stop()
    cfg = OmegaConf.structured(T)
    before = snap(cfg)
    given = OmegaConf.create(src) if how == "cfg" else src

    def run():
        if how == "class":
            return OmegaConf.merge(T, given)
        if how == "with":
            cfg.merge_with(given)
            return cfg
        return OmegaConf.merge(cfg, given)
    r = sx.attempt(run)
    sx.observe("r", (k, how, r.kind))
    sx.prove(sx.eq(snap(OmegaConf.structured(T)), before), "the class is unchanged: typed")
    if how != "with":
        sx.prove(sx.eq(snap(cfg), before), "the target of OmegaConf.merge is unchanged: typed")
    if k in ("other", "inner", "nested_other", "el_other"):
        sx.prove(not r.ok, "an unrelated class is rejected")
        sx.stop()
    if k == "nested_none":
        sx.prove(r.ok == (n2 == "on"), "None merges into optional fields only")
        if not r.ok:
            sx.stop()
    sx.prove(r.ok, "a compatible class is accepted: " + k)
    c = r.value
    sx.prove(keys_ok(c), "links: typed")
    names = [f for f, _ in children(c)]
    sx.prove(names[:len(FIELDS)] == list(FIELDS) and (len(names) == len(FIELDS) or k == "sub"), "fields: typed")
    sx.prove(OmegaConf.get_type(c) is (T2 if k == "sub" else T), "the result has the structured type: typed")
    if k in ("same", "sub", "cfg_same"):
        sx.prove(c.i == x, "the given value is there")
    if k in ("nested_sub", "dict_inner"):
        n = c[n2]
        sx.prove(OmegaConf.get_type(n) is (Sub if k == "nested_sub" else Inner), "the field takes the given subclass")
        sx.prove(n.v == x, "with the given value")
    if k == "nested_missing":
        sx.prove(sx.eq(snap(c), before), "merging a missing structured value changes nothing")
    if k == "miss":
        sx.prove(c.i == 1 and c.s == "q" and c.n.v == 1, "missing fields of the source keep the target's values")
    probe(sx, c)


def probes(sx):
    """After a successful merge the schema is still enforced."""
    _SX[0] = sx
    f = sx.choice("f", FIELDS)
    v = value(sx, "v", ("int", "none", "missing", "interp", "list", "idict", "emptydict", "ndict", "nlist", "cname"))
    how = sx.choice("how", ("merge", "mergecfg"))
    cfg = OmegaConf.structured(T)
    given = OmegaConf.create({f: v}) if how == "mergecfg" else {f: v}
    r = sx.attempt(lambda: OmegaConf.merge(cfg, given, {f: v}) if sx.flag("twice") else OmegaConf.merge(cfg, given))
    if r.ok:
        sx.reach("probed")
        probe(sx, r.value)


@dataclass
class M:
    i: int = MISSING
    o: Optional[int] = MISSING
    s: str = MISSING
    b: bool = MISSING
    c: Color = MISSING
    n: Inner = MISSING
    on: Optional[Inner] = MISSING
    l: List[int] = MISSING
    ol: Optional[List[int]] = MISSING
    d: Dict[str, int] = MISSING
    dn: Dict[str, Inner] = MISSING
    ln: List[Inner] = MISSING
    u: Union[int, str] = MISSING
    m: int = 3
    nn: Optional[Inner] = None


def over(sx):
    """A structured config with missing fields merged over plain values: the values stay, converted to the fields' types."""
    _SX[0] = sx
    f = sx.choice("f", sx.p["fields"])
    v = value(sx, "v", sx.p["values"])
    how = sx.choice("how", ("class", "cfg", "nested", "nestedcfg"))
    base = OmegaConf.create({f: v})
    before = snap(base)

    def run():
        if how in ("class", "cfg"):
            return OmegaConf.merge(base, M if how == "class" else OmegaConf.structured(M))
        return OmegaConf.merge({"x": base}, {"x": M} if how == "nested" else OmegaConf.create({"x": M})).x
    r = sx.attempt(run)
    sx.observe("r", (f, how, r.kind))
    sx.prove(sx.eq(snap(base), before), "the inputs are unchanged: over")
    hint = HINT[f]
    opt = type(hint) is tuple and hint[0] == "opt"
    if (hint[1] if opt else hint) is Inner and isinstance(v, dict):
        kind, e = "ok", {"v": "???", "o": "???"}
        for k, x in v.items():
            if k not in IFIELDS:
                kind = UNKNOWN  # unknown keys of plain dicts stay
                break
            kind, y = conv(IFIELDS[k], "???", x)
            if kind != "ok":
                break
            e[k] = y
    else:
        kind, e = conv(hint, "???", v)
    if f == "dn" and isinstance(v, dict) and v:
        kind = UNKNOWN  # plain dicts are not taken for structured elements
    if kind == UNKNOWN:
        sx.stop()
    if kind == BAD:
        sx.prove(not r.ok and isinstance(r.exc, OmegaConfBaseException), "a value that does not fit the missing field is rejected")
        sx.stop()
    sx.prove(r.ok, "a value that fits the missing field is accepted")
    c = r.value
    now = plain(c)
    sx.prove(sx.eq(now[f], e), "a missing field keeps the value below it, converted")
    sx.prove(now["m"] == 3 and now["nn"] is None, "other fields are added")
    want = {x[0]: x for x in schema(OmegaConf.structured(M))}
    got = {x[0]: x for x in schema(c)}
    sx.prove(got == want, "every field has its declared type: over")
    sx.prove(OmegaConf.get_type(c) is M, "the result has the structured type: over")
    sx.prove(keys_ok(c), "links: over")
    bad = sx.attempt(lambda: c.__setitem__(f, b"x" if f in ("i", "o", "s", "b", "c", "u") else 3.5))
    sx.prove(not bad.ok, "the field rejects other types afterwards")


def overfull(sx):
    """A structured config merged over plain values: its values win, dicts merge, types are the declared ones."""
    _SX[0] = sx
    f = sx.choice("f", ("i", "o", "s", "b", "c", "n", "on", "l", "ol", "d", "u", "m", "ml", "ip"))
    v = value(sx, "v", sx.p["values"])
    how = sx.choice("how", ("class", "inst", "nested", "readonly", "extend"))
    base = OmegaConf.create({f: v})
    before = snap(base)
    src = OmegaConf.structured(T)
    if how == "readonly":
        OmegaConf.set_readonly(src, True)
    sbefore = snap(src)

    def run():
        if how == "nested":
            return OmegaConf.merge({"x": base}, {"x": T}).x
        if how == "extend":
            return OmegaConf.merge(base, src, list_merge_mode=ListMergeMode.EXTEND)
        return OmegaConf.merge(base, T if how == "class" else T() if how == "inst" else src)
    r = sx.attempt(run)
    sx.observe("r", (f, how, r.kind))
    sx.prove(sx.eq(snap(base), before) and sx.eq(snap(src), sbefore), "the inputs are unchanged: overfull")
    cur = plain(src)[f]
    hint = HINT[f]
    hint = hint[1] if type(hint) is tuple and hint[0] == "opt" else hint
    islist, isdict = type(hint) is tuple and hint[0] == "list", hint is Inner or type(hint) is tuple and hint[0] == "dict"
    if isinstance(v, list) and isdict or isinstance(v, dict) and islist:
        sx.prove(not r.ok and isinstance(r.exc, OmegaConfBaseException), "a list does not merge with a dict")
        sx.stop()
    if islist and isinstance(v, list) and how == "extend" and cur is not None:
        sx.stop()  # what an extended untyped list holds is not declared
    if isinstance(cur, str) and cur == "???":
        kind, e = conv(HINT[f], "???", v)
    elif isinstance(cur, dict) and isinstance(v, dict):
        if f == "n":
            kind, e = ("ok", cur) if all(k in IFIELDS for k in v) else (UNKNOWN, None)
        else:
            e = dict(v)
            e.update(cur)
            kind = "ok" if all(isinstance(x, (int, str)) and x == "???" or is_interp(x) or sx.p["ints"] and k in cur for k, x in v.items()) else UNKNOWN
    elif is_interp(v) and (isdict or islist):
        kind, e = UNKNOWN, None
    else:
        kind, e = "ok", cur
    if kind == UNKNOWN:
        if r.ok:
            sx.prove({x[0]: x for x in schema(r.value)} == {x[0]: x for x in schema(src)}, "every field has its declared type: overfull")
        sx.stop()
    if kind == BAD:
        sx.prove(not r.ok and isinstance(r.exc, OmegaConfBaseException), "a value that does not fit the missing field is rejected: overfull")
        sx.stop()
    sx.prove(r.ok, "a structured config merges over plain values")
    c = r.value
    exp = plain(src)
    exp[f] = e
    sx.prove(sx.eq(plain(c), exp), "its values win, missing fields keep the value")
    sx.prove({x[0]: x for x in schema(c)} == {x[0]: x for x in schema(src)}, "every field has its declared type: overfull")
    sx.prove(OmegaConf.get_type(c) is T and keys_ok(c), "the result has the structured type: overfull")
    if how != "readonly":
        probe(sx, c)


HARNESSES = [
    ("plain", plain_src, {"quick": {"values": VALS, "second": ("",), "hows": ("merge", "withcfg"), "slen": 1},
                          "thorough": {"values": VALS + ("emptydict", "deepbad", "deepunk", "nonev", "noneo", "interpv", "nonelist", "dictnone"), "second": ("", "i", "o", "m", "nope"),
                                       "hows": ("class", "merge", "mergecfg", "with", "withcfg", "two", "unsafecfg", "root", "rootcfg"), "slen": 2}},
     ["a value that does not fit the schema is rejected", "every field has the converted given value or its previous one"]),
    ("hows", plain_src, {"quick": {"values": ("int", "none", "missing", "interp", "idict", "ndict", "nlist", "deepbad", "deepunk", "nonev", "noneo", "interpv", "nonelist", "dictnone"), "second": ("", "o", "nope"),
                                   "hows": ("class", "unsafecfg"), "slen": 1},
                         "thorough": {"values": VALS, "second": ("", "l", "nope"), "hows": ("class", "mergecfg", "two", "unsafe", "root"), "slen": 1}},
     ["a value that does not fit the schema is rejected", "every field has the converted given value or its previous one"]),
    ("typed", typed_src, {"quick": {}, "thorough": {}}, ["an unrelated class is rejected", "the field takes the given subclass"]),
    ("over", over, {"quick": {"fields": FIELDS[:13], "values": ("int", "num", "none", "missing", "interp", "list", "idict", "baddict", "noneo", "emptydict", "ndict", "nlist", "bytes", "cname"), "slen": 1},
                    "thorough": {"fields": FIELDS[:13], "values": VALS + ("emptydict", "deepbad", "nonev", "noneo", "interpv", "nonelist", "dictnone"), "slen": 2}}, ["a missing field keeps the value below it, converted"]),
    ("overfull", overfull, {"quick": {"values": ("int", "none", "missing", "interp", "list", "idict", "badlist", "emptydict", "unkdict", "cname"), "slen": 1, "ints": True}, "thorough": {"values": VALS + ("emptydict", "deepbad", "nonev", "noneo", "interpv", "nonelist", "dictnone"), "slen": 2, "ints": True}},
     ["its values win, missing fields keep the value"]),
    ("probes", probes, {"quick": {"slen": 1}, "thorough": {"slen": 1}}, ["probed"]),
]
BOUNDS = ("a schema of 18 fields (scalars, enum, optional, missing, union, interpolations, lists, dicts, nested structured configs); sources giving one or two fields values of "
          "16-24 kinds with symbolic ints (-99..99), bools, strings up to slen over '01x'; nine ways of merging; structured sources of the same, sub- and unrelated classes")
