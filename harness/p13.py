"""String interpolations concatenate text and values; escapes are exact."""
from enum import Enum
from pathlib import Path

from omegaconf import OmegaConf
from omegaconf.errors import GrammarParseError, InterpolationKeyError, InterpolationResolutionError, InterpolationToMissingValueError

from .common import plain, snap


class Bad(Exception):
    pass


def tokens(sx, s):
    return list(s)


def is_in(c, chars):
    for x in chars:
        if c == x:
            return True
    return False


NOKEY = "\\{}()[]:. \t'\""


def skip_ws(cs, i):
    while i < len(cs) and is_in(cs[i], " \t"):
        i += 1
    return i


def opens(cs, i):
    return i + 1 < len(cs) and bool(cs[i] == "$") and bool(cs[i + 1] == "{")


def ref_key(cs, i):
    """Config key: nested interpolation, or a run of ordinary characters. Returns (key tree, next)."""
    if opens(cs, i):
        return ref_inter(cs, i)
    j = i
    while j < len(cs) and not is_in(cs[j], NOKEY):
        j += 1
    if j == i:
        raise Bad()
    return "".join(cs[i:j]), j


def ref_inter(cs, i):
    """cs[i:] starts with '${'. Returns (list of parts, next index); documented grammar of node interpolations."""
    i = skip_ws(cs, i + 2)
    parts = []
    while i < len(cs) and cs[i] == ".":
        parts.append(".")
        i += 1
    first = True
    while True:
        if i < len(cs) and cs[i] == "[":
            k, i = ref_key(cs, i + 1)
            if not (i < len(cs) and cs[i] == "]"):
                raise Bad()
            i += 1
            parts += ["[", k, "]"]
        elif first:
            k, i = ref_key(cs, i)
            parts.append(k)
        elif i < len(cs) and cs[i] == ".":
            k, i = ref_key(cs, i + 1)
            parts += [".", k]
        else:
            break
        first = False
    j = skip_ws(cs, i)
    if not (j < len(cs) and cs[j] == "}"):
        raise Bad()
    return parts, j + 1


def ref_text(cs):
    """List of literal strings and interpolation part lists."""
    out, lit, i = [], [], 0
    while i < len(cs):
        j = i
        while j < len(cs) and cs[j] == "\\":
            j += 1
        n = j - i
        if opens(cs, j):
            lit += ["\\"] * (n // 2)
            if n % 2:
                lit += ["$", "{"]
                i = j + 2
            else:
                if lit:
                    out.append("".join(lit))
                    lit = []
                parts, i = ref_inter(cs, j)
                out.append(parts)
        elif n:
            lit += ["\\"] * n
            i = j
        else:
            lit.append(cs[i])
            i += 1
    if lit:
        out.append("".join(lit))
    return out


class Key(Exception):
    pass


def ref_value(parts, vals):
    """Value of an interpolation in a flat config vals (no containers)."""
    toks = []
    for p in parts:
        if isinstance(p, list):
            p = ref_value(p, vals)
            if not isinstance(p, str):
                raise Key("other")
        toks.append(p)
    dots = 0
    while dots < len(toks) and toks[dots] == ".":
        dots += 1
    if dots > 1:
        raise Key("key")
    keys = [t for t in toks[dots:] if not is_in(t, ".[]")]
    if len(keys) > 1:
        if keys[0] in vals:
            if isinstance(vals[keys[0]], str) and vals[keys[0]] == "???":
                raise Key("missing")
            if isinstance(vals[keys[0]], str) and vals[keys[0]] == "${s}":
                raise Key("other")
            raise Key("other")
        raise Key("key")
    k = keys[0]
    if "[" in k or "]" in k or "." in k:
        raise Key("other")
    if k in vals:
        v = vals[k]
        if isinstance(v, str) and v == "???":
            raise Key("missing")
        return v
    if k == "s":
        raise Key("other")  # the node itself
    raise Key("key")


def run(sx, text, vals):
    data = dict(vals)
    data["s"] = text
    c = sx.attempt(lambda: OmegaConf.create(data))
    kind = None
    cs = list(text)
    has = False
    for i in range(len(cs)):
        if opens(cs, i):
            has = True
    try:
        parts = ref_text(cs) if has else [text]
    except Bad:
        kind = "bad"
    sx.observe("create", c.kind)
    if kind == "bad":
        sx.prove(not c.ok, "a malformed interpolation is rejected")
        sx.prove(isinstance(c.exc, GrammarParseError), "with a parse error")
        return
    if not has and isinstance(text, str) and text == "???":
        sx.stop()
    sx.prove(c.ok, "a well-formed string is accepted")
    cfg = c.value
    raw = plain(cfg)["s"]
    sx.prove(sx.eq(raw, text), "the string is stored as written")
    r = sx.attempt(lambda: cfg.s)
    sx.observe("read", r.kind)
    if not has:
        sx.prove(r.ok and sx.eq(r.value, text), "a string without interpolation reads as written")
        return
    err, out = None, []
    for p in parts:
        if isinstance(p, list):
            try:
                out.append(ref_value(p, vals))
            except Key as e:
                err = e.args[0]
                break
        else:
            out.append(p)
    if err:
        sx.prove(not r.ok, "an unresolvable interpolation raises")
        cls = {"key": InterpolationKeyError, "missing": InterpolationToMissingValueError, "other": InterpolationResolutionError}[err]
        sx.prove(isinstance(r.exc, cls), "with the documented error")
        return
    sx.prove(r.ok, "a resolvable string is read")
    if len(parts) == 1 and isinstance(parts[0], list):
        sx.prove(sx.eq(r.value, out[0]) and type(r.value) is type(out[0]) if out[0] is not None else r.value is None, "a single interpolation keeps the value's type")
    else:
        sx.prove(sx.eq(r.value, "".join(str(x) for x in out)), "the text and the values are concatenated, escapes resolved")


def vals(sx):
    k = sx.choice("val", sx.p["vals"])
    v = {"int": 12, "str": "v", "none": None, "bool": True, "dollar": "$", "esc": "\\", "float": 1.5, "missing": "???", "key": "y"}[k]
    return {"x": v, "y": "yy", "$": "dl", "x$": "xd"}


def free(sx):
    """Free strings over the characters that matter."""
    run(sx, sx.str("t", 3, sx.p["len"], sx.p["alpha"]), vals(sx))


def around(sx):
    """Free text before, inside and after an interpolation."""
    a = sx.str("a", 0, sx.p["la"], sx.p["alpha"])
    b = sx.str("b", 0, sx.p["lb"], sx.p["balpha"])
    c = sx.str("c", 0, sx.p["lc"], sx.p["alpha"])
    run(sx, a + sx.choice("open", ("${", "${ ", "${.", "${x}${", "\\${")) + b + sx.choice("core", sx.p["core"]) + c, vals(sx))


class Col(Enum):
    RED = 1


class Obj:
    def __str__(self):
        return ""

    def __bool__(self):
        return False

    def __eq__(self, other):
        raise AssertionError("compared")

    __hash__ = None


KINDS = {"int": lambda sx, n: sx.int(n, -9, 9), "bool": lambda sx, n: sx.bool(n), "none": lambda sx, n: None, "empty": lambda sx, n: "",
         "text": lambda sx, n: sx.str(n, 0, 1, " a0"), "float": lambda sx, n: sx.choice(n, (0.0, -0.5)), "bytes": lambda sx, n: b"",
         "enum": lambda sx, n: Col.RED, "path": lambda sx, n: Path("p/q"), "dict": lambda sx, n: {}, "list": lambda sx, n: [],
         "dict1": lambda sx, n: {"k": [1, None]}, "list1": lambda sx, n: ["a", {"b": False}]}
RESULTS = dict(KINDS, obj=lambda sx, n: Obj(), tuple=lambda sx, n: ())


def parts(sx):
    """Text, an interpolation, text, another one, text; every kind of value, read from nodes or returned by resolvers."""
    exp, text, data, results = [], [], {}, []
    OmegaConf.register_new_resolver("res", lambda i: results[i])
    lits = sx.p["lits"]
    for i in range(sx.p["n"]):
        lit = sx.choice("lit%d" % i, lits)
        text.append(lit)
        exp.append(lit)
        how = sx.choice("how%d" % i, sx.p["hows"])
        table = KINDS if how in ("node", "nested", "chain") else RESULTS
        v = table[sx.choice("kind%d" % i, sx.p["second"] if i and sx.p["second"] else sorted(table))](sx, "v%d" % i)
        if how in ("node", "nested", "chain"):
            data["v%d" % i] = v
            if how == "chain":
                data["w%d" % i] = "${v%d}" % i
            text.append({"node": "${v%d}", "nested": "${sub.o[%d]}", "chain": "${w%d}"}[how] % i)
            if how == "nested":
                data.setdefault("sub", {"o": [None, None, None]})["o"][i] = v
            exp.append(OmegaConf.create({"v": v}).v if isinstance(v, (dict, list)) else v)
        else:
            text.append("${res:%d}" % len(results))
            results.append(v)
            exp.append(v)
    last = sx.choice("end", lits)
    text.append(last)
    exp.append(last)
    if len("".join(x for x in exp[0::2])) == 0 and sx.p["n"] == 1:
        sx.stop()  # a single interpolation, not a string with one
    data["s"] = "".join(text)
    cfg = OmegaConf.create(data)
    before = snap(cfg)
    r = sx.attempt(lambda: cfg.s)
    sx.observe("k", r.kind)
    sx.prove(r.ok, "a string with interpolations of any value is read")
    want = ""
    for x in exp:
        want = want + str(x)
    sx.observe("r", r.value)
    sx.prove(sx.eq(r.value, want), "the value is the concatenation of the texts and the string forms")
    sx.prove(sx.eq(snap(cfg), before), "reading a string changes nothing")


ALLV = ("int", "str", "none", "bool", "dollar", "esc", "float", "missing", "key")
HARNESSES = [
    ("parts", parts, {"quick": {"n": 2, "lits": ("", "t"), "hows": ("node", "res"), "second": ("int", "list", "empty")},
                      "thorough": {"n": 2, "lits": ("", " t"), "hows": ("node", "nested", "chain", "res"), "second": None}},
     ["the value is the concatenation of the texts and the string forms"]),
    ("free", free, {"quick": {"len": 6, "alpha": "\\${}x.", "vals": ("int",)}, "thorough": {"len": 9, "alpha": "\\${}x. y", "vals": ("int", "str")}}, ["a malformed interpolation is rejected"]),
    ("around", around, {"quick": {"la": 3, "lb": 0, "lc": 2, "alpha": "\\${}x'", "balpha": "", "core": ("x}", "[x]}"), "vals": ("int",)},
                        "thorough": {"la": 6, "lb": 0, "lc": 3, "alpha": "\\${}x'\"\n", "balpha": "", "core": ("x}", "[x]}", "x }", "${y}}"), "vals": ("int", "str")}},
     ["the text and the values are concatenated, escapes resolved", "a single interpolation keeps the value's type"]),
    ("inside", around, {"quick": {"la": 0, "lb": 3, "lc": 1, "alpha": "\\", "balpha": "xy$. [", "core": ("x}", "]}", "}"), "vals": ("int",)},
                        "thorough": {"la": 1, "lb": 5, "lc": 1, "alpha": "\\x$", "balpha": "xy$. []{", "core": ("x}", "]}", "x }", "${x}}", "}"), "vals": ("int", "key")}},
     ["the text and the values are concatenated, escapes resolved", "an unresolvable interpolation raises"]),
    ("values", around, {"quick": {"la": 1, "lb": 1, "lc": 1, "alpha": "\\$x", "balpha": "xy$", "core": ("x}", "${x}}", "}"), "vals": ALLV},
                        "thorough": {"la": 3, "lb": 2, "lc": 2, "alpha": "\\$x{}", "balpha": "xy$.", "core": ("x}", "${x}}", "${y}}", "}"), "vals": ALLV}},
     ["the text and the values are concatenated, escapes resolved", "an unresolvable interpolation raises"]),
]
BOUNDS = ("strings of up to 6 (9) characters over backslash, dollar, braces, dot, letters; free symbolic text of up to 3+2 (6+3) characters around and up to 3 (5) characters inside an "
          "interpolation (quotes, newline, brackets, spaces and nested interpolations included); nine kinds of interpolated values; two interpolations of nodes or resolver results of thirteen kinds of value with texts around; resolver arguments are P14's")
