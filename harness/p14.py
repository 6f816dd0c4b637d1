"""Resolver arguments are parsed to the values the grammar documents."""
import warnings

from omegaconf import OmegaConf, grammar_parser
from omegaconf.errors import GrammarParseError, InterpolationResolutionError

from .common import reset

warnings.simplefilter("ignore", UserWarning)
UNQ = "/-\\+.$%*@?|_"
ESCABLE = "\\()[]{}:=, \t"
QUOTES = "'\""
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS = "0123456789"
INTER = "@inter@"


class Bad(Exception):
    pass


class Early(Exception):
    """The interpolation closes before the end of the text."""


def ws(cs, i):
    while i < len(cs) and cs[i] in " \t":
        i += 1
    return i


def opens(cs, i):
    return i + 1 < len(cs) and bool(cs[i] == "$") and bool(cs[i + 1] == "{")


def digits(s):
    """\\d(_?\\d)*"""
    prev = False
    for i, c in enumerate(s):
        if c in DIGITS:
            prev = True
        elif c == "_":
            if not prev:
                return False
            prev = False
        else:
            return False
    return prev


def int_unsigned(s):
    """0 or a digit string (underscores between digits) not starting with 0."""
    if len(s) == 0 or not digits(s):
        return False
    return len(s) == 1 or not s[0] == "0"


def number(s):
    """int, float or None: the documented number syntax."""
    body = s[1:] if len(s) and s[0] in "+-" else s
    if int_unsigned(body):
        return "int"
    low = body.lower()
    if low == "inf" or low == "nan":
        return "float"
    exp = None
    for i in range(len(body)):
        if body[i] in "eE":
            exp = i
            break
    mant = body
    if exp is not None:
        mant, e = body[:exp], body[exp + 1:]
        if len(e) and e[0] in "+-":
            e = e[1:]
        if len(e) == 0 or not digits(e):
            return None
        if int_unsigned(mant):
            return "float"
    dot = None
    for i in range(len(mant)):
        if mant[i] == ".":
            dot = i
            break
    if dot is None:
        return None
    a, b = mant[:dot], mant[dot + 1:]
    if len(a) and not int_unsigned(a):
        return None
    if len(b) == 0:
        return "float" if len(a) else None
    return "float" if digits(b) else None


def primitive(sx, cs, i, stop):
    """Unquoted text up to an unescaped delimiter."""
    out, escaped, start = [], False, i
    keep = 0  # length of out up to the last character that is not a strippable blank
    while i < len(cs):
        c = cs[i]
        if opens(cs, i):
            raise Bad()
        if c == "\\" and i + 1 < len(cs) and cs[i + 1] in ESCABLE:
            out.append(cs[i + 1])
            escaped = True
            i += 2
            keep = len(out)
            continue
        if c in " \t":
            out.append(c)
            i += 1
            continue
        if c in stop:
            break
        if not (c in UNQ or c in LETTERS or c in DIGITS or c == ":"):
            raise Bad()
        if c == ":" and i + 1 < len(cs) and cs[i + 1] in " \t" and not sx.p.get("colon_blank"):
            sx.stop()
        out.append(c)
        i += 1
        keep = len(out)
    if keep == 0:
        raise Bad()
    s = "".join(out[:keep])
    if not escaped:
        low = s.lower()
        if low == "null":
            return None, i
        if low == "true":
            return True, i
        if low == "false":
            return False, i
        n = number(s)
        if n == "int":
            return int(s), i
        if n == "float":
            return float(s), i
    return s, i


def quoted(cs, i):
    q = cs[i]
    i += 1
    out = []
    while i < len(cs):
        j = i
        while j < len(cs) and cs[j] == "\\":
            j += 1
        n = j - i
        if j >= len(cs):
            break
        if cs[j] == q:
            out += ["\\"] * (n // 2)
            if n % 2:
                out.append(q)
                i = j + 1
                continue
            return "".join(out), j + 1
        if opens(cs, j):
            out += ["\\"] * (n // 2)
            if n % 2:
                out += ["$", "{"]
                i = j + 2
                continue
            if not cs[j + 2:j + 4] == ["x", "}"]:
                raise Bad()
            out.append("XV")
            i = j + 4
            continue
        out += ["\\"] * n
        out.append(cs[j])
        i = j + 1
    raise Bad()


def element(sx, cs, i, stop):
    if i >= len(cs):
        raise Bad()
    c = cs[i]
    if c in QUOTES:
        v, i = quoted(cs, i)
        return v, ws(cs, i)
    if c == "[":
        i = ws(cs, i + 1)
        v, i = sequence(sx, cs, i, "]")
        return v, ws(cs, i + 1)
    if c == "{":
        i = ws(cs, i + 1)
        d = {}
        if i < len(cs) and cs[i] == "}":
            return d, ws(cs, i + 1)
        while True:
            k, i = primitive(sx, cs, i, ",]}[{'\"():=")
            if not (i < len(cs) and cs[i] == ":"):
                raise Bad()
            v, i = element(sx, cs, ws(cs, i + 1), stop)
            put(d, k, v)
            if i < len(cs) and cs[i] == ",":
                i = ws(cs, i + 1)
                continue
            if i < len(cs) and cs[i] == "}":
                return d, ws(cs, i + 1)
            raise Bad()
    return primitive(sx, cs, i, ",]}[{'\"()=")


def put(d, k, v):
    for e in list(d):
        if isinstance(e, float) and e != e:
            continue
        if not isinstance(e, str) == isinstance(k, str):
            continue
        if e == k and (e is None) == (k is None):
            d[e] = v
            return
    d[k] = v


def sequence(sx, cs, i, close):
    """Comma separated elements up to the closing character (not consumed); empty ones are ''."""
    out = []
    if i < len(cs) and cs[i] == close:
        return out, i
    while True:
        if i < len(cs) and cs[i] == ",":
            out.append("")
            i = ws(cs, i + 1)
            if i < len(cs) and cs[i] == close:
                out.append("")
                return out, i
            continue
        v, i = element(sx, cs, i, close)
        out.append(v)
        if i < len(cs) and cs[i] == ",":
            i = ws(cs, i + 1)
            if i < len(cs) and cs[i] == close:
                out.append("")
                return out, i
            continue
        if i < len(cs) and cs[i] == close:
            return out, i
        raise Bad()


def same(sx, a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(sx, x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(sx, x, y) for x, y in zip(a.keys(), b.keys())) and all(same(sx, x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, float) and a != a:
        return b != b
    if a is None:
        return b is None
    return bool(sx.eq(a, b))


def run_args(sx, text):
    calls = []
    reset()
    OmegaConf.register_new_resolver("f", lambda *a: calls.append(list(a)) or 0)
    full = "${f:" + text + "}"
    r = sx.attempt(lambda: OmegaConf.create({"s": full, "x": "XV"}))
    cs = list(full)
    try:
        exp, i = sequence(sx, cs, ws(cs, 4), "}")
    except Bad:
        exp = None
    sx.observe("create", r.kind)
    if exp is None:
        sx.prove(not r.ok, "an argument list outside the grammar is rejected")
        sx.prove(isinstance(r.exc, GrammarParseError), "with a grammar error")
        return
    if i != len(cs) - 1:
        sx.stop()  # closed early: the rest is text around an interpolation
    sx.prove(r.ok, "an argument list of the grammar is accepted")
    cfg = r.value
    g = sx.attempt(lambda: cfg.s)
    sx.prove(g.ok and len(calls) == 1, "the resolver is called once")
    sx.prove(same(sx, calls[0], exp), "with the documented values")


def run_decode(sx, text):
    reset()
    cs = list(text)
    if opens(cs, 0) or any(opens(cs, i) for i in range(len(cs))):
        sx.stop()
    if len(cs) and (cs[0] in " \t" or cs[-1] in " \t"):
        sx.stop()
    cfg = OmegaConf.create({"s": text, "x": "XV", "d": "${oc.decode:${s}}"})
    r = sx.attempt(lambda: cfg.d)
    try:
        exp, i = element(sx, cs, 0, "")
        if i != len(cs):
            raise Bad()
    except Bad:
        sx.prove(not r.ok, "a text outside the grammar is not decoded")
        sx.prove(isinstance(r.exc, InterpolationResolutionError), "with an interpolation error")
        q = sx.attempt(lambda: grammar_parser.parse(text, "singleElement", "VALUE_MODE"))
        sx.prove(isinstance(q.exc, GrammarParseError), "because of a grammar error")
        return
    sx.observe("r", r.kind)
    sx.prove(r.ok, "a text of the grammar is decoded")
    v = r.value
    if OmegaConf.is_config(v):
        v = OmegaConf.to_container(v, resolve=False)
    sx.prove(same(sx, v, exp), "to the documented value")


def text(sx):
    t = sx.str("t", sx.p.get("min", 0), sx.p["len"], sx.p["alpha"])
    return sx.p.get("pre", "") + t + sx.p.get("post", "")


def args(sx):
    run_args(sx, text(sx))


def decode(sx):
    run_decode(sx, text(sx))


def words(sx):
    """Keywords in any case, with one character more, less or different."""
    w = sx.choice("w", ("null", "true", "false", "inf", "nan", "none", "-inf", "+NaN", "1e5", "yes"))
    k = sx.choice("edit", tuple(range(len(w) + 1)))
    s = ""
    for i, c in enumerate(w):
        if i == k:
            s = s + sx.str("c%d" % i, 0, 2, (c + c.upper() if c.upper() != c else c) + sx.p["other"])
        elif sx.p["cases"] and c.upper() != c:
            s = s + sx.str("c%d" % i, 1, 1, c + c.upper())
        else:
            s = s + c
    (run_decode if sx.flag("decode") else run_args)(sx, s)


H = []


def h(name, fn, quick, thorough, labels):
    H.append((name, fn, quick, thorough, labels))


ACC = ["with the documented values"]
h("number", args, {"len": 4, "alpha": "10_.-e"}, {"len": 6, "alpha": "019_.+-eE"}, ACC)
h("dnumber", decode, {"len": 3, "min": 1, "alpha": "10_.-e"}, {"len": 6, "min": 1, "alpha": "019_.+-eE"}, ["to the documented value"])
h("bignum", args, {"len": 2, "alpha": "13_.e", "pre": "-9007199254740991"}, {"len": 4, "alpha": "139_.e+", "pre": "-9007199254740991"}, ACC)
h("dbignum", decode, {"len": 2, "alpha": "13_.e", "pre": "9_007_199_254_740_991"}, {"len": 4, "alpha": "139_.e+", "pre": "9_007_199_254_740_991"}, ["to the documented value"])
h("words", words, {"cases": False, "other": "a1"}, {"cases": True, "other": "a1_ "}, ACC)
h("escapes", args, {"len": 4, "alpha": "\\ ,a"}, {"len": 6, "alpha": "\\ ,:a](\t="}, ACC + ["with a grammar error"])
h("plain", args, {"len": 2, "alpha": "a1 \t-/\\:,=([{}])'\"$%|@?*.+_~!;#&"}, {"len": 4, "alpha": "a1 \t-/\\:,=([{}])'\"$%|@?*.+_~!;#&<>^`\n\u00e9"}, ACC + ["with a grammar error"])
h("quoted", args, {"len": 4, "alpha": "\\'\"$a{", "pre": "'", "post": "'"}, {"len": 6, "alpha": "\\'\"$a{} ", "pre": "'", "post": "'"}, ACC + ["with a grammar error"])
h("dquoted", args, {"len": 3, "alpha": "\\'\"$a", "pre": "\"", "post": "\""}, {"len": 5, "alpha": "\\'\"$a{} ,", "pre": "\"", "post": "\""}, ACC + ["with a grammar error"])
h("qinter", args, {"len": 3, "alpha": "\\'a$", "pre": "'", "post": "${x}\\\\',b"}, {"len": 5, "alpha": "\\'a$", "pre": "'", "post": "${x}\\\\',b"}, ACC + ["with a grammar error"])
h("list", args, {"len": 4, "alpha": "[], a1", "pre": "["}, {"len": 6, "alpha": "[], a1'", "pre": "["}, ACC + ["with a grammar error"])
h("dict", args, {"len": 4, "alpha": ":, a1}", "pre": "{", "post": "}"}, {"len": 6, "alpha": ":, a1}{", "pre": "{", "post": "}"}, ACC + ["with a grammar error"])
h("mixed", args, {"len": 3, "alpha": "a1,: [{", "pre": "{a: [1, ", "post": "]}, 'q'"}, {"len": 5, "alpha": "a1,: [{}]", "pre": "{a: [1, ", "post": "]}, 'q'"}, ACC + ["with a grammar error"])
h("decode", decode, {"len": 3, "min": 1, "alpha": "a1 \\:,[]{}'"}, {"len": 5, "min": 1, "alpha": "a1 \\:,[]{}'"}, ["to the documented value", "because of a grammar error"])
HARNESSES = [(n, f, {"quick": q, "thorough": t}, lab) for n, f, q, t, lab in H]
BOUNDS = ("argument texts and oc.decode texts: free symbolic strings of up to 2-4 (4-6) characters over number characters (also after 16 fixed digits), escapes, quotes, brackets, braces, blanks and 31 (38) "
          "punctuation characters, alone and inside quoted strings, lists and dicts; keywords with one edited character and any case; not claimed: blanks after an unescaped colon, "
          "texts closing the interpolation early (P13 covers text around interpolations), nested interpolations other than ${x} inside quotes, blanks around a text given to oc.decode")
