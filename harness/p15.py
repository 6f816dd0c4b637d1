"""The fast path for simple interpolations agrees with the full parser."""
import warnings

from omegaconf import OmegaConf, grammar_parser
from omegaconf.errors import GrammarParseError, OmegaConfBaseException

from .common import plain, reset

warnings.simplefilter("ignore", UserWarning)


def opens(s):
    return "${" in s


def check(sx, s):
    reset()
    OmegaConf.register_new_resolver("f", lambda *a: "R%d" % len(a))
    p = sx.attempt(lambda: grammar_parser.parse(s))
    m = grammar_parser.SIMPLE_INTERPOLATION_PATTERN.match(s)
    if m is not None:
        sx.prove(p.ok, "a string the shortcut accepts is accepted by the grammar")
        sx.reach("shortcut")
    c = sx.attempt(lambda: OmegaConf.create({"x": 1, "k": s}))
    if opens(s):
        sx.prove(c.ok == p.ok, "a config can hold the string exactly if the grammar accepts it")
        if not c.ok:
            sx.prove(isinstance(c.exc, GrammarParseError), "with a parse error otherwise")
            sx.stop()
        cfg = c.value
        a = sx.attempt(lambda: cfg.k)
        root = OmegaConf.create({"x": 1, "k": 0})
        b = sx.attempt(lambda: root.resolve_parse_tree(p.value, node=root._get_node("k")))
        sx.observe("ab", (a.kind, b.kind))
        if a.ok and b.ok:
            v = b.value._value() if hasattr(b.value, "_value") else b.value
            sx.prove(sx.eq(a.value, v), "reading evaluates the parse tree")
        else:
            sx.prove((not a.ok and not b.ok) or opens(plain(cfg)["k"]), "reading fails only if evaluating the parse tree does")
            if not a.ok:
                sx.prove(isinstance(a.exc, OmegaConfBaseException) and not isinstance(a.exc, GrammarParseError), "reading never reports a syntax error")
    else:
        sx.prove(c.ok, "a string without interpolation is accepted")


def templ(sx):
    s = ""
    for i, part in enumerate(sx.choice("tmpl", sx.p["templates"])):
        if isinstance(part, int):
            s = s + sx.str("s%d" % i, 0, part, sx.p["alpha"])
        else:
            s = s + part
    check(sx, s)


ASCII = "".join(chr(c) for c in range(128)) + "\u00a0\u00e9\u0663\u2028\uff21"
ONE = (("${f:", 1, "}"), ("${f:a", 1, "b}"), ("${f:1,", 1, "}"), ("${", 1, "}"), ("${x", 1, "}"), ("${x", 1, "y}"), ("${x.", 1, "}"), ("${[", 1, "]}"),
       ("${f", 1, ":a}"), ("${", 1, ":a}"), ("${f.", 1, ":a}"), (1, "${x}"), ("${x}", 1, "${x}"), ("$", 1, "x}"))
HARNESSES = [
    ("node", templ, {"quick": {"templates": (("${", 3, "}"), ("${x", 3, "}"), (2, "${x}", 1), ("${[x]", 2, "}", 1)), "alpha": "x.[]$ \n:"},
                     "thorough": {"templates": (("${", 5, "}"), ("${x", 5, "}"), (3, "${x}", 3, "${x}"), ("${[x]", 4, "}", 2), ("${..", 3, ".x", 2, "}")), "alpha": "x1.[]$ \n\t:-\u00e9(\\"}},
     ["shortcut", "a string the shortcut accepts is accepted by the grammar", "with a parse error otherwise"]),
    ("resolver", templ, {"quick": {"templates": (("${f:", 3, "}"), ("${f:a", 3, "}"), ("${", 2, ":a}"), ("${f", 1, ":", 1, "a", 1, "}")), "alpha": "a1, .:\n-="},
                         "thorough": {"templates": (("${f:", 5, "}"), ("${f:a", 5, "}"), ("${", 4, ":a}"), ("${f", 2, ":", 2, "a", 2, "}")), "alpha": "a1, .:\n-=\t/+$%*@?|~_'\\"}},
     ["shortcut", "a string the shortcut accepts is accepted by the grammar", "with a parse error otherwise"]),
    ("chars", templ, {"quick": {"templates": ONE + (("${f:", 2, "}"), ("${", 2, "}"), ("${x", 2, "}"), (2, "${x}")), "alpha": ASCII},
                      "thorough": {"templates": ONE + (("${f:", 3, "}"), ("${", 3, "}"), ("${x", 3, "}"), (2, "${x}", 1)), "alpha": ASCII}}, ["shortcut"]),
    ("names", templ, {"quick": {"templates": ((1, "${", 2, "f", 1, ":", 1, "}"),), "alpha": "f1.-_ "},
                      "thorough": {"templates": ((1, "${", 3, "f", 2, ":", 1, "}"), (1, "${", 2, "f", 3, ":a}")), "alpha": "f1.-_ \n$"}}, ["shortcut"]),
    ("around", templ, {"quick": {"templates": ((3, "${x}", 2), (2, "${f:a}", 1, "${x}", 1)), "alpha": "\\${}x\n"},
                       "thorough": {"templates": ((5, "${x}", 4), (4, "${f:a}", 2, "${x}", 2)), "alpha": "\\${}x\n'"}}, ["shortcut"]),
]
BOUNDS = ("strings built from fixed interpolation syntax and one to three free symbolic pieces of up to 3 (5) characters over letters, digits, dots, brackets, braces, dollar, colon, "
          "comma, blanks, newline, backslash and a non-ASCII letter; one or two (three) characters of all of ASCII and five others in every position of the simple forms")
