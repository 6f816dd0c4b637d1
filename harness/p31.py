"""The result of parsing does not depend on what was parsed before."""
import warnings

from omegaconf import OmegaConf, grammar_parser

from .common import plain, reset

warnings.simplefilter("ignore", UserWarning)
RULES = (("configValue", "DEFAULT_MODE"), ("singleElement", "VALUE_MODE"))


def tree(t):
    """Shape and text of a parse tree."""
    n = t.getChildCount() if hasattr(t, "getChildCount") else 0
    if n == 0:
        sym = getattr(t, "symbol", None)
        return (type(t).__name__, sym.type if sym is not None else None, t.getText())
    return (type(t).__name__, [tree(t.getChild(i)) for i in range(n)])


def text(sx, name, templates, alpha):
    s = ""
    for i, part in enumerate(sx.choice(name, templates)):
        s = s + (sx.str("%s.%d" % (name, i), 0, part, alpha) if isinstance(part, int) else part)
    return s


def same(sx, a, b, ta, tb, tag):
    sx.prove(a.ok == b.ok, "validity does not depend on history" + tag)
    if a.ok:
        sx.prove(sx.eq(ta, tb), "the parse does not depend on history" + tag)
    else:
        sx.prove(type(a.exc) is type(b.exc), "the error does not depend on history" + tag)


def pairs(sx):
    """parse(first) then parse(second), against parse(second) in a fresh process state."""
    reset()
    r1 = sx.choice("rule1", RULES)
    r2 = sx.choice("rule2", RULES)
    s2 = text(sx, "b", sx.p["second"], sx.p["alpha2"])
    fresh = sx.attempt(lambda: grammar_parser.parse(s2, *r2))
    ft = tree(fresh.value) if fresh.ok else None
    reset()
    for i in range(sx.p["firsts"]):
        s1 = text(sx, "a%d" % i, sx.p["first"], sx.p["alpha1"])
        one = sx.attempt(lambda: grammar_parser.parse(s1, *r1))
        sx.observe("one", one.ok)
    two = sx.attempt(lambda: grammar_parser.parse(s2, *r2))
    sx.observe("two", two.ok)
    same(sx, fresh, two, ft, tree(two.value) if two.ok else None, "")


def reading(sx):
    """The same through configs: reading one value after reading (or failing to read) another."""
    s1 = text(sx, "a", sx.p["first"], sx.p["alpha1"])
    s2 = text(sx, "b", sx.p["second"], sx.p["alpha2"])

    def make(t):
        return sx.attempt(lambda: OmegaConf.create({"s": t, "d": "${oc.decode:${t}}", "t": t.replace("$", "")}))

    def readall(r):
        if not r.ok:
            return [type(r.exc).__name__]
        out = []
        for k in ("s", "d"):
            g = sx.attempt(lambda: r.value[k])
            v = g.value if g.ok else type(g.exc).__name__
            out.append((g.ok, plain(v) if OmegaConf.is_config(v) else v))
        return out
    reset()
    fresh = readall(make(s2))
    reset()
    readall(make(s1))
    after = readall(make(s2))
    sx.observe("k", len(after))
    sx.prove(sx.eq(fresh, after), "reading does not depend on history")


F = (("${", 1), ("{", 1), ("'", 1), ("\"${f:{", 1), ("${x", 1), ("}", 1), ("[", 1), ("${f:'", 1), ("a", 1), ("", 2))
S = (("", 2), ("${x}", 1), ("'a", 1, "'"), ("{a:", 1, "}"), ("${f:", 1, "}"), ("}", 1))
HARNESSES = [
    ("pairs", pairs, {"quick": {"first": F, "second": S, "alpha1": "${}'a", "alpha2": "}'a$", "firsts": 1},
                      "thorough": {"first": F + (("${f:[", 2),), "second": S + (("", 3), ("${f:", 2, "}")), "alpha1": "${}'\"a\\:[", "alpha2": "}'a$1\\{", "firsts": 1}},
     ["the parse does not depend on history", "the error does not depend on history"]),
    ("triples", pairs, {"quick": {"first": (("${",), ("{",), ("'", ), ("}",), ("a",), ("${f:{'${x}",)), "second": S[:5], "alpha1": "", "alpha2": "}a", "firsts": 2},
                        "thorough": {"first": F, "second": S, "alpha1": "}'", "alpha2": "}a'", "firsts": 2}},
     ["the parse does not depend on history", "the error does not depend on history"]),
    ("reading", reading, {"quick": {"first": F[:8], "second": S[:4], "alpha1": "}'", "alpha2": "}a"}, "thorough": {"first": F, "second": S, "alpha1": "${}'a", "alpha2": "}'a$"}}, ["reading does not depend on history"]),
]
BOUNDS = ("one or two earlier texts (valid or malformed, both entry rules) with up to 2 symbolic characters each, then a text with up to 2 (3) symbolic characters; results compared as whole "
          "parse trees or error classes with those of a fresh parser; single thread")
