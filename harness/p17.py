"""Dumping to YAML and loading gives back the same config."""
from pathlib import Path

from omegaconf import DictConfig, ListConfig, OmegaConf

from .common import plain


class Buf:
    """A minimal text file object."""
    def __init__(self):
        self.data = ""
        self.done = False

    def write(self, s):
        self.data = self.data + s

    def flush(self):
        pass

    def read(self, n=-1):
        if self.done:
            return ""
        self.done = True
        return self.data


def same(sx, a, b, order=True):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        if not order:
            return len(a) == len(b) and all(same(sx, v, pick(sx, b, k), False) for k, v in a.items())
        return len(a) == len(b) and all(same(sx, x, y) for x, y in zip(a, b)) and all(same(sx, x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, list):
        return len(a) == len(b) and all(same(sx, x, y, order) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    return a is b or bool(sx.eq(a, b))


class Missing:
    pass


def pick(sx, d, key):
    for k, v in d.items():
        if same(sx, key, k):
            return v
    return Missing


def trip(sx, x, how="yaml"):
    cfg = x if OmegaConf.is_config(x) else OmegaConf.create(x)
    want = plain(cfg)
    if how == "save":
        buf = Buf()
        r = sx.attempt(lambda: OmegaConf.save(cfg, buf))
        sx.prove(r.ok, "saving succeeds")
        c = sx.attempt(lambda: OmegaConf.load(buf))
    elif how == "sorted":
        r = sx.attempt(lambda: OmegaConf.to_yaml(cfg, sort_keys=True))
        sx.prove(r.ok, "dumping succeeds")
        c = sx.attempt(lambda: OmegaConf.create(r.value))
    else:
        r = sx.attempt(lambda: OmegaConf.to_yaml(cfg))
        sx.prove(r.ok, "dumping succeeds")
        c = sx.attempt(lambda: OmegaConf.create(r.value))
    sx.prove(c.ok, "the dump can be loaded")
    got = plain(c.value)
    sx.prove(type(c.value) is type(cfg), "as the same kind of config")
    sx.prove(same(sx, want, got, how != "sorted"), "the loaded config equals the dumped one, types included")
    sx.prove(sx.eq(plain(cfg), want), "dumping leaves the config unchanged")


def place(sx, s):
    where = sx.choice("where", sx.p["where"])
    return {"val": lambda: {"k": s}, "item": lambda: [s], "key": lambda: {s: 1}, "nested": lambda: {"a": {"b": [s, {"c": s}]}, "z": s}, "keyd": lambda: {s: {"b": s}},
            "list2": lambda: [[s], [], {}, s], "two": lambda: {"a": s, "b": 1, s + "!": None}}[where]()


def text(sx):
    s = sx.str("s", 0, sx.p["len"], sx.p["alpha"])
    if isinstance(s, str) and s == "???":
        sx.stop()
    if "${" in s:
        sx.stop()
    trip(sx, place(sx, s), sx.choice("how", sx.p["how"]))


WORDS = ("null", "~", "true", "False", "yes", "Off", "y", "0x1F", "0b11", "0o17", "017", "1:30", "1:30.5", "2020-01-02", "2020-01-02 03:04:05", "1_000", "1e5", "1.5e+3", ".5", "-.inf", ".NaN", "=", "<<", "???",
         "-1", "+1.", "- a", "a: b", "a #b", "[a]", "{a", "'q'", "\"q\"", "!t", "&a", "*a", "|", ">", "%d", "@a", "`a", "? a", "---", "...", "a\nb", " a", "a ", "\ta", "a\n", "nan", "inf", "1__0", "1e1_0", ".1e5", "0.",
         "Infinity", "NULL", "nUll", "tRue", "1,5", "1 5", "\u00e9", "\u2028", "\u00a0", "\x07", "\U0001f600", "\r", "a\r\nb", "123456789012345678901234567890", "None", "-", "--- a", "#", "", "\\", "a\\n", "0_1")


def words(sx):
    """Texts YAML might give another type, with one free character inserted or replaced."""
    w = sx.choice("w", WORDS)
    k = sx.choice("at", ("none", "first", "last", "mid", "rep"))
    c = sx.str("c", 1, 1, sx.p["alpha"]) if k != "none" else ""
    m = len(w) // 2
    s = {"none": w, "first": c + w, "last": w + c, "mid": w[:m] + c + w[m:], "rep": w[:m] + c + w[m + 1:]}[k]
    if isinstance(s, str) and s == "???" and sx.p["where"] == ("key",):
        sx.stop()
    trip(sx, place(sx, s), sx.choice("how", sx.p["how"]))


VALUES = (None, True, False, 0, -1, 10 ** 20, 255, 1.0, -0.5, 1e16, 1e-7, 1e300, -1e22, 0.1, 123456789.123, 5e-324, float("inf"), float("-inf"), float("nan"), -0.0, b"", b"\xff\x00a", Path("a/b"), Path("/"), Path("."), "???", "${k}", "a ${k} b",
          "\\${k}", [], {}, "${f:'a b', [1, {x: y}]}", "${f:\"q\"}: x", "${a}\n", "- ${a}", "'${a}'", "\\\\${k}")
KEYS = (1, -5, True, 1.5, "1", "true", "null", "1.5", "", "a b", "a: b", "?", "None", b"x", 0, "${a}", "a\nb", 10 ** 20, float("inf"), "<<", "=")


def values(sx):
    v = sx.choice("v", VALUES)
    num = sx.flag("num")
    i = sx.int("i", -20, 20) if num else 3
    k = sx.choice("key", KEYS[:1] if num else KEYS)
    x = sx.choice("shape", ("d", "l", "n", "r"))
    if x == "r":
        # the root itself
        r = {k: v} if num else v if isinstance(v, (list, dict)) else [v]
        sx.assume(k == 1)
        if r == {} and sx.flag("struct"):
            r = OmegaConf.create({"a": {}}).a
        return trip(sx, r, sx.choice("how", ("yaml", "save", "sorted")))
    trip(sx, {"d": {k: v, "i": i}, "l": [v, i, v], "n": {"a": [{k: v}], k: {"b": i}}}[x], sx.choice("how", sx.p["how"]))


def dups(sx):
    """A mapping that gives the same key twice is rejected, wherever it is."""
    a = sx.str("a", 1, sx.p["len"], sx.p["alpha"])
    b = sx.str("b", 1, sx.p["len"], sx.p["alpha"])
    t = sx.choice("t", ("%s: 1\n%s: 2\n", "%s: 1\nm: 3\n%s: 2\n", "r:\n  %s: 1\n  %s: 2\n", "- %s: 1\n  %s: 2\n", "r: {%s: 1, %s: 2}\n", "%s:\n  x: 1\n%s:\n  y: 1\n"))
    p = t.split("%s")
    s = p[0] + a + p[1] + b + p[2]
    r = sx.attempt(lambda: OmegaConf.create(s) if sx.flag("create") else load(s))
    sx.observe("r", r.ok)
    if a == b:
        sx.prove(not r.ok, "duplicate keys are rejected")
    else:
        sx.prove(r.ok, "different keys are accepted")


def load(s):
    b = Buf()
    b.write(s)
    return OmegaConf.load(b)


FULL = "1.-:e ,[]{}#&*!|>'\"%@`?~<=a\\/\n\t\r\u2028\u00e9\x07+_x$;^("
W = ("val", "item", "key", "nested")
LAB = ["the loaded config equals the dumped one, types included"]
HARNESSES = [
    ("chars", text, {"quick": {"len": 2, "alpha": FULL, "where": ("val",), "how": ("yaml",)}, "thorough": {"len": 3, "alpha": FULL, "where": ("val", "key"), "how": ("yaml",)}}, LAB),
    ("where", text, {"quick": {"len": 2, "alpha": "1-: a\n#'", "where": ("item", "key", "nested", "two", "keyd", "list2"), "how": ("yaml", "save", "sorted")},
                     "thorough": {"len": 3, "alpha": "1-: a\n#'?", "where": W + ("two", "keyd", "list2"), "how": ("yaml", "save", "sorted")}}, LAB),
    ("number", text, {"quick": {"len": 4, "alpha": "10.-e_:", "where": ("val",), "how": ("yaml",)}, "thorough": {"len": 6, "alpha": "10.-+eE_:xb", "where": ("val", "key"), "how": ("yaml",)}}, LAB),
    ("exponent", text, {"quick": {"len": 5, "alpha": "1._e", "where": ("val",), "how": ("yaml",)}, "thorough": {"len": 7, "alpha": "1._e-", "where": ("val",), "how": ("yaml",)}}, LAB),
    ("words", words, {"quick": {"alpha": "1a. ", "where": ("val",), "how": ("yaml",)}, "thorough": {"alpha": "1a. :-_e\n#+", "where": W, "how": ("yaml", "save")}}, LAB),
    ("wkeys", words, {"quick": {"alpha": ":e", "where": ("key",), "how": ("yaml",)}, "thorough": {"alpha": ":e \n'", "where": ("key", "two", "list2"), "how": ("yaml",)}}, LAB),
    ("values", values, {"quick": {"how": ("yaml",)}, "thorough": {"how": ("yaml", "save", "sorted")}}, LAB),
    ("dups", dups, {"quick": {"len": 2, "alpha": "a1e"}, "thorough": {"len": 3, "alpha": "ab1e."}}, ["duplicate keys are rejected", "different keys are accepted"]),
]
BOUNDS = ("String values/keys of at most 2 (thorough 3) free characters over 40 characters of all YAML kinds (indicators, blanks, line breaks, control and non-ASCII characters; not \\x85, \\ufeff and characters outside the BMP "
          "next to control characters, where libyaml and the pure-Python PyYAML differ), number-like strings of at most 4 (thorough 6) free characters, 70 texts that YAML could read as another type with one character "
          "inserted or replaced at 4 places, 36 non-string values x 21 keys x 4 shapes (also the root itself, e.g. an empty list), one free integer; as value, item, key and nested; to_yaml (also sorted) and save. Texts with `${` come from a list (interpolations are dumped as written). "
          "Duplicate keys: two keys of at most 2 (3) free characters in 6 document shapes. The YAML code executed symbolically is the pure-Python half of PyYAML; every path is replayed with the real (libyaml) one. "
          "Enum values/keys (dumped by name by design), comments and YAML anchors are outside.")
ASSUMPTIONS = ["libyaml and the pure-Python PyYAML agree (checked on one witness per path)"]
