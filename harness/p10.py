"""OmegaConf.merge against a reference model on plain data; inputs unmodified; nothing shared."""
from omegaconf import DictConfig, ListConfig, ListMergeMode, OmegaConf

from .common import all_nodes, keys_ok, plain, snap

MODES = (ListMergeMode.REPLACE, ListMergeMode.EXTEND, ListMergeMode.EXTEND_UNIQUE)
MISSING = "???"
KINDS = ("absent", "int", "none", "missing", "interp", "list", "dict")
LEAF = ("int", "none", "missing", "interp")


def leaf(sx, name, kind):
    if kind == "int":
        return sx.int(name)
    if kind == "none":
        return None
    if kind == "missing":
        return MISSING
    if kind == "interp":
        return sx.choice(name + ".to", sx.p.get("targets", ("${z.d}", "${z}", "${nope}")))
    raise AssertionError(kind)


def tree(sx, name, keys, kinds=KINDS, depth=1):
    out = {}
    for k in keys:
        kind = sx.choice("%s.%s.kind" % (name, k), kinds)
        n = "%s.%s" % (name, k)
        if kind == "absent":
            continue
        if kind == "list":
            out[k] = [sx.int("%s.%d" % (n, i)) for i in range(sx.choice(n + ".n", sx.p["lens"]))]
        elif kind == "dict":
            if depth > 0:
                out[k] = tree(sx, n, ("c", "d"), sx.p["inner"], depth - 1)
            else:
                out[k] = {}
        else:
            out[k] = leaf(sx, n, kind)
    return out


def is_inter(v):
    return isinstance(v, str) and v.startswith("${")


def lookup(root, v):
    """Plain value (unresolved) an interpolation leads to, or None when it does not resolve."""
    for _ in range(8):
        cur = root
        for p in v[2:-1].split("."):
            if not isinstance(cur, dict) or p not in cur:
                return None
            cur = cur[p]
            if is_inter(cur):
                # an interpolation on the way
                cur = lookup(root, cur)
        if is_inter(cur):
            v = cur
            continue
        return cur
    return None


class TypeMismatch(Exception):
    pass


def ref_merge(sx, dest, src, mode, root=None):
    """Reference semantics on plain dicts; returns a new dict. root: what interpolations in dest refer to."""
    out = dest
    root = out if root is None else root
    for k, v in src.items():
        if k not in out:
            out[k] = clone(v)
            continue
        cur = out[k]
        if is_inter(cur):
            t = lookup(root, cur)
            if isinstance(t, (dict, list)) and isinstance(v, (dict, list)):
                out[k] = cur = clone(t)
        if isinstance(v, str) and v == MISSING:
            continue
        if isinstance(cur, dict) and isinstance(v, dict):
            ref_merge(sx, cur, v, mode, root)
        elif isinstance(cur, list) and isinstance(v, list):
            if mode == ListMergeMode.REPLACE:
                out[k] = clone(v)
            elif mode == ListMergeMode.EXTEND:
                out[k] = cur + clone(v)
            else:
                for x in v:
                    if x not in cur:
                        cur.append(x)
        elif isinstance(cur, (dict, list)) and isinstance(v, (dict, list)):
            raise TypeMismatch()
        else:
            out[k] = clone(v)
    return out


def clone(v):
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    if isinstance(v, list):
        return [clone(x) for x in v]
    return v


def wrap(sx, name, d, how):
    return OmegaConf.create(clone(d)) if how == "config" else clone(d)


def ordered_eq(sx, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a.keys()) != list(b.keys()):
            return False
        return sx.And(*[ordered_eq(sx, a[k], b[k]) for k in a])
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        return sx.And(*[ordered_eq(sx, x, y) for x, y in zip(a, b)])
    return sx.eq(a, b)


def run(sx, datas, hows, mode):
    cfgs = [wrap(sx, "", d, h) for d, h in zip(datas, hows)]
    before = [snap(c) if h == "config" else clone(c) for c, h in zip(cfgs, hows)]
    how = sx.choice("api", sx.p["apis"])
    if how == "merge":
        r = sx.attempt(lambda: OmegaConf.merge(*cfgs, list_merge_mode=mode))
        res = r.value
    elif how == "merge_with":
        c0 = OmegaConf.create(clone(datas[0]))
        r = sx.attempt(lambda: c0.merge_with(*cfgs[1:], list_merge_mode=mode))
        res = c0
    else:
        def f():
            c = cfgs[0]
            for o in cfgs[1:]:
                c = OmegaConf.merge(c, o, list_merge_mode=mode)
            return c
        r = sx.attempt(f)
        res = r.value
    exp = sx.attempt(lambda: fold(sx, datas, mode))
    sx.observe("kind", r.kind)
    sx.prove(r.ok == exp.ok, "merge succeeds exactly when the rules allow it")
    for c, b, h in zip(cfgs, before, hows):
        sx.prove(sx.eq(snap(c) if h == "config" else c, b), "merge inputs are unmodified")
    if not r.ok:
        sx.prove(r.isa(TypeError), "merging a dict with a list is a TypeError")
        return
    sx.observe("res", plain(res))
    sx.prove(ordered_eq(sx, plain(res), exp.value), "merge result follows the rules")
    sx.prove(keys_ok(res), "merged nodes know their parent and key")
    ids = set(id(n) for n in all_nodes(res))
    for c, h in zip(cfgs, hows):
        if h == "config":
            sx.prove(not any(id(n) in ids for n in all_nodes(c)), "merge result shares no node with its inputs")


def fold(sx, datas, mode):
    out = clone(datas[0])
    for d in datas[1:]:
        ref_merge(sx, out, d, mode)
    return out


def two(sx):
    mode = sx.choice("mode", MODES)
    a = {"z": {"d": sx.int("zd")}}
    a.update(tree(sx, "A", ("a", "b")[:sx.p["keys"]]))
    b = tree(sx, "B", ("a", "b")[:sx.p["keys"]])
    run(sx, [a, b], ["config", sx.choice("how", ("config", "plain"))], mode)


def three(sx):
    mode = sx.choice("mode", MODES)
    datas = []
    for n in ("A", "B", "C"):
        datas.append(tree(sx, n, ("a",), ("absent", "int", "missing", "list", "dict")))
    run(sx, datas, ["config"] * 3, mode)


def interp_target(sx):
    """Interpolations to containers, on the destination side."""
    mode = sx.choice("mode", MODES)
    z = sx.choice("z", ("dict", "list", "int", "chain"))
    a = {"a": "${z}"}
    if z == "dict":
        a["z"] = {"c": sx.int("zc"), "e": sx.int("ze")}
    elif z == "list":
        a["z"] = [sx.int("z0")]
    elif z == "int":
        a["z"] = sx.int("z")
    else:
        a["z"] = "${y}"
        a["y"] = {"c": sx.int("yc")}
    b = tree(sx, "B", ("a", "z"), ("absent", "int", "none", "missing", "list", "dict"))
    run(sx, [a, b], ["config", "config"], mode)


def flags(sx):
    """Explicit flags: those of the sources win over the destination's; the destination's own are kept otherwise."""
    A = OmegaConf.create({"a": {"c": 1}, "l": [1]})
    B = OmegaConf.create({"a": {"c": 2}, "l": [2]})
    vals = {}
    flag = sx.choice("flag", ("readonly", "struct"))
    for n, c in (("A", A), ("B", B)):
        for p in ("", "a", "l"):
            if n == "A" and p and flag == "readonly":
                continue
            if sx.flag("%s.%s?" % (n, p)):
                v = sx.bool("%s.%s" % (n, p))
                node = c if p == "" else c._get_node(p)
                node._set_flag(flag, v)
                vals[n, p] = v
    sa, sb = snap(A), snap(B)
    r = sx.attempt(lambda: OmegaConf.merge(A, B))
    sx.observe("kind", r.kind)
    sx.prove(r.ok, "merging an existing key over a flagged config succeeds")
    res = r.value
    sx.prove(sx.eq(plain(res), {"a": {"c": 2}, "l": [2]}), "flags do not change merged values")
    for p in ("", "a", "l"):
        node = res if p == "" else res._get_node(p)
        got = node._get_node_flag(flag)
        exp = vals.get(("B", p), vals.get(("A", p)))
        if p == "" and flag == "readonly" and ("B", "") in vals and ("A", "") in vals:
            exp = sx.Or(vals["A", ""], vals["B", ""])
        elif p == "" and flag == "readonly" and ("B", "") in vals:
            # a writable source leaves the destination as it was
            if bool(vals["B", ""]) is False:
                exp = None
        sx.prove(got is None if exp is None else sx.And(got is not None, got == exp), "source flags win in a merge")
        sx.observe("f" + p, got)
    sx.prove(sx.And(sx.eq(snap(A), sa), sx.eq(snap(B), sb)), "flags of merge inputs are unmodified")


def top_lists(sx):
    """Merging list configs."""
    mode = sx.choice("mode", MODES)
    a = [sx.int("a%d" % i) for i in range(sx.choice("na", (0, 1, 2)))]
    b = [sx.int("b%d" % i) for i in range(sx.choice("nb", (0, 1, 2)))]
    if sx.flag("extra"):
        b.append(sx.choice("x", (None, MISSING, "${0}")))
    A, B = OmegaConf.create(list(a)), OmegaConf.create(list(b))
    sa, sb = snap(A), snap(B)
    r = sx.attempt(lambda: OmegaConf.merge(A, B, list_merge_mode=mode))
    sx.observe("k", r.kind)
    sx.prove(r.ok, "merging lists succeeds")
    if mode == ListMergeMode.REPLACE:
        exp = b
    elif mode == ListMergeMode.EXTEND:
        exp = a + b
    else:
        exp = list(a)
        for x in b:
            if x not in exp:
                exp.append(x)
    sx.prove(sx.eq(plain(r.value), exp), "list merge result follows the mode")
    sx.prove(keys_ok(r.value), "merged list nodes know their parent and key")
    separate(sx, r.value, [A, B], "lists")
    sx.prove(sx.And(sx.eq(snap(A), sa), sx.eq(snap(B), sb)), "list merge inputs are unmodified")


def mismatch(sx):
    x = sx.choice("x", ("dict", "list"))
    A = OmegaConf.create({"a": sx.int("v")} if x == "dict" else [sx.int("v")])
    y = [1] if x == "dict" else {"a": 1}
    if sx.flag("cfg"):
        y = OmegaConf.create(y)
    s = snap(A)
    r = sx.attempt(lambda: OmegaConf.merge(A, y))
    r2 = sx.attempt(lambda: A.merge_with(y))
    sx.prove(r.isa(TypeError) and r2.isa(TypeError), "merging configs of different kinds is a TypeError")
    r3 = sx.attempt(lambda: OmegaConf.merge(A, None))
    sx.prove(r3.isa(ValueError), "merging None is a ValueError")
    sx.prove(sx.eq(snap(A), s), "failed merge leaves the target")


SPECIAL = {"dnone": (DictConfig, None), "dmiss": (DictConfig, MISSING), "dinter": (DictConfig, "${z}"),
           "lnone": (ListConfig, None), "lmiss": (ListConfig, MISSING), "linter": (ListConfig, "${y}")}
DICTS, LISTS = ("dict", "dnone", "dmiss", "dinter"), ("list", "lnone", "lmiss", "linter")


def special_value(sx, name, kind):
    """-> (plain value, value to build the config from)"""
    if kind in SPECIAL:
        cls, v = SPECIAL[kind]
        return v, cls(v)
    if kind == "dict":
        v = {"c": sx.int(name + ".c")} if sx.flag(name + ".full") else {}
    elif kind == "list":
        v = [sx.int(name + ".0")] if sx.flag(name + ".full") else []
    elif kind == "int":
        v = sx.int(name)
    else:
        v = {"none": None, "missing": MISSING, "inter": sx.choice(name + ".to", ("${z}", "${y}", "${x}"))}[kind]
    return v, clone(v)


def separate(sx, res, inputs, what):
    """The result and the inputs share nothing and every node is linked as it should be."""
    ids = set(id(n) for n in all_nodes(res))
    sx.prove(keys_ok(res) and all(keys_ok(c) for c in inputs), what + ": nodes know their parent and key")
    sx.prove(not any(id(n) in ids for c in inputs for n in all_nodes(c)), what + ": the result shares no node with its inputs")


def elem(sx, name, kind):
    x = sx.int(name)
    return {"int": x, "dict": {"x": x}, "list": [x], "deep": {"x": [{"y": x}], "z": {"w": x}}, "empty": {}, "inter": "${k}", "none": None}[kind]


def nested(sx):
    """Deeper values, lists of containers; inputs whole, as subtrees of other configs, or plain."""
    mode = sx.choice("mode", MODES)
    kinds = sx.p["kinds"]
    top = sx.choice("top", ("list", "dict"))
    mk = (lambda n, ks: [elem(sx, n + str(i), k) for i, k in enumerate(ks)]) if top == "list" else (lambda n, ks: {"abc"[i]: [elem(sx, n + str(i), k), elem(sx, n + "." + str(i), k)] if sx.p["lists"] and i == 1 else elem(sx, n + str(i), k) for i, k in enumerate(ks)})
    a = mk("a", [sx.choice("ka%d" % i, kinds) for i in range(sx.choice("na", sx.p["na"]))])
    b = mk("b", [sx.choice("kb%d" % i, kinds) for i in range(sx.choice("nb", (1, 2)))])
    if top == "dict":
        exp = clone(a)
        try:
            ref_merge(sx, exp, b, mode)
        except TypeMismatch:
            sx.stop()  # covered elsewhere
    else:
        exp = {"r": clone(a)}
        ref_merge(sx, exp, {"r": b}, mode)
        exp = exp["r"]
    fa, fb, api = sx.choice("form", sx.p["forms"])
    ra = OmegaConf.create({"k": 1, "r": clone(a)}) if fa == "sub" else OmegaConf.create(clone(a))
    rb = OmegaConf.create({"k": 2, "r": clone(b)}) if fb == "sub" else OmegaConf.create(clone(b)) if fb == "whole" else clone(b)
    A, B = ra.r if fa == "sub" else ra, rb.r if fb == "sub" else rb
    sa, sb = snap(ra), snap(rb) if fb != "plain" else clone(rb)
    if api == "merge_with":
        r = sx.attempt(lambda: A.merge_with(B, list_merge_mode=mode))
        res = A
    else:
        r = sx.attempt(lambda: (OmegaConf.merge if api == "merge" else OmegaConf.unsafe_merge)(A, B, list_merge_mode=mode))
        res = r.value
    sx.observe("k", r.kind)
    sx.prove(r.ok, "merging nested values succeeds")
    sx.observe("res", plain(res))
    sx.prove(ordered_eq(sx, plain(res), exp), "merging nested values follows the rules")
    sx.prove(keys_ok(res), "merging nested values keeps parents and keys")
    if api == "unsafe":
        return  # the inputs may be destroyed
    sx.prove(sx.eq(snap(rb) if fb != "plain" else rb, sb), "merging nested values leaves the inputs")
    if api == "merge":
        sx.prove(sx.eq(snap(ra), sa), "merging nested values leaves the inputs")
        separate(sx, res, [ra] + ([rb] if fb != "plain" else []), "nested")
    else:
        sx.prove(fa == "whole" or keys_ok(ra) and ra.r is A and ra.k == 1, "the tree around the destination stays")
        separate(sx, ra, [rb] if fb != "plain" else [], "nested")


def special(sx):
    """Containers that are None, missing or an interpolation themselves, on either side."""
    mode = sx.choice("mode", MODES)
    kinds = ("int", "none", "missing", "inter") + DICTS + LISTS
    da, db = sx.choice("dest", kinds), sx.choice("src", kinds)
    if (da in DICTS and db in LISTS) or (da in LISTS and db in DICTS):
        sx.stop()
    a, A = special_value(sx, "a", da)
    b, B = special_value(sx, "b", db)
    base = {"x": 3, "y": [sx.int("y0")], "z": {"e": sx.int("ze")}}
    if da == "inter" and (a == "${z}" and db in LISTS or a == "${y}" and db in DICTS):
        sx.stop()  # containers of different kinds
    ca, cb = OmegaConf.create(dict(base, a=A)), OmegaConf.create({"a": B})
    sa, sb = snap(ca), snap(cb)
    r = sx.attempt(lambda: OmegaConf.merge(ca, cb, list_merge_mode=mode))
    exp = dict(clone(base), a=clone(a))
    e = sx.attempt(lambda: ref_merge(sx, exp, {"a": clone(b)}, mode))
    sx.observe("k", r.kind)
    sx.prove(r.ok == e.ok, "merging special containers succeeds exactly when the rules allow it")
    if r.ok:
        sx.observe("res", plain(r.value))
        sx.prove(ordered_eq(sx, plain(r.value), exp), "merging special containers follows the rules")
        sx.prove(keys_ok(r.value), "merged special containers know their parent and key")
        separate(sx, r.value, [ca, cb], "special")
    sx.prove(sx.And(sx.eq(snap(ca), sa), sx.eq(snap(cb), sb)), "merging special containers leaves the inputs")


def special_root(sx):
    """The roots themselves are None, missing or an interpolation."""
    mode = sx.choice("mode", MODES)
    kinds = sx.choice("kinds", (DICTS, LISTS))
    a, A = special_value(sx, "a", sx.choice("dest", kinds))
    b, B = special_value(sx, "b", sx.choice("src", kinds))
    cls = DictConfig if kinds is DICTS else ListConfig
    A, B = cls(A) if isinstance(A, (dict, list)) else A, cls(B) if isinstance(B, (dict, list)) else B
    sa, sb = snap(A), snap(B)
    r = sx.attempt(lambda: OmegaConf.merge(A, B, list_merge_mode=mode))
    sx.observe("k", r.kind)
    sx.prove(r.ok, "merging special roots succeeds")
    exp = {"r": a}
    ref_merge(sx, exp, {"r": b}, mode)
    sx.observe("res", plain(r.value))
    sx.prove(ordered_eq(sx, plain(r.value), exp["r"]), "merging special roots follows the rules")
    sx.prove(sx.And(sx.eq(snap(A), sa), sx.eq(snap(B), sb)), "merging special roots leaves the inputs")
    sx.prove(keys_ok(r.value), "merging special roots keeps parents and keys")
    separate(sx, r.value, [A, B], "special roots")


FORMS = tuple((fa, fb, api) for fa in ("whole", "sub") for fb in ("whole", "sub", "plain") for api in ("merge", "merge_with", "unsafe"))
HARNESSES = [
    ("two", two, {"quick": {"keys": 1, "lens": (0, 2), "inner": ("absent", "int", "missing", "none", "interp"), "apis": ("merge", "merge_with")},
                  "thorough": {"keys": 2, "lens": (0, 2), "inner": ("absent", "int", "missing", "interp"), "targets": ("${z}", "${z.d}"), "apis": ("merge",)}},
     ["merge result follows the rules", "merge inputs are unmodified", "merge result shares no node with its inputs",
      "merging a dict with a list is a TypeError"]),
    ("three", three, {"quick": {"lens": (1,), "inner": ("absent", "int"), "apis": ("merge", "chain")},
                      "thorough": {"lens": (0, 2), "inner": ("absent", "int", "missing"), "apis": ("merge", "chain", "merge_with")}},
     ["merge result follows the rules"]),
    ("interp_target", interp_target, {"quick": {"lens": (1,), "inner": ("absent", "int"), "apis": ("merge",)},
                                      "thorough": {"lens": (0, 1, 2), "inner": ("absent", "int", "none"), "apis": ("merge", "merge_with")}},
     ["merge result follows the rules"]),
    ("flags", flags, {"quick": {}, "thorough": {}}, ["source flags win in a merge"]),
    ("top_lists", top_lists, {"quick": {}, "thorough": {}}, ["list merge result follows the mode"]),
    ("nested", nested, {"quick": {"kinds": ("int", "dict", "deep", "list"), "lists": False, "na": (2,), "forms": FORMS[::5]}, "thorough": {"kinds": ("int", "dict", "deep", "list", "empty", "inter", "none"), "lists": True, "na": (1, 2), "forms": FORMS}}, ["merging nested values follows the rules", "nested: the result shares no node with its inputs"]),
    ("special", special, {"quick": {}, "thorough": {}}, ["merging special containers follows the rules"]),
    ("special_root", special_root, {"quick": {}, "thorough": {}}, ["merging special roots follows the rules"]),
    ("mismatch", mismatch, {"quick": {}, "thorough": {}}, ["merging None is a ValueError"]),
]
BOUNDS = ("two configs with up to `keys` keys (plus an interpolation target) whose values are absent, a symbolic integer, None, missing, an "
          "interpolation, a list of symbolic integers or a two-key dict of those; three configs with one key; the three list merge modes; "
          "DictConfig and plain-dict inputs; all placements of an explicit symbolic flag on root and children of both inputs; "
          "lists and dicts of 1 or 2 elements of 4 (7) kinds nested up to 3 deep, whole, below another config or plain, by merge, merge_with and unsafe_merge; "
          "every pair of a scalar, None, missing, interpolation, dict, list or a DictConfig/ListConfig node that is itself None, missing or an interpolation")
