"""read_write / open_dict / flag_override restore the flags exactly, however the block ends."""
from dataclasses import dataclass, field
from typing import List

from omegaconf import DictConfig, ListConfig, OmegaConf, flag_override, open_dict, read_write

from .common import all_nodes, anc_flag

FLAGS = ("readonly", "struct", "allow_objects")


@dataclass
class S:
    v: int = 1
    l: List[int] = field(default_factory=lambda: [1])


def build():
    cfg = OmegaConf.create({"a": {"b": 1, "l": [1, {"k": 2}]}, "x": 1})
    cfg.s = OmegaConf.structured(S)
    return cfg


PATHS = ("", "a", "a.l", "s")


def at(cfg, path):
    n = cfg
    if path:
        for p in path.split("."):
            n = n._get_node(int(p) if isinstance(n, ListConfig) else p)
    return n


def explicit(cfg):
    return [[n._get_node_flag(f) for f in FLAGS] for n in all_nodes(cfg)]


def effective(cfg):
    return [[n._get_flag(f) for f in FLAGS] for n in all_nodes(cfg)]


def reference(cfg):
    return [[anc_flag(n, f) for f in FLAGS] for n in all_nodes(cfg)]


def tri(sx, name):
    return None if sx.flag(name + ".none") else sx.bool(name)


class Boom(Exception):
    pass


def block(sx, cfg, t):
    """(context manager, node, {flag: value inside})"""
    p = sx.choice("p" + t, PATHS if sx.p["all_paths"] else ("a", ""))
    n = at(cfg, p)
    kind = sx.choice("kind" + t, ("read_write", "open_dict", "override1", "override_list", "override_bcast"))
    if kind == "open_dict" and isinstance(n, ListConfig):
        kind = "read_write"
    if kind == "read_write":
        return (lambda: read_write(n)), n, {"readonly": False}
    if kind == "open_dict":
        return (lambda: open_dict(n)), n, {"struct": False}
    if kind == "override1":
        f = sx.choice("f" + t, FLAGS[:2])
        v = tri(sx, "v" + t)
        return (lambda: flag_override(n, f, v)), n, {f: v}
    if kind == "override_list":
        v, w = tri(sx, "v" + t), tri(sx, "w" + t)
        return (lambda: flag_override(n, ["readonly", "struct"], [v, w])), n, {"readonly": v, "struct": w}
    v = tri(sx, "v" + t)
    return (lambda: flag_override(n, ["struct", "allow_objects"], v)), n, {"struct": v, "allow_objects": v}


def body(sx, cfg, n, t, want):
    b = sx.choice("body" + t, sx.p["bodies"])
    if b == "raise":
        raise Boom()
    if b == "write":
        if isinstance(n, DictConfig):
            n["x" if "x" in n else sorted(n.keys())[0]] = 5
        else:
            n[0] = 5
    if b == "fail":
        n[(1, 2)] = 5
    if b == "set_inside":
        for f in want:
            n._set_flag(f, True)
    if b == "query":
        effective(cfg)


def same(sx, a, b):
    return sx.And(*[(x is None and y is None) if x is None or y is None else x == y
                    for r, s in zip(a, b) for x, y in zip(r, s)])


def inside_ok(sx, n, want):
    return sx.And(*[(n._get_node_flag(f) is None) if v is None else sx.And(n._get_node_flag(f) is not None, n._get_node_flag(f) == v)
                    for f, v in want.items()])


def blocks(sx):
    cfg = build()
    for p, fl in sx.p["init"]:
        n = at(cfg, p)
        for f in fl:
            v = tri(sx, "init %s %s" % (p, f))
            if v is not None:
                n._set_flag(f, v)
    if sx.p["depth"] > 1 or sx.flag("queried"):
        effective(cfg)

    def run(depth):
        t = str(depth)
        mk, n, want = block(sx, cfg, t)
        pre = explicit(cfg)
        e = sx.attempt(lambda: inner(mk, n, want, depth))
        sx.observe("e" + t, e.kind)
        count = min(len(pre), len(explicit(cfg)))
        sx.prove(same(sx, explicit(cfg)[:count], pre[:count]), "leaving the block restores the explicit flags")
        sx.prove(same(sx, effective(cfg), reference(cfg)), "effective flags follow after the block")
        if not e.ok:
            raise e.exc

    def inner(mk, n, want, depth):
        with mk():
            sx.prove(inside_ok(sx, n, want), "inside the block the flags have the requested values")
            sx.prove(same(sx, effective(cfg), reference(cfg)), "effective flags follow inside the block")
            if depth + 1 < sx.p["depth"]:
                run(depth + 1)
            body(sx, cfg, n, str(depth), want)

    r = sx.attempt(lambda: run(0))
    sx.observe("out", r.kind)
    sx.observe("flags", explicit(cfg))


def internal(sx):
    """Operations that override flags on the way (merge, update with force_add, conversions, assignment of configs) put them back, on success
    and on failure."""
    cfg = build()
    for p in ("", "a", "s"):
        for f in FLAGS[:2]:
            if f == "readonly" and p:
                continue
            v = tri(sx, "init %s %s" % (p, f))
            if v is not None:
                at(cfg, p)._set_flag(f, v)
    v = sx.choice("v", (7, object(), {"z": 1}, [1], "str"))
    ops = {
        "force": lambda: OmegaConf.update(cfg, "a.new", v, force_add=True),
        "force_deep": lambda: OmegaConf.update(cfg, "a.new.x", v, force_add=True),
        "force_typed": lambda: OmegaConf.update(cfg, "s.v", v, force_add=True),
        "force_thru": lambda: OmegaConf.update(cfg, "a.b.q", v, force_add=True),
        "merge_with": lambda: cfg.merge_with({"s": {"v": v}}),
        "merge": lambda: OmegaConf.merge(cfg, {"s": {"v": v}}),
        "container": lambda: OmegaConf.to_container(cfg),
        "masked": lambda: OmegaConf.masked_copy(cfg, "a"),
        "set": lambda: cfg.__setitem__("x", v),
        "list_set": lambda: cfg.s.__setattr__("l", v),
        "slice": lambda: cfg.a.l.__setitem__(slice(0, 1), [v]),
        "add": lambda: cfg.a.l + [v],
        "resolve": lambda: OmegaConf.resolve(cfg),
        "append": lambda: cfg.s.l.append(v),
        "yaml": lambda: OmegaConf.to_yaml(cfg),
    }
    op = sx.choice("op", sorted(ops))
    watched = [(n, [n._get_node_flag(f) for f in FLAGS]) for n in (cfg, cfg._get_node("a"), cfg._get_node("s"), at(cfg, "a.l"))]
    r = sx.attempt(ops[op])
    sx.observe("r", (op, r.kind))
    for n, fl in watched:
        sx.prove(same(sx, [[n._get_node_flag(f) for f in FLAGS]], [fl]), "flags after the operation are as before: " + op)
    sx.prove(same(sx, effective(cfg), reference(cfg)), "effective flags follow after: " + op)


BODIES = ("nothing", "raise", "write", "fail", "set_inside", "query")
I1 = (("", ("readonly", "struct")), ("a", ("readonly", "struct")))
I2 = (("", ("readonly",)), ("a", ("struct",)))
HARNESSES = [
    ("blocks", blocks, {"quick": {"depth": 1, "all_paths": True, "init": I1, "bodies": BODIES},
                        "thorough": {"depth": 2, "all_paths": False, "init": I1, "bodies": BODIES}},
     ["leaving the block restores the explicit flags", "inside the block the flags have the requested values"]),
    ("nested", blocks, {"quick": {"depth": 2, "all_paths": False, "init": I2, "bodies": ("nothing", "raise", "set_inside")},
                        "thorough": {"depth": 3, "all_paths": False, "init": (), "bodies": ("nothing", "raise")}}, []),
    ("internal", internal, {"quick": {}, "thorough": {}}, ["flags after the operation are as before: force"]),
]
BOUNDS = ("up to `depth` nested blocks of the three context managers on any of the nodes, any initial explicit readonly/struct values on "
          "root and child, bodies that do nothing, write, fail, raise, query or change the flags themselves; 15 library operations that "
          "override flags internally with valid and invalid values")
