"""Flags: the effective value is the nearest explicitly set one, after any history."""
import copy
import pickle
from dataclasses import dataclass, field
from typing import Any, Dict, List, Union

from omegaconf import DictConfig, ListConfig, OmegaConf, flag_override

from .common import all_nodes

FLAGS = ("readonly", "struct")


@dataclass
class S:
    u: Union[int, str] = 1
    d: Dict[str, int] = field(default_factory=dict)


def build():
    cfg = OmegaConf.create({"a": {"b": {"c": 1}, "l": [[5], 6]}})
    cfg.s = OmegaConf.structured(S)
    return cfg


PATHS = ("", "a", "a.b", "a.b.c", "a.l", "a.l.0", "a.l.0.0", "s", "s.u")


def node_at(cfg, path):
    n = cfg
    if path:
        for p in path.split("."):
            n = n._get_node(int(p) if isinstance(n, ListConfig) else p)
    return n


def depth_ok(cfg, path):
    return True


def tri(sx, name):
    return None if sx.flag(name + ".none") else sx.bool(name)


class Model:
    """explicit flags per path prefix (reference)."""

    def __init__(self, flag):
        self.flag = flag
        self.explicit = {}
        self.roots = set()

    def effective(self, path):
        parts = path.split(".") if path else []
        for k in range(len(parts), -1, -1):
            p = ".".join(parts[:k])
            if self.explicit.get(p) is not None:
                return self.explicit[p]
            if p in self.roots:
                return None
        return None


def check(sx, cfg, flag, m):
    for p in PATHS:
        exp = m.effective(p)
        got = node_at(cfg, p)._get_flag(flag)
        if exp is None:
            sx.prove(got is None, "unset flag is unset")
        else:
            sx.prove(sx.And(got is not None, got == exp), "nearest explicit flag wins")
        sx.observe(p, got)


def explicit_now(sx, cfg, m):
    for p in PATHS:
        v, e = node_at(cfg, p)._get_node_flag(m.flag), m.explicit.get(p)
        sx.prove(v is None if e is None else sx.And(v is not None, v == e), "explicit flag unchanged by other operations")


def api_set(node, flag, v):
    if flag == "readonly":
        OmegaConf.set_readonly(node, v)
    elif isinstance(node, (DictConfig, ListConfig)):
        OmegaConf.set_struct(node, v)
    else:
        node._set_flag(flag, v)


STEPS = ("set", "query", "query_all", "root", "deepcopy", "pickle", "override", "set_again")


def history(sx):
    flag = sx.choice("flag", FLAGS)
    cfg = build()
    m = Model(flag)
    if sx.flag("primed"):
        # an explicit flag that everything below has been asked for
        p = sx.choice("pp", ("", "a"))
        v = sx.bool("pv")
        api_set(node_at(cfg, p), flag, v)
        m.explicit[p] = v
        for n in all_nodes(cfg):
            n._get_flag(flag)
    for k in range(sx.p["steps"]):
        t = str(k)
        op = sx.choice("op" + t, STEPS)
        if op == "set":
            p = sx.choice("p" + t, PATHS)
            v = tri(sx, "v" + t)
            api_set(node_at(cfg, p), flag, v)
            m.explicit[p] = v
        elif op == "set_again":
            p = sx.choice("p" + t, ("", "a.b"))
            v, w = tri(sx, "v" + t), tri(sx, "w" + t)
            api_set(node_at(cfg, p), flag, v)
            node_at(cfg, "a.b.c")._get_flag(flag)
            api_set(node_at(cfg, p), flag, w)
            m.explicit[p] = w
        elif op == "query":
            node_at(cfg, sx.choice("p" + t, ("a.b.c", "a.l.0.0", "s.u")))._get_flag(flag)
        elif op == "query_all":
            for n in all_nodes(cfg):
                for f in FLAGS:
                    n._get_flag(f)
        elif op == "root":
            p = sx.choice("p" + t, ("a", "a.b"))
            v = sx.flag("v" + t)
            node_at(cfg, p)._set_flags_root(v)
            if v:
                m.roots.add(p)
            else:
                m.roots.discard(p)
        elif op == "deepcopy":
            cfg = copy.deepcopy(cfg)
        elif op == "pickle":
            cfg = pickle.loads(pickle.dumps(cfg))
        elif op == "override":
            p = sx.choice("p" + t, ("", "a", "a.l.0"))
            v = tri(sx, "v" + t)
            n = node_at(cfg, p)
            saved = m.explicit.get(p)
            with flag_override(n, flag, v):
                m.explicit[p] = v
                check(sx, cfg, flag, m)
            m.explicit[p] = saved
    check(sx, cfg, flag, m)
    explicit_now(sx, cfg, m)


def moved(sx):
    """A subtree that is assigned somewhere else inherits from its new place."""
    flag = sx.choice("flag", FLAGS)
    cfg = build()
    other = OmegaConf.create({"p": {"q": None, "l": [None]}})
    src = sx.choice("src", ("a", "a.b", "a.l", "a.b.c", "a.l.0"))
    m = Model(flag)
    for p in ("", "a", "a.b"):
        if sx.flag("set " + p):
            v = sx.bool("v " + p)
            api_set(node_at(cfg, p), flag, v)
            m.explicit[p] = v
    ov = {}
    for p in ("", "p"):
        if sx.flag("oset " + p):
            ov[p] = sx.bool("ov " + p)
    if sx.flag("query"):
        for n in all_nodes(cfg) + all_nodes(other):
            n._get_flag(flag)
    how = sx.choice("how", ("setitem", "nodeepcopy", "append", "merge"))
    node = node_at(cfg, src)
    dst = other.p
    if how == "setitem":
        dst["q"] = node
        new = dst._get_node("q")
        chain = ["p", ""]
    elif how == "nodeepcopy":
        other._set_flag("no_deepcopy_set_nodes", True)
        dst["q"] = node
        new = dst._get_node("q")
    elif how == "append":
        dst.l.append(node)
        new = dst.l._get_node(1)
    else:
        other = OmegaConf.merge(other, {"p": {"q": node}})
        new = other.p._get_node("q")
    if how != "merge" and sx.flag("query2"):
        for n in all_nodes(other):
            n._get_flag(flag)
    for p, v in ov.items():
        api_set(node_at(other, p), flag, v)
    own = m.explicit.get(src)
    inherited = ov.get("p") if "p" in ov else ov.get("")
    exp = own if own is not None else inherited
    for n in all_nodes(new):
        e = exp
        # an explicitly flagged descendant keeps its own value
        if n is not new:
            k = n
            while k is not new and k is not None:
                f = k._get_node_flag(flag)
                if f is not None:
                    e = f
                    break
                k = k._get_parent()
        got = n._get_flag(flag)
        sx.prove(got is None if e is None else sx.And(got is not None, got == e), "moved subtree inherits from its new parent")
    if how == "setitem" and src in ("a", "a.b") and own is not None:
        sx.prove(new._get_node_flag(flag) == own, "explicit flag moves with the node")


HARNESSES = [
    ("history", history, {"quick": {"steps": 2}, "thorough": {"steps": 3}},
     ["nearest explicit flag wins", "unset flag is unset",
      "explicit flag unchanged by other operations"]),
    ("moved", moved, {"quick": {}, "thorough": {}}, ["moved subtree inherits from its new parent"]),
]
BOUNDS = ("a fixed 9-node tree (dicts, nested lists, structured config with a union field), possibly with a flag set and asked for everywhere; `steps` operations, each any of "
          "setting a flag to a symbolic value or None on any node, querying, toggling flags_root, copying, pickling, "
          "temporary override; flags readonly and struct")
