"""Shared by all harnesses; runs instrumented (symbolic) and natively (replay)."""
import omegaconf
from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf import grammar_parser


def reset():
    OmegaConf.clear_resolvers()
    c = getattr(grammar_parser, "_grammar_cache", None)
    if c is not None and hasattr(c, "data"):
        del c.data


def plain(x):
    """The unresolved plain-data content of a config (or the value itself)."""
    if isinstance(x, (DictConfig, ListConfig)):
        return OmegaConf.to_container(x, resolve=False)
    return x


def children(c):
    """(key, node) pairs stored directly in container c."""
    content = c._content
    if isinstance(c, ListConfig):
        return list(enumerate(content)) if isinstance(content, list) else []
    return list(content.items()) if isinstance(content, dict) else []


def keys_ok(c):
    """Every node in the tree knows its key and its parent."""
    for k, n in children(c):
        if n._get_parent() is not c:
            return False
        nk = n._key()
        if not (nk is k or (type(nk) is type(k) and bool(nk == k))):
            return False
        if isinstance(n, (DictConfig, ListConfig)):
            if not keys_ok(n):
                return False
    return True


def snap(n):
    """Full observable state of a node tree: node kinds, raw values, types, explicit flags."""
    flags = [(f, n._get_node_flag(f)) for f in ("readonly", "struct", "allow_objects")]
    m = n._metadata
    t = (type(n).__name__, str(m.ref_type), m.optional)
    if isinstance(n, (DictConfig, ListConfig)):
        c = n._content
        ty = (str(OmegaConf.get_type(n)), str(m.element_type), str(getattr(m, "key_type", None)))
        if isinstance(n, DictConfig) and isinstance(c, dict) or isinstance(n, ListConfig) and isinstance(c, list):
            return (t, ty, flags, [(k, snap(v)) for k, v in children(n)])
        return (t, ty, flags, c)
    v = n._value()
    if hasattr(v, "_value"):  # union: inner node
        return (t, flags, snap(v))
    return (t, flags, v)


def anc_flag(n, flag):
    """Reference semantics of flag inheritance."""
    while n is not None:
        v = n._get_node_flag(flag)
        if v is not None:
            return v
        if n._is_flags_root():
            return None
        n = n._get_parent()
    return None


def all_nodes(n):
    out = [n]
    if isinstance(n, (DictConfig, ListConfig)):
        for _, c in children(n):
            out.extend(all_nodes(c))
    elif hasattr(n._value(), "_value"):
        out.extend(all_nodes(n._value()))
    return out
