"""Source instrumentation: the real modules are parsed, rewritten so that every operation that
could meet a symbolic value goes through osym.models, compiled and imported."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import operator
import os
import sys

from . import models

SKIP_CALL = frozenset(("super", "locals", "globals", "vars", "eval", "exec", "isinstance", "issubclass",
                       "property", "staticmethod", "classmethod", "cast", "TypeVar"))
HITS = {}  # id -> qualified name of every instrumented function
SEEN = set()  # ids entered


def _n(name):
    return ast.Name(id=name, ctx=ast.Load())


def _call(name, *args):
    return ast.Call(func=_n(name), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    # annotations stay as they are
    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def _function(self, node):
        self.stack.append(node.name)
        node.args = self.visit(node.args)
        body = []
        for st in node.body:
            r = self.visit(st)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        q = self.mod + "." + ".".join(self.stack)
        k = len(HITS)
        HITS[k] = q
        hit = ast.Expr(_call("_sx_hit_", ast.Constant(k)))
        i = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and \
                isinstance(body[0].value.value, str):
            i = 1
        body.insert(i, hit)
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        body = []
        for st in node.body:
            r = self.visit(st)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        node.body = body
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and (f.id in SKIP_CALL or f.id.startswith("_sx_")):
            return node
        return ast.Call(func=_n("_sx_call_"), args=[f] + node.args, keywords=node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, a, b = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return _call("_sx_in_", a, b)
            if isinstance(op, ast.NotIn):
                return _call("_sx_notin_", a, b)
            if isinstance(op, (ast.Is, ast.IsNot)) and not (
                    isinstance(b, ast.Constant) and b.value is None):
                return _call("_sx_is_" if isinstance(op, ast.Is) else "_sx_isnot_", a, b)
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                if isinstance(spec, ast.JoinedStr):
                    spec = self.visit_JoinedStr(spec)
                args.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return _call("_sx_fstr_", *args)

    def _idx(self, s):
        if isinstance(s, ast.Slice):
            c = ast.Constant(None)
            return ast.Call(func=_n("_sx_slice_"), args=[s.lower or c, s.upper or c, s.step or c], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._idx(x) for x in s.elts], ast.Load())
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _call("_sx_getitem_", node.value, self._idx(node.slice))
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(_call("_sx_setitem_", node.value, t.value, self._idx(t.slice)))
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_call("_sx_delitem_", t.value, self._idx(t.slice))))
            else:
                out.append(ast.Delete([t]))
        return out

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Subscript):
            t = node.target
            return ast.Expr(_call("_sx_aug_", t.value, self._idx(t.slice),
                                  ast.Constant(type(node.op).__name__), node.value))
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return _call("_sx_mod_", node.left, node.right)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys or any(k is None for k in node.keys):
            return node
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return _call("_sx_dict_", ast.List(
            [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call("_sx_dict_", ast.GeneratorExp(
            elt=ast.Tuple([node.key, node.value], ast.Load()), generators=node.generators))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call("_sx_set_", ast.GeneratorExp(elt=node.elt, generators=node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        return _call("_sx_set_", ast.List(node.elts, ast.Load()))


_AUG = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "BitOr": operator.ior,
        "BitAnd": operator.iand, "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "Pow": operator.ipow,
        "Div": operator.itruediv, "BitXor": operator.ixor, "LShift": operator.ilshift,
        "RShift": operator.irshift, "MatMult": operator.imatmul}


def _aug(o, i, op, v):
    models.setitem(_AUG[op](models.getitem(o, i), v), o, i)


def _mod(s, args):
    t = args if isinstance(args, tuple) else (args,)
    if any(type(x) in models.SYM for x in t):
        t = tuple("<sym>" if type(x) in models.SYM else x for x in t)
        try:
            return s % t
        except TypeError:
            return "<sym>"
    return s % args


INJECT = {
    "_sx_call_": models.call, "_sx_in_": models.contains, "_sx_notin_": models.not_contains,
    "_sx_is_": models.is_, "_sx_isnot_": models.isnot, "_sx_fstr_": models.fstr,
    "_sx_getitem_": models.getitem, "_sx_setitem_": models.setitem, "_sx_delitem_": models.delitem,
    "_sx_aug_": _aug, "_sx_mod_": _mod, "_sx_dict_": models.mkdict, "_sx_set_": models.mkset,
    "_sx_slice_": slice, "_sx_hit_": SEEN.add,
}


def rewrite(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        with open(self.path, "rb") as f:
            src = f.read()
        return rewrite(src, self.path, fullname)

    def exec_module(self, module):
        module.__dict__.update(INJECT)
        exec(self.get_code(module.__name__), module.__dict__)


ANTLR_OK = ("Lexer", "Token", "RuleContext", "ParserRuleContext", "BufferedTokenStream", "CommonTokenStream",
            "error", "tree", "Utils")


class Finder(importlib.abc.MetaPathFinder):
    """Resolves the given packages from given roots; instruments what `want` accepts."""

    def __init__(self, roots):
        self.roots = roots  # {package: root directory containing it}
        self.loaded = []

    def want(self, name):
        if name.startswith("omegaconf.grammar.gen"):
            return False
        if name.startswith("omegaconf.vendor"):
            p = name.split(".")
            return len(p) > 3 and p[2] == "antlr4" and p[3] in ANTLR_OK
        if name in ("harness.csx", "harness.cmain"):
            return False
        return True

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        root = self.roots.get(top)
        if root is None:
            return None
        if fullname == "yaml.cyaml":
            raise ModuleNotFoundError(fullname)
        base = os.path.join(root, *fullname.split("."))
        if os.path.isdir(base):
            fn, pkg = os.path.join(base, "__init__.py"), True
            if not os.path.exists(fn):
                return None
        else:
            fn, pkg = base + ".py", False
            if not os.path.exists(fn):
                return None
        cls = Loader if self.want(fullname) else importlib.machinery.SourceFileLoader
        loader = cls(fullname, fn)
        self.loaded.append(fullname)
        return importlib.util.spec_from_file_location(
            fullname, fn, loader=loader, submodule_search_locations=[base] if pkg else None)


def install(roots):
    sys.dont_write_bytecode = True
    f = Finder(roots)
    sys.meta_path.insert(0, f)
    return f
