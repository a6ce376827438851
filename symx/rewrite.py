"""Loads pylattica (and the harness modules) from their current source with dict and
set displays and a few builtins routed through the symbolic containers.  The rest
of the code runs as written, on proxies."""
import ast
import collections
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import coll, merge, proxies
from .coll import SymCounter, SymDefaultDict, SymDict, SymFrozen, SymSet, symkey
from .proxies import (SymBool, SymEnum, SymInt, SymIntStr, SymReal, SymStr, is_sym)

REPO_SRC = "/repo/src"
PREFIX = "_sx_"
CALLS = {"dict", "set", "frozenset", "int", "float", "str", "type", "bool", "round", "max", "min"}
VALUES_IN_MAP = {"int", "float", "str", "type"}


class T(ast.NodeTransformer):
    def __init__(self, shadowed, merging=False):
        self.shadowed = shadowed
        self.merging = merging
        self.depth = 0

    def _call(self, name, args, node):
        c = ast.Call(ast.Name(PREFIX + name, ast.Load()), args, [])
        return ast.copy_location(c, node)

    def visit_Dict(self, n):
        self.generic_visit(n)
        elts = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                elts.append(ast.Tuple([v], ast.Load()))
            else:
                elts.append(ast.Tuple([k, v], ast.Load()))
        return self._call("mkdict", elts, n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return self._call("mkset", [ast.List(n.elts, ast.Load())], n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)
        return self._call("mkdict_it", [g], n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self._call("mkset", [ast.GeneratorExp(n.elt, n.generators)], n)

    def visit_If(self, n):
        if self.merging and self.depth and not getattr(n, "_sx_done", False):
            r = merge.convert_if(n)
            if r is not None:
                return [self.generic_visit(s) for s in r]
        return self.generic_visit(n)

    def visit_BoolOp(self, n):
        if self.merging and self.depth:
            r = merge.convert_boolop(n)
            if r is not None:
                return self.generic_visit(r)
        return self.generic_visit(n)

    def visit_IfExp(self, n):
        if self.merging and self.depth:
            r = merge.convert_ifexp(n)
            if r is not None:
                return self.generic_visit(r)
        return self.generic_visit(n)

    def visit_Call(self, n):
        if self.merging and isinstance(n.func, ast.Name) and n.func.id in ("sum", "len") and n.func.id not in self.shadowed:
            r = merge.convert_count(n)
            if r is not None:
                return self.generic_visit(r)
        if self.merging and self.depth and isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and n.func.id not in self.shadowed:
            r = merge.convert_any(n)
            if r is not None:
                return self.generic_visit(r)
        self.generic_visit(n)
        f = n.func
        if self.merging and isinstance(f, ast.Attribute) and f.attr == "count" and len(n.args) == 1 and not n.keywords \
                and not isinstance(n.args[0], ast.Starred):
            return self._call("count", [f.value, n.args[0]], n)
        if isinstance(f, ast.Name) and f.id in CALLS and f.id not in self.shadowed:
            if f.id == "type" and len(n.args) != 1:
                return n
            n.func = ast.copy_location(ast.Name(PREFIX + f.id, ast.Load()), f)
        if (isinstance(f, ast.Name) and f.id in ("map", "filter", "defaultdict")) or (
            isinstance(f, ast.Attribute) and f.attr == "defaultdict"
        ):
            n.args = [self._val(a) for a in n.args]
        for kw in n.keywords:
            if kw.arg == "key":
                kw.value = self._val(kw.value)
        if isinstance(f, ast.Attribute) and f.attr == "fromkeys" and isinstance(f.value, ast.Name) \
                and f.value.id == "dict":
            n.func = ast.copy_location(ast.Name(PREFIX + "fromkeys", ast.Load()), f)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and not any(
                isinstance(x, ast.Constant) and x.value is None for x in (n.left, n.comparators[0])):
            c = self._call("is", [n.left, n.comparators[0]], n)
            return c if isinstance(n.ops[0], ast.Is) else ast.copy_location(ast.UnaryOp(ast.Not(), c), n)
        return n

    def _val(self, a):
        if isinstance(a, ast.Name) and a.id in VALUES_IN_MAP and a.id not in self.shadowed:
            return ast.copy_location(ast.Name(PREFIX + a.id, ast.Load()), a)
        return a

    # patterns and annotations stay as they are
    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arguments(self, n):
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [self.visit(d) if d is not None else None for d in n.kw_defaults]
        return n

    def visit_FunctionDef(self, n):
        n.args = self.visit(n.args)
        self.depth += 1
        body = []
        for b in n.body:
            r = self.visit(b)
            body.extend(r if isinstance(r, list) else [r])
        n.body = body
        self.depth -= 1
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        return n

    visit_AsyncFunctionDef = visit_FunctionDef


def transform(source, filename, merging=False):
    tree = ast.parse(source, filename)
    shadowed = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            shadowed.add(n.id)
        elif isinstance(n, ast.arg):
            shadowed.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            shadowed.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                shadowed.add((a.asname or a.name).split(".")[0])
    tree = T(shadowed, merging).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


# ------------------------------------------------------------- runtime shims
def mkdict(*entries):
    d = SymDict()
    for e in entries:
        if len(e) == 1:
            d.update(e[0])
        else:
            d[e[0]] = e[1]
    return d


def mkdict_it(it):
    d = SymDict()
    for k, v in it:
        d[k] = v
    return d


def mkset(it):
    return SymSet(it)


def s_dict(*a, **kw):
    return SymDict(*a, **kw)


def s_set(it=()):
    return SymSet(it)


def s_frozenset(it=()):
    it = list(it)
    if any(symkey(x) for x in it):
        return SymFrozen(it)
    return frozenset(it)


def s_int(x=0, *a):
    if is_sym(x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            return x.__trunc__()
        if isinstance(x, SymBool):
            return x._int()
        if isinstance(x, SymIntStr):
            return x.i
        if isinstance(x, SymStr):
            return x.to_int()
        if isinstance(x, SymEnum):
            return int(x.value(), *a)
    return int(x, *a)


def s_float(x=0.0):
    if is_sym(x):
        if isinstance(x, SymInt):
            return SymReal(proxies.zreal(x))
        if isinstance(x, SymReal):
            return x
        return float(x.value())
    return float(x)


def s_str(x="", *a):
    if is_sym(x):
        if isinstance(x, (SymEnum, SymStr, SymIntStr)):
            return x
        if type(x) is SymInt:
            return SymIntStr(x)
    return str(x, *a)


def s_bool(x=False):
    return bool(x)


def s_round(x, *a):
    return round(x, *a)


_TYPES = [(SymBool, bool), (SymInt, int), (SymReal, float), (SymEnum, str), (SymStr, str),
          (SymIntStr, str)]


def s_type(x):
    t = type(x)
    if is_sym(x):
        for s, p in _TYPES:
            if issubclass(t, s):
                return p
    if t is SymDict:
        return dict
    if t is SymSet:
        return set
    if t is SymFrozen:
        return frozenset
    return t


def s_is(a, b):
    """Identity: of plain integers and strings, what CPython makes of equal ones from different places."""
    if a is b or not (is_sym(a) or is_sym(b)):
        return a is b
    if not is_sym(a):
        a, b = b, a
    if is_sym(b):
        if type(a) is not type(b):
            return False
        if type(a) is SymInt and a.e.eq(b.e):
            return True
    elif s_type(b) is not s_type(a):
        return False
    if isinstance(a, SymReal):
        return False
    if type(a) is SymInt:
        return proxies.AND(a == b, a >= -5, a <= 256)
    return a == b


def fromkeys(it, v=None):
    return SymDict.fromkeys(it, v)


SHIMS = {
    "mkdict": mkdict, "mkdict_it": mkdict_it, "mkset": mkset, "dict": s_dict, "set": s_set,
    "frozenset": s_frozenset, "int": s_int, "float": s_float, "str": s_str, "type": s_type,
    "bool": s_bool, "round": s_round, "fromkeys": fromkeys, "is": s_is, "max": max, "min": min,
}
SHIMS.update(merge.SHIMS)
REPLACE = {
    id(collections.defaultdict): SymDefaultDict,
    id(collections.Counter): SymCounter,
    id(collections.OrderedDict): SymDict,
}


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = transform(src, self.path, self.path.startswith(REPO_SRC))
        g = module.__dict__
        for k, v in SHIMS.items():
            g[PREFIX + k] = v
        exec(code, g)
        from . import env

        for k, v in list(g.items()):
            r = REPLACE.get(id(v))
            if r is None:
                r = env.module_shim(v)
            if r is not None:
                g[k] = r


class Finder(importlib.abc.MetaPathFinder):
    """pylattica from /repo/src, harnesses from /verif/props."""

    def __init__(self, roots):
        self.roots = roots  # {top-level package: directory holding it}

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(base + ".py"))
        return None


def install(verif_dir):
    sys.meta_path.insert(0, Finder({"pylattica": REPO_SRC, "props": verif_dir}))
