"""Turns branches that only set local names to constants, or count, into values chosen by
the condition, so that a loop that counts symbolic cells does not take a path per outcome.
Anything else keeps its branches."""
import ast
import copy

from .coll import SymDict, SymSet, keyeq
from .proxies import AND, ITE, NOT, OR, SymBool, SymEnum, SymStr, is_sym

UNBOUND = object()
SIMPLE = (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Name, ast.Constant, ast.Attribute, ast.Subscript, ast.And, ast.Or, ast.Not, ast.USub,
          ast.Load, ast.cmpop, ast.Slice, ast.BinOp, ast.operator, ast.Tuple, ast.List, ast.Set)


def _simple(e):
    return all(isinstance(n, SIMPLE) for n in ast.walk(e))


def _const(e):
    return isinstance(e, ast.Constant) and type(e.value) in (int, str, bool, float)


class Names(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(self.m[n.id], n.ctx), n)
        return n


def _name(i, store=False):
    return ast.Name(i, ast.Store() if store else ast.Load())


def _lambda(e):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)


def _call(f, *a):
    return ast.Call(_name("_sx_" + f), list(a), [])


def _odd(e):
    return any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for n in ast.walk(e))


def test(e):
    """The condition, evaluated without branching where operands allow."""
    if isinstance(e, ast.BoolOp) and all(_simple(v) for v in e.values[1:]):
        return _call("and" if isinstance(e.op, ast.And) else "or", *[_lambda(test(v)) for v in e.values])
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return _call("not", test(e.operand))
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
        r = _call("in", e.left, e.comparators[0])
        return r if isinstance(e.ops[0], ast.In) else _call("not", r)
    return e


def _body(stmts, nested):
    """(names set, names set on every way through), or None where it cannot be merged."""
    names, sure = set(), set()
    for s in stmts:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and _const(s.value):
            names.add(s.targets[0].id)
            sure.add(s.targets[0].id)
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)) \
                and isinstance(s.value, ast.Constant) and type(s.value.value) is int:
            if s.target.id not in sure:
                names.add(s.target.id)
                sure.discard(s.target.id)
        elif isinstance(s, ast.If) and _simple(s.test):
            a, b = _body(s.body, True), _body(s.orelse, True)
            if a is None or b is None:
                return None
            names |= a[0] | b[0]
            sure |= a[1] & b[1]
        else:
            return None
    return names, sure


COUNT = [0]


def _emit(s, ren):
    """Statements computing an If without branching, on renamed names."""
    COUNT[0] += 1
    t = f"_sx_t{COUNT[0]}"
    names = sorted(_body([s], True)[0])
    out = [ast.Assign([_name(t, True)], test(Names(ren).visit(copy.deepcopy(s.test))))]
    sides = []
    for tag, body in (("p", s.body), ("e", s.orelse)):
        r = dict(ren)
        for v in names:
            r[v] = f"{t}{tag}_{v}"
            out.append(ast.Assign([_name(r[v], True)], _call("get", _lambda(_name(ren.get(v, v))))))
        sides.append(r)
        for st in body:
            if isinstance(st, ast.If):
                out.extend(_emit(st, r))
            elif isinstance(st, ast.AugAssign):
                v = r[st.target.id]
                out.append(ast.Assign([_name(v, True)], _call("num", ast.BinOp(_name(v), st.op, st.value), _name(v))))
            elif isinstance(st, ast.Assign):
                out.append(ast.Assign([_name(r[st.targets[0].id], True)], st.value))
    for v in names:
        out.append(ast.Assign([_name(ren.get(v, v), True)], _call("ifelse", _name(t), _name(sides[0][v]), _name(sides[1][v]))))
    return out


def convert_if(n):
    """The statements replacing an If, or None."""
    b, e = _body(n.body, False), _body(n.orelse, False)
    if b is None or e is None or _odd(n.test) or any(_odd(x) for x in n.orelse):
        return None
    names = sorted(b[0] | e[0])
    if not names:
        return None
    sure = b[1] & e[1]
    COUNT[0] += 1
    k = COUNT[0]
    t, ok = f"_sx_c{k}", f"_sx_ok{k}"
    final = {v: f"_sx_v{k}_{v}" for v in names}
    inner = ast.If(_name(t), copy.deepcopy(n.body), copy.deepcopy(n.orelse))
    inner._sx_done = True
    work = [ast.Assign([_name(final[v], True)], _call("get", _lambda(_name(v)))) for v in names]
    work += [ast.Expr(_call("need", _name(final[v]))) for v in names if v not in sure]
    work += _emit(copy.deepcopy(inner), final)
    work.append(ast.Assign([_name(ok, True)], ast.Constant(True)))
    guard = ast.If(
        _call("forks", _name(t)),
        [ast.Try(work, [ast.ExceptHandler(_name("_sx_Exception"), None, [ast.Pass()])], [], [])], [])
    done = [ast.Assign([_name(v, True)], _name(final[v])) for v in names]
    out = [ast.Assign([_name(t, True)], test(n.test)), ast.Assign([_name(ok, True)], ast.Constant(False)), guard,
           ast.If(_name(ok), done, [inner])]
    for s in out:
        ast.copy_location(s, n)
    return out


def convert_count(n):
    """sum(const for .. if ..) and len([.. for .. if ..]): the conditions become summands."""
    f = n.func
    if not (isinstance(f, ast.Name) and len(n.args) == 1 and not n.keywords):
        return None
    g = n.args[0]
    if not isinstance(g, (ast.GeneratorExp, ast.ListComp)) or len(g.generators) != 1 or not g.generators[0].ifs \
            or g.generators[0].is_async or _odd(g):
        return None
    if f.id == "sum" and _const(g.elt):
        v = g.elt
    elif f.id == "len" and isinstance(g, ast.ListComp) and isinstance(g.elt, (ast.Name, ast.Constant)):
        v = ast.Constant(1)
    else:
        return None
    ifs = g.generators[0].ifs
    cond = ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), ifs)
    gen = g.generators[0]
    gen.ifs = []
    r = ast.Call(_name("sum"), [ast.GeneratorExp(_call("ifelse", test(cond), v, ast.Constant(0)), [gen])], [])
    return ast.copy_location(r, n)


def convert_any(n):
    """any(.. for ..) and all(.. for ..): one condition."""
    if len(n.args) != 1 or n.keywords or not isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
        return None
    g = n.args[0]
    if any(x.is_async for x in g.generators) or _odd(g):
        return None
    last = g.generators[-1]
    elt = test(g.elt)
    if last.ifs:
        cond = last.ifs[0] if len(last.ifs) == 1 else ast.BoolOp(ast.And(), last.ifs)
        cond = _lambda(test(cond))
        last.ifs = []
        elt = _call("and", cond, _lambda(elt)) if n.func.id == "any" else _call("or", _lambda(_call("not", cond.body)), _lambda(elt))
    r = _call(n.func.id, ast.GeneratorExp(elt, g.generators))
    return ast.copy_location(r, n)


def convert_ifexp(n):
    if _const(n.body) and _const(n.orelse) and not _odd(n.test):
        return ast.copy_location(_call("ifelse", test(n.test), n.body, n.orelse), n)
    return None


# ---------------------------------------------------------------- at run time
class _No(Exception):
    pass


def get(f):
    try:
        return f()
    except NameError:
        return UNBOUND


def need(v):
    if v is UNBOUND:
        raise _No


def num(new, old):
    if type(old) is bool or not (isinstance(old, (int, float)) and isinstance(new, (int, float))):
        raise _No
    return new


def forks(t):
    return isinstance(t, SymBool)


def ifelse(t, a, b):
    if not isinstance(t, SymBool):
        return a if t else b
    if a is b and a is not UNBOUND:
        return a
    if a is not UNBOUND and b is not UNBOUND:
        sa, sb = isinstance(a, str), isinstance(b, str)
        if sa and sb:
            if type(a) is str and type(b) is str and a == b:
                return a
            if (isinstance(a, SymEnum) or type(a) is str) and (isinstance(b, SymEnum) or type(b) is str) \
                    and not isinstance(a, SymStr):
                return SymEnum.ite(t, a, b)
        elif isinstance(a, bool) == isinstance(b, bool) and isinstance(a, int) and isinstance(b, int):
            return ITE(t, a, b)
    return a if bool(t) else b


def _chain(fs, neutral):
    """and (neutral True) / or (neutral False), left to right."""
    acc = []
    last = neutral
    for i, f in enumerate(fs):
        if acc and i:
            try:
                v = f()
            except Exception:
                c = AND(acc) if neutral else OR(acc)
                if bool(c) != neutral:
                    return not neutral
                acc = []
                v = f()
        else:
            v = f()
        last = v
        if isinstance(v, SymBool):
            acc.append(v)
        elif bool(v) != neutral:
            # settles it whatever came before
            return v if not acc else (not neutral)
    if not acc:
        return last
    return AND(acc) if neutral else OR(acc)


def _value(fs, neutral):
    """and / or where the result is used as a value: operands other than conditions are returned as they are."""
    acc = []
    last = neutral
    for f in fs:
        try:
            v = f()
        except Exception:
            if acc and bool(AND(acc) if neutral else OR(acc)) != neutral:
                return not neutral
            raise
        if isinstance(v, SymBool):
            acc.append(v)
            last = neutral
            continue
        if acc and type(v) is not bool:
            if bool(AND(acc) if neutral else OR(acc)) != neutral:
                return not neutral
            acc = []
        last = v
        if bool(v) != neutral:
            return v
    if not acc:
        return last
    return AND(acc) if neutral else OR(acc)


def s_vand(*fs):
    return _value(fs, True)


def s_vor(*fs):
    return _value(fs, False)


def convert_boolop(n):
    if _odd(n) or not all(_simple(v) for v in n.values[1:]):
        return None
    return ast.copy_location(_call("vand" if isinstance(n.op, ast.And) else "vor", *[_lambda(test(v)) for v in n.values]), n)


def _over(it, neutral):
    acc = []
    it = iter(it)
    while True:
        try:
            v = next(it)
        except StopIteration:
            break
        except Exception:
            if acc and bool(AND(acc) if neutral else OR(acc)) != neutral:
                return not neutral
            raise
        if isinstance(v, SymBool):
            acc.append(v)
            if len(acc) > 5000:
                if bool(AND(acc) if neutral else OR(acc)) != neutral:
                    return not neutral
                acc = []
        elif bool(v) != neutral:
            return not neutral
    if not acc:
        return neutral
    return AND(acc) if neutral else OR(acc)


def s_any(it):
    return _over(it, False)


def s_all(it):
    return _over(it, True)


def s_and(*fs):
    return _chain(fs, True)


def s_or(*fs):
    return _chain(fs, False)


def s_not(x):
    return NOT(x) if isinstance(x, SymBool) else not x


def s_in(a, b):
    if isinstance(b, (list, tuple)) and not is_sym(b) and (is_sym(a) or any(is_sym(x) for x in b)):
        return OR([x is a or keyeq(x, a) for x in b])
    if type(b) in (set, frozenset) and is_sym(a):
        return OR([keyeq(x, a) for x in b])
    if isinstance(b, (SymSet, SymDict)) and is_sym(a) and hasattr(b, "has"):
        return b.has(a)
    if isinstance(b, range) and is_sym(a) and isinstance(a, int) and b.step == 1:
        return AND(a >= b.start, a < b.stop)
    return a in b


def count(o, x):
    if type(o) in (list, tuple) and (is_sym(x) or any(is_sym(y) for y in o)):
        return sum([ifelse(keyeq(y, x), 1, 0) for y in o])
    return o.count(x)


SHIMS = {"vand": s_vand, "vor": s_vor, "any": s_any, "all": s_all, "count": count, "get": get, "need": need, "num": num, "forks": forks, "ifelse": ifelse, "and": s_and, "or": s_or, "not": s_not, "in": s_in,
         "Exception": Exception}
