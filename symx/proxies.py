"""Symbolic stand-ins for Python ints, floats, bools and strings."""
import math
import operator
from fractions import Fraction

import numpy as np
import z3

from . import engine
from .engine import Unsupported, frac, rv

_REG = []


def _reg_get(i):
    return _REG[i]


class SymBase:
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        _REG.append(self)
        return (_reg_get, (len(_REG) - 1,))

    def __reduce_ex__(self, p):
        return self.__reduce__()


def is_sym(x):
    return isinstance(x, SymBase)


def has_sym(x):
    t = type(x)
    if t is int or t is str or t is float or x is None or t is bool:
        return False
    if isinstance(x, SymBase):
        return True
    if t is tuple or t is frozenset or t is list:
        return any(has_sym(e) for e in x)
    if isinstance(x, dict):
        return any(has_sym(k) or has_sym(v) for k, v in x.items())
    if issubclass(t, np.ndarray):
        return x.dtype == object and any(has_sym(e) for e in x.view(np.ndarray).ravel())
    return False


# ---------------------------------------------------------------- booleans
class SymBool(SymBase):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return engine.cur().branch(self.e)

    def __and__(self, o):
        return AND(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return OR(self, o)

    __ror__ = __or__

    def __invert__(self):
        return NOT(self)

    def __xor__(self, o):
        return NOT(self == o)

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(self.e == zbool(o))
        return self._int() == o

    def __ne__(self, o):
        return NOT(self == o)

    def __hash__(self):
        return hash(bool(self))

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __repr__(self):
        return "<bool>"

    def logical_not(self):
        return NOT(self)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zbool(b):
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, (bool, np.bool_)):
        return z3.BoolVal(bool(b))
    return z3.BoolVal(bool(b))


def AND(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return mkbool(z3.And(es))


def OR(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return mkbool(z3.Or(es))


def NOT(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def IMPLIES(a, b):
    return OR(NOT(a), b)


def ITE(c, a, b):
    """Value-level choice without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, SymEnum) or isinstance(b, SymEnum) or isinstance(a, str):
        return SymEnum.ite(c, a, b)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c.e, zbool(a), zbool(b)))
    if is_intlike(a) and is_intlike(b):
        return SymInt(z3.If(c.e, zint(a), zint(b)))
    la = lin_of(a)
    lb = lin_of(b) if la is not None else None
    if lb is not None:
        d = la.add(lb, -1)
        if not d.t and d.c == 0:
            return a
        na, da = la.parts()
        nb, db = lb.parts()
        k = math.lcm(da, db)
        e = z3.If(c.e, na * z3.IntVal(k // da), nb * z3.IntVal(k // db))
        return mklin(Lin({e.get_id(): (e, Fraction(1, k))}, Fraction(0)))
    return SymReal(z3.If(c.e, zreal(a), zreal(b)))


def is_intlike(x):
    return isinstance(x, SymInt) or isinstance(x, (int, np.integer)) and not is_sym(x)


def zint(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return x._int().e
    return z3.IntVal(int(x))


def zreal(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.ToReal(x._int().e)
    return rv(x)


def _num(x):
    """Can x take part in arithmetic with a proxy?  (0-d arrays are unwrapped)"""
    return isinstance(x, (int, float, np.integer, np.floating, Fraction, np.bool_)) or isinstance(
        x, (SymInt, SymReal, SymBool)
    )


def _arr(x):
    return isinstance(x, np.ndarray)


def simp_num(p):
    return p


def num(e):
    """Wrap a z3 arithmetic expression, folding constants to Python numbers."""
    e = z3.simplify(e)
    if not z3.is_int(e) and not z3.is_rational_value(e):
        l = decompose(e)
        if l is not None:
            return mklin(l)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return float(f) if frac(float(f)) == f else SymReal(e)
    return SymInt(e) if z3.is_int(e) else SymReal(e)


_UF = {
    "add": operator.add, "subtract": operator.sub, "multiply": operator.mul,
    "divide": operator.truediv, "true_divide": operator.truediv,
    "floor_divide": operator.floordiv, "remainder": operator.mod, "mod": operator.mod,
    "negative": operator.neg, "positive": operator.pos, "absolute": operator.abs, "fabs": operator.abs,
    "power": operator.pow, "float_power": operator.pow,
    "equal": operator.eq, "not_equal": operator.ne, "less": operator.lt,
    "less_equal": operator.le, "greater": operator.gt, "greater_equal": operator.ge,
    "square": lambda x: x * x, "sqrt": lambda x: x.sqrt(), "rint": lambda x: x.rint(),
    "floor": lambda x: x.__floor__(), "ceil": lambda x: x.__ceil__(), "trunc": lambda x: x.__trunc__(),
    "conjugate": lambda x: x, "sign": lambda x: x.sign(),
    "logical_and": lambda a, b: AND(_truth(a), _truth(b)),
    "logical_or": lambda a, b: OR(_truth(a), _truth(b)),
    "logical_not": lambda a: NOT(_truth(a)),
    "bitwise_and": operator.and_, "bitwise_or": operator.or_, "invert": operator.invert,
    "maximum": lambda a, b: ITE(a >= b, a, b), "minimum": lambda a, b: ITE(a <= b, a, b),
    "fmax": lambda a, b: ITE(a >= b, a, b), "fmin": lambda a, b: ITE(a <= b, a, b),
    "isnan": lambda a: False, "isfinite": lambda a: True,
    "hypot": lambda a, b: (SymReal(zreal(a * a + b * b))).sqrt(),
    "fmod": lambda a, b: a - b * (a / b).__trunc__(),
}


def _truth(x):
    if isinstance(x, (bool, SymBool, np.bool_)):
        return x
    return x != 0


class SymNum(SymBase):
    __slots__ = ()
    __array_priority__ = 1000.0

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "__call__" and not any(_arr(i) for i in inputs):
            f = _UF.get(ufunc.__name__)
            if f is None:
                raise Unsupported(f"ufunc {ufunc.__name__}")
            return f(*[_pyify(i) for i in inputs])
        from .arrays import SymArray

        return SymArray.__array_ufunc__(None, ufunc, method, *inputs, **kw)

    # numpy's object loops call these by name
    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def copy(self):
        return self

    def __hash__(self):
        e = engine.cur().pin(self.e)
        return hash(e)

    def __pos__(self):
        return self

    def square(self):
        return self * self

    def __format__(self, spec):
        engine.cur().stats.inc("formatted_symbols")
        return "<sym>"

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def logical_not(self):
        return NOT(self != 0)


def _pyify(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x[()]
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.integer):
        return int(x)
    return x


def _both_int(a, b):
    return (isinstance(a, (SymInt, SymBool)) or isinstance(a, (int, np.integer))) and (
        isinstance(b, (SymInt, SymBool)) or isinstance(b, (int, np.integer))
    )


def _lin_bin(name, a, b):
    la = lin_of(a)
    lb = lin_of(b) if la is not None else None
    if lb is None:
        return None
    if name == "add":
        return mklin(la.add(lb))
    if name == "sub":
        return mklin(la.add(lb, -1))
    if not la.t:
        return mklin(lb.scale(la.c))
    if not lb.t:
        return mklin(la.scale(lb.c))
    return mklin(lin_mul(la, lb))


def _bin(name, zop):
    def f(self, o):
        if _arr(o):
            if o.ndim == 0:
                o = o[()]
            else:
                return NotImplemented
        if not _num(o):
            return NotImplemented
        if _both_int(self, o):
            return num(zop(zint(self), zint(o)))
        r = None if _inf(o) else _lin_bin(name, self, o)
        return num(zop(zreal(self), zreal(o))) if r is None else r

    def r(self, o):
        if _arr(o):
            if o.ndim == 0:
                o = o[()]
            else:
                return NotImplemented
        if not _num(o):
            return NotImplemented
        if _both_int(self, o):
            return num(zop(zint(o), zint(self)))
        r = None if _inf(o) else _lin_bin(name, o, self)
        return num(zop(zreal(o), zreal(self))) if r is None else r

    return f, r


def _inf(o):
    return not is_sym(o) and isinstance(o, (float, np.floating)) and (math.isinf(o) or math.isnan(o))


def _cmp(zop, pyop):
    def f(self, o):
        if _arr(o):
            if o.ndim == 0:
                o = o[()]
            else:
                return NotImplemented
        if not _num(o):
            return NotImplemented
        if _inf(o):
            return pyop(0.0, float(o))
        if isinstance(self, SqrtReal) or isinstance(o, SqrtReal):
            r = _sqrt_cmp(self, o, pyop)
            if r is not None:
                return r
        if _both_int(self, o):
            return mkbool(zop(zint(self), zint(o)))
        la = lin_of(self)
        lb = lin_of(o) if la is not None else None
        if lb is not None:
            return lin_cmp(la.add(lb, -1), pyop)
        return mkbool(zop(zreal(self), zreal(o)))

    return f


def _sqrt_cmp(a, b, pyop):
    """Comparisons of square roots by their squares, staying polynomial."""
    if isinstance(a, SqrtReal) and isinstance(b, SqrtReal):
        return real_cmp(a.sq, b.sq, pyop)
    if isinstance(b, SqrtReal):
        flip = {operator.lt: operator.gt, operator.gt: operator.lt, operator.le: operator.ge,
                operator.ge: operator.le, operator.eq: operator.eq, operator.ne: operator.ne}
        return _sqrt_cmp(b, a, flip[pyop])
    c = zreal(b)
    cs = z3.simplify(c)
    if z3.is_rational_value(cs):
        if Fraction(cs.numerator_as_long(), cs.denominator_as_long()) < 0:
            return pyop(0, -1)
        return real_cmp(a.sq, z3.simplify(cs * cs), pyop)
    # a >= 0, so compare with c by sign of c
    neg = pyop(0, -1)
    return mkbool(z3.If(c < 0, z3.BoolVal(neg), pyop(a.sq, c * c)))


def _eqwrap(o):
    return _num(o) or (_arr(o) and o.ndim == 0)


# ------------------------------------------------------------ linear forms
# Most numbers here are rational combinations of integer unknowns.  Keeping them
# that way lets floor/round/compare become integer operations on small numbers
# (or vanish: 1000 * n / 8 needs no rounding).
class Lin:
    __slots__ = ("t", "c")

    def __init__(self, t, c):
        self.t = t  # atom id -> (atom, coefficient)
        self.c = c

    def add(self, o, s=1):
        t = dict(self.t)
        for i, (a, k) in o.t.items():
            n = k * s if i not in t else t[i][1] + k * s
            n = snapc(n)
            if n == 0:
                t.pop(i, None)
            else:
                t[i] = (a, n)
        return Lin(t, snapc(self.c + o.c * s))

    def scale(self, k):
        if k == 0:
            return Lin({}, Fraction(0))
        return Lin({i: (a, snapc(v * k)) for i, (a, v) in self.t.items()}, snapc(self.c * k))

    def parts(self):
        """(N, D): the value is N / D with an integer expression N."""
        d = self.c.denominator
        for _, k in self.t.values():
            d = math.lcm(d, k.denominator)
        return zsum([(a, int(k * d)) for a, k in self.t.values()], int(self.c * d)), d

    def real(self):
        n, d = self.parts()
        r = z3.ToReal(n)
        return r if d == 1 else r * z3.Q(1, d)

    def split(self):
        """(I, F): the integral-coefficient part and the rest, with constants in [0, 1)."""
        it, ft = {}, {}
        for i, (a, k) in self.t.items():
            w = k.numerator // k.denominator
            if w:
                it[i] = (a, Fraction(w))
            if k != w:
                ft[i] = (a, k - w)
        cw = math.floor(self.c)
        return Lin(it, Fraction(cw)), Lin(ft, self.c - cw)


def snapc(f):
    """Coefficients within float noise of a simple fraction are that fraction."""
    if f.denominator <= 1 << 20:
        return f
    g = f.limit_denominator(5000)
    if abs(f - g) <= Fraction(1, 10**13) * (1 + abs(f)):
        return g
    return f


def zsum(terms, c):
    es = [a if k == 1 else a * z3.IntVal(k) for a, k in terms]
    if c or not es:
        es.append(z3.IntVal(c))
    return es[0] if len(es) == 1 else z3.Sum(es)


def decompose(e):
    """An arithmetic expression as a Lin over integer atoms, or None."""
    cache = engine.cur().concrete_pins.setdefault("decompose", {})
    i = e.get_id()
    r = cache.get(i)
    if r is not None:
        return r[1]
    r = _decompose(e)
    cache[i] = (e, r)
    return r


def _decompose(e):
    if z3.is_int_value(e):
        return Lin({}, Fraction(e.as_long()))
    if z3.is_rational_value(e):
        return Lin({}, snapc(Fraction(e.numerator_as_long(), e.denominator_as_long())))
    if z3.is_add(e):
        r = Lin({}, Fraction(0))
        for x in e.children():
            d = decompose(x)
            if d is None:
                return None
            r = r.add(d)
        return r
    if z3.is_sub(e):
        ch = [decompose(x) for x in e.children()]
        if any(d is None for d in ch):
            return None
        r = ch[0]
        for d in ch[1:]:
            r = r.add(d, -1)
        return r
    if z3.is_mul(e):
        k, rest = Fraction(1), []
        for x in e.children():
            d = decompose(x)
            if d is not None and not d.t:
                k *= d.c
            else:
                rest.append((x, d))
        if not rest:
            return Lin({}, k)
        if len(rest) == 1:
            d = rest[0][1]
            return None if d is None else d.scale(k)
        if len(rest) <= 4 and all(d is not None for _, d in rest):
            if all(_is_atom(x, d) for x, d in rest):
                return Lin({e.get_id(): (e, Fraction(1))}, Fraction(0)) if z3.is_int(e) and k == 1 else \
                    _monomial([x for _, d in rest for x, _ in d.t.values()], k)
            r = rest[0][1]
            for _, d in rest[1:]:
                r = lin_mul(r, d)
            return r.scale(k)
    if z3.is_to_real(e):
        return decompose(e.arg(0))
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        d = decompose(e.arg(0))
        return None if d is None else d.scale(-1)
    if z3.is_int(e):
        return Lin({e.get_id(): (e, Fraction(1))}, Fraction(0))
    return None


def _is_atom(x, d):
    return len(d.t) == 1 and d.c == 0 and all(v == 1 and a.eq(x) for a, v in d.t.values())


def _factors(a):
    return [f for c in a.children() for f in _factors(c)] if z3.is_mul(a) else [a]


def _monomial(atoms, k):
    fs = sorted((f for a in atoms for f in _factors(a)), key=lambda f: f.get_id())
    e = z3.simplify(z3.Product(fs))
    return Lin({e.get_id(): (e, k)}, Fraction(0))


def lin_mul(la, lb):
    """Product, expanded over monomials, so that equal terms cancel later."""
    if len(la.t) * len(lb.t) > 150:
        na, da = la.parts()
        nb, db = lb.parts()
        e = z3.simplify(na * nb)
        return Lin({e.get_id(): (e, Fraction(1, da * db))}, Fraction(0))
    r = la.scale(lb.c).add(lb.scale(la.c)).add(Lin({}, la.c * lb.c), -1)
    for a, v in la.t.values():
        for b, w in lb.t.values():
            r = r.add(_monomial([a, b], snapc(v * w)))
    return r


def real_cmp(a, b, op):
    """a <op> b for z3 reals, over integers where they are polynomials of integers."""
    la = decompose(a)
    lb = decompose(b) if la is not None else None
    if lb is None:
        return mkbool(op(a, b))
    return lin_cmp(la.add(lb, -1), op)


def lin_of(x):
    if isinstance(x, SymInt):
        return decompose(x.e)
    if isinstance(x, (SqrtReal, _ScaledRint)):
        return None
    if isinstance(x, SymReal):
        if x._lin is None and x._e is not None:
            x._lin = decompose(x._e) or False
        return x._lin or None
    if isinstance(x, SymBool):
        return decompose(x._int().e)
    return Lin({}, frac(x))


def mklin(l):
    """A float-typed number from a linear form."""
    if not l.t:
        f = float(l.c)
        return f if frac(f) == l.c else SymReal(z3.Q(l.c.numerator, l.c.denominator), l)
    return SymReal(None, l)


def mklin_int(l):
    """An int-typed number from a linear form with integral coefficients."""
    n, d = l.parts()
    assert d == 1
    if not l.t:
        return int(l.c)
    return SymInt(z3.simplify(n))


def lin_floor(l):
    """floor of a linear form, as a linear form with integral coefficients."""
    i, f = l.split()
    if not f.t:
        return i
    for k in (l, f):
        r = lin_range(k)
        if r is not None and math.floor(r[0]) == math.floor(r[1]):
            w = Lin({}, Fraction(math.floor(r[0])))
            return w if k is l else i.add(w)
    n, d = f.parts()
    q = z3.simplify(n) / z3.IntVal(d)
    return i.add(decompose(q))


def lin_range(l):
    """The least and the greatest value of a form over inputs whose ranges are asserted."""
    lo = hi = l.c
    ranges = engine.cur().ranges
    for k, (_, c) in l.t.items():
        r = ranges.get(k)
        if r is None:
            return None
        a, b = c * r[0], c * r[1]
        lo, hi = lo + min(a, b), hi + max(a, b)
    return lo, hi


def lin_rint(l, whole=False):
    """round-half-even; `whole` keeps the result one term, which suits decimals."""
    i, f = l.split()
    h = f.add(Lin({}, Fraction(1, 2)))
    if not f.t:
        # a constant fraction: only an exact half needs the parity of the rest
        if f.c != Fraction(1, 2):
            return lin_floor(l.add(Lin({}, Fraction(1, 2))))
    fl = lin_floor(l.add(Lin({}, Fraction(1, 2))))
    _, d = h.parts()
    n, d = h.parts()
    # a tie needs h integral
    if f.t and not _can_be_integral(h):
        return fl
    r = lin_range(l.add(Lin({}, Fraction(1, 2)))) if f.t else None
    if r is not None and math.ceil(r[0]) > math.floor(r[1]):
        return fl
    ni = mklin_int(fl)
    ie = zint(ni)
    tie = (z3.simplify(n) % z3.IntVal(d) == 0) if d > 1 else z3.BoolVal(True)
    if whole:
        return decompose(z3.simplify(z3.If(z3.And(tie, ie % 2 == 1), ie - 1, ie)))
    e = z3.simplify(z3.If(z3.And(tie, ie % 2 == 1), z3.IntVal(1), z3.IntVal(0)))
    if z3.is_int_value(e):
        return fl.add(Lin({}, Fraction(e.as_long())), -1)
    return fl.add(Lin({e.get_id(): (e, Fraction(1))}, Fraction(0)), -1)


def _can_be_integral(l):
    d = l.c.denominator
    for _, k in l.t.values():
        d = math.lcm(d, k.denominator)
    g = d
    for _, k in l.t.values():
        g = math.gcd(g, int(k * d))
    return int(l.c * d) % g == 0


def lin_cmp(l, op):
    """l <op> 0 over integers, with the common factor divided out."""
    if not l.t:
        return op(l.c, 0)
    d = l.c.denominator
    for _, k in l.t.values():
        d = math.lcm(d, k.denominator)
    ks = [(a, int(k * d)) for a, k in l.t.values()]
    c = int(l.c * d)
    g = 0
    for _, k in ks:
        g = math.gcd(g, k)
    m = zsum([(a, k // g) for a, k in ks], 0)
    if op is operator.eq or op is operator.ne:
        if c % g:
            return op is operator.ne
        r = m == z3.IntVal(-c // g)
        return mkbool(r if op is operator.eq else z3.Not(r))
    if op is operator.le:
        return mkbool(m <= z3.IntVal((-c) // g))
    if op is operator.lt:
        return mkbool(m <= z3.IntVal(-((c) // g) - 1))
    if op is operator.ge:
        return mkbool(m >= z3.IntVal(-(c // g)))
    if op is operator.gt:
        return mkbool(m >= z3.IntVal((-c) // g + 1))
    raise Unsupported("comparison")


# ---------------------------------------------------------------- numbers
class SymInt(SymNum):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    __add__, __radd__ = _bin("add", lambda a, b: a + b)
    __sub__, __rsub__ = _bin("sub", lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)) and not is_sym(o):
            return o * self.__index__()
        return _bin("mul", lambda a, b: a * b)[0](self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return SymReal.__truediv__(_tofloat(self), o)

    def __rtruediv__(self, o):
        return SymReal.__rtruediv__(_tofloat(self), o)

    def __floordiv__(self, o):
        if not _num(o):
            return NotImplemented
        if _both_int(self, o):
            return _intdiv(self, o)[0]
        return _sr(self) // _sr(o)

    def __rfloordiv__(self, o):
        if not _num(o):
            return NotImplemented
        if _both_int(self, o):
            return _intdiv(o, self)[0]
        return _sr(o) // _sr(self)

    def __mod__(self, o):
        if not _num(o):
            return NotImplemented
        if _both_int(self, o):
            return _intdiv(self, o)[1]
        return _sr(self) % _sr(o)

    def __rmod__(self, o):
        if not _num(o):
            return NotImplemented
        if _both_int(self, o):
            return _intdiv(o, self)[1]
        return _sr(o) % _sr(self)

    def __pow__(self, o, m=None):
        return _pow(self, o)

    def __neg__(self):
        return num(-self.e)

    def __abs__(self):
        return num(z3.If(self.e < 0, -self.e, self.e))

    __lt__ = _cmp(lambda a, b: a < b, operator.lt)
    __le__ = _cmp(lambda a, b: a <= b, operator.le)
    __gt__ = _cmp(lambda a, b: a > b, operator.gt)
    __ge__ = _cmp(lambda a, b: a >= b, operator.ge)
    _eq = _cmp(lambda a, b: a == b, operator.eq)

    def __eq__(self, o):
        if not _eqwrap(o):
            return NotImplemented if _arr(o) else False
        return self._eq(o)

    def __ne__(self, o):
        if _arr(o) and o.ndim:
            return NotImplemented
        return NOT(self == o)

    __hash__ = SymNum.__hash__

    def __bool__(self):
        return engine.cur().branch(self.e != 0)

    def __index__(self):
        return engine.cur().pin(self.e)

    def __int__(self):
        return engine.cur().pin(self.e)

    def __float__(self):
        return float(engine.cur().pin(self.e))

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def floor(self):
        return self

    ceil = trunc = rint = floor

    def sqrt(self):
        return SymReal(z3.ToReal(self.e)).sqrt()

    def sign(self):
        return num(z3.If(self.e > 0, z3.IntVal(1), z3.If(self.e < 0, z3.IntVal(-1), z3.IntVal(0))))

    def __and__(self, o):
        return self.__index__() & _ix(o)

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | _ix(o)

    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ _ix(o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self.__index__() << _ix(o)

    def __rlshift__(self, o):
        return _ix(o) << self.__index__()

    def __rshift__(self, o):
        return self.__index__() >> _ix(o)

    def __rrshift__(self, o):
        return _ix(o) >> self.__index__()

    def __invert__(self):
        return num(-self.e - 1)

    def bit_length(self):
        return self.__index__().bit_length()

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def __repr__(self):
        return "<int>"

    def __str__(self):
        return str(self.__index__())


def _ix(o):
    return o.__index__()


def _sr(x):
    return _tofloat(x) if is_sym(x) else float(x)


def _intdiv(a, b):
    """Python floor division and modulo."""
    za, zb = zint(a), z3.simplify(zint(b))
    if not z3.is_int_value(zb):
        zb = z3.IntVal(engine.cur().pin(zb))
    d = zb.as_long()
    if d == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if d < 0:
        za, zb = -za, z3.IntVal(-d)
        q = za / zb
        return num(q), num(-(za % zb))
    return num(za / zb), num(za % zb)


def _pow(b, o):
    if is_sym(o):
        o = engine.cur().pin(o.e)
    if isinstance(o, (float, np.floating)) and float(o) == 0.5:
        return b.sqrt()
    f = frac(o)
    if f.denominator != 1:
        raise Unsupported("fractional power")
    n = int(f)
    if n == 0:
        return 1
    if n < 0:
        return 1 / _pow(b, -n)
    if n == 2 and isinstance(b, SqrtReal):
        return num(b.sq)
    r = b
    for _ in range(n - 1):
        r = r * b
    if isinstance(o, (float, np.floating)) and isinstance(r, SymInt):
        r = SymReal(z3.ToReal(r.e))
    return r


class SymReal(SymNum):
    __slots__ = ("_e", "_lin")

    def __init__(self, e, lin=None):
        self._e = e
        self._lin = lin

    @property
    def e(self):
        if self._e is None:
            self._e = z3.simplify(self._lin.real())
        return self._e

    @property
    def __class__(self):
        return float

    __add__, __radd__ = _bin("add", lambda a, b: a + b)
    __sub__, __rsub__ = _bin("sub", lambda a, b: a - b)
    __mul__, __rmul__ = _bin("mul", lambda a, b: a * b)

    def __truediv__(self, o):
        if _arr(o) and o.ndim:
            return NotImplemented
        o = _pyify(o)
        if not _num(o):
            return NotImplemented
        return _div(self, o)

    def __rtruediv__(self, o):
        if _arr(o) and o.ndim:
            return NotImplemented
        o = _pyify(o)
        if not _num(o):
            return NotImplemented
        return _div(o, self)

    def __floordiv__(self, o):
        q = self.__truediv__(o)
        return q if q is NotImplemented else _tofloat(_floor(q))

    def __rfloordiv__(self, o):
        q = self.__rtruediv__(o)
        return q if q is NotImplemented else _tofloat(_floor(q))

    def __mod__(self, o):
        if not _num(o):
            return NotImplemented
        return self - o * _tofloat(_floor(_div(self, o)))

    def __rmod__(self, o):
        if not _num(o):
            return NotImplemented
        return o - self * _tofloat(_floor(_div(o, self)))

    def __pow__(self, o, m=None):
        return _pow(self, o)

    def __neg__(self):
        l = lin_of(self)
        return num(-self.e) if l is None else mklin(l.scale(-1))

    def __abs__(self):
        return ITE(self < 0, -self, self)

    __lt__ = _cmp(lambda a, b: a < b, operator.lt)
    __le__ = _cmp(lambda a, b: a <= b, operator.le)
    __gt__ = _cmp(lambda a, b: a > b, operator.gt)
    __ge__ = _cmp(lambda a, b: a >= b, operator.ge)
    _eq = _cmp(lambda a, b: a == b, operator.eq)

    def __eq__(self, o):
        if not _eqwrap(o):
            return NotImplemented if _arr(o) else False
        return self._eq(o)

    def __ne__(self, o):
        if _arr(o) and o.ndim:
            return NotImplemented
        return NOT(self == o)

    def __hash__(self):
        return hash(float(engine.cur().pin(self.e)))

    def __bool__(self):
        return engine.cur().branch(self.e != 0)

    def __float__(self):
        eng = engine.cur()
        v = eng.pin(self.e)
        return float(v)

    def __int__(self):
        return engine.cur().pin(zint(self.__trunc__()))

    def __floor__(self):
        return _floor(self)

    def __ceil__(self):
        l = lin_of(self)
        if l is not None:
            return mklin_int(lin_floor(l.scale(-1)).scale(-1))
        return num(-z3.ToInt(-self.e))

    def __trunc__(self):
        l = lin_of(self)
        if l is not None:
            return ITE(lin_cmp(l, operator.ge), self.__floor__(), self.__ceil__())
        return num(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    # numpy object loops: results stay floats
    def floor(self):
        return _tofloat(_floor(self))

    def ceil(self):
        return _tofloat(self.__ceil__())

    def trunc(self):
        return _tofloat(self.__trunc__())

    def rint(self):
        return _tofloat(_rint(self))

    def __round__(self, n=None):
        if n is None:
            return _rint(self)
        p = 10 ** _ix(n)
        return _tofloat(_rint(self * p, True)) / p

    def sqrt(self):
        return mksqrt(self.e)

    def sign(self):
        return num(z3.If(self.e > 0, z3.Q(1, 1), z3.If(self.e < 0, z3.Q(-1, 1), z3.Q(0, 1))))

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def __repr__(self):
        return "<float>"

    def __str__(self):
        return str(float(self))


def _tofloat(x):
    if isinstance(x, SymInt):
        return mklin(decompose(x.e))
    if isinstance(x, int):
        return float(x)
    return x


def _div(a, b):
    if isinstance(b, (int, float, np.integer, np.floating)) and not is_sym(b):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        if _inf(b):
            raise Unsupported("division by infinity")
        l = lin_of(a)
        if l is not None:
            return mklin(l.scale(1 / frac(b)))
        return num(zreal(a) / rv(b))
    if engine.cur().branch(zreal(b) == 0):
        raise ZeroDivisionError("division by zero")
    return num(zreal(a) / zreal(b))


def _floor(x):
    if not is_sym(x):
        return math.floor(x)
    if isinstance(x, SymInt):
        return x
    l = lin_of(x)
    if l is not None:
        return mklin_int(lin_floor(l))
    return num(z3.ToInt(x.e))


def _rint(x, whole=False):
    if not is_sym(x):
        return round(x)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SqrtReal):
        return x.rint_int()
    l = lin_of(x)
    if l is not None:
        return mklin_int(lin_rint(l, whole))
    e = z3.simplify(x.e)
    h = e + z3.Q(1, 2)
    f = z3.ToInt(h)
    return num(z3.If(z3.And(z3.ToReal(f) == h, f % 2 == 1), f - 1, f))


def mksqrt(sq):
    sq = z3.simplify(sq)
    if z3.is_rational_value(sq):
        f = Fraction(sq.numerator_as_long(), sq.denominator_as_long())
        if f < 0:
            return float("nan")
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return num(z3.Q(n, d))
        return math.sqrt(f)
    return SqrtReal(sq)


class SqrtReal(SymReal):
    """sqrt(sq); compared by squares, given a defining variable only if needed."""

    __slots__ = ("sq", "_v")

    def __init__(self, sq):
        self.sq = sq
        self._v = None
        self._e = self._lin = None

    @property
    def __class__(self):
        return float

    @property
    def e(self):
        return self.materialise()

    def materialise(self):
        if self._v is None:
            eng = engine.cur()
            memo = eng.concrete_pins.setdefault("sqrt", {})
            k = self.sq.get_id()
            if k not in memo:
                v = eng.new_real("sqrt")
                eng.keep.append(self.sq)
                eng.assume_fresh(v >= 0, v * v == self.sq)
                memo[k] = v
            self._v = memo[k]
        return self._v

    def _scale(self, c):
        """sqrt(s)*c for a constant c >= 0 is sqrt(s*c*c)."""
        return SqrtReal(z3.simplify(self.sq * rv(c) * rv(c)))

    def __mul__(self, o):
        if isinstance(o, (int, float, np.integer, np.floating)) and not is_sym(o) and o >= 0:
            return self._scale(o)
        if isinstance(o, SqrtReal) and o.sq.eq(self.sq):
            return num(self.sq)
        return SymReal.__mul__(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float, np.integer, np.floating)) and not is_sym(o) and o > 0:
            return SqrtReal(z3.simplify(self.sq / (rv(o) * rv(o))))
        return SymReal.__truediv__(self, o)

    def rint_int(self):
        """round(sqrt(s)) = k  iff  k >= 0 and (2k-1)^2 <= 4s <= (2k+1)^2.

        At an exact tie (4s an odd square) Python takes the even k."""
        eng = engine.cur()
        memo = eng.concrete_pins.setdefault("rint", {})
        key = self.sq.get_id()
        if key not in memo:
            k = eng.new_int("rint")
            eng.keep.append(self.sq)
            l = decompose(self.sq)
            if l is None:
                kr, s4, one = z3.ToReal(k), 4 * self.sq, 1
            else:
                n, one = l.parts()
                kr, s4 = k, 4 * n
            eng.assume_fresh(
                k >= 0,
                z3.Or(k == 0, s4 >= one * (2 * kr - 1) * (2 * kr - 1)),
                s4 <= one * (2 * kr + 1) * (2 * kr + 1),
                z3.Implies(s4 == one * (2 * kr + 1) * (2 * kr + 1), k % 2 == 0),
                z3.Implies(z3.And(k > 0, s4 == one * (2 * kr - 1) * (2 * kr - 1)), k % 2 == 0),
            )
            memo[key] = RintSqrt(k, self.sq)
        return memo[key]

    def rint(self):
        return _ScaledRint(self.rint_int(), Fraction(1))

    def __round__(self, n=None):
        if n is None:
            return self.rint_int()
        p = 10 ** _ix(n)
        return self._scale(p).rint() / p

    def __abs__(self):
        return self

    def __hash__(self):
        return SymReal.__hash__(self)


class RintSqrt(SymInt):
    __slots__ = ("sq",)

    def __init__(self, e, sq):
        self.e = e
        self.sq = sq


class _ScaledRint(SymReal):
    """round(sqrt(s)) * c: compared with constants through s."""

    __slots__ = ("k", "c")

    def __init__(self, k, c):
        self.k = k
        self.c = c
        self._lin = None
        self._e = z3.simplify(z3.ToReal(k.e) * rv(c))

    @property
    def __class__(self):
        return float

    def __truediv__(self, o):
        if isinstance(o, (int, float, np.integer, np.floating)) and not is_sym(o) and o > 0:
            return _ScaledRint(self.k, self.c / frac(o))
        return SymReal.__truediv__(self, o)

    def __mul__(self, o):
        if isinstance(o, (int, float, np.integer, np.floating)) and not is_sym(o) and o > 0:
            return _ScaledRint(self.k, self.c * frac(o))
        return SymReal.__mul__(self, o)

    __rmul__ = __mul__

    def _const(self, o):
        if is_sym(o) or not isinstance(o, (int, float, np.integer, np.floating)) or _inf(o):
            return None
        return frac(o) / self.c

    def _le(self, n):
        """k <= n for an integer n."""
        if n < 0:
            return False
        return real_cmp(self.k.sq, z3.Q((2 * n + 1) ** 2, 4), operator.le if n % 2 == 0 else operator.lt)

    def __lt__(self, o):
        q = self._const(o)
        if q is None:
            return SymReal.__lt__(self, o)
        return self._le(math.ceil(q) - 1)

    def __le__(self, o):
        q = self._const(o)
        if q is None:
            return SymReal.__le__(self, o)
        return self._le(math.floor(q))

    def __gt__(self, o):
        return NOT(self <= o)

    def __ge__(self, o):
        return NOT(self < o)

    def __eq__(self, o):
        q = self._const(o)
        if q is None:
            if isinstance(o, _ScaledRint) and o.c == self.c:
                return mkbool(self.k.e == o.k.e)
            return SymReal.__eq__(self, o)
        if q.denominator != 1 or q < 0:
            return False
        return AND(self._le(int(q)), NOT(self._le(int(q) - 1)))

    def __ne__(self, o):
        return NOT(self == o)

    def __hash__(self):
        return SymReal.__hash__(self)


# ---------------------------------------------------------------- strings
class SymEnum(SymBase):
    """A string that is one of a fixed list."""

    __slots__ = ("e", "opts")

    def __init__(self, e, opts):
        self.e = e
        self.opts = tuple(opts)

    @property
    def __class__(self):
        return str

    @staticmethod
    def ite(c, a, b):
        oa = a.opts if isinstance(a, SymEnum) else (a,)
        ob = b.opts if isinstance(b, SymEnum) else (b,)
        if not all(isinstance(x, str) for x in oa + ob):
            raise Unsupported("ITE of mixed values")
        opts = list(dict.fromkeys(oa + ob))

        def idx(v):
            if not isinstance(v, SymEnum):
                return z3.IntVal(opts.index(v))
            r = z3.IntVal(opts.index(v.opts[-1]))
            for i, o in enumerate(v.opts[:-1]):
                r = z3.If(v.e == i, z3.IntVal(opts.index(o)), r)
            return r

        return SymEnum(z3.If(c.e, idx(a), idx(b)), opts)

    def value(self):
        return self.opts[engine.cur().pin(self.e)]

    def __eq__(self, o):
        if isinstance(o, SymEnum):
            return mkbool(z3.Or([z3.And(self.e == i, o.e == j)
                                 for i, a in enumerate(self.opts)
                                 for j, b in enumerate(o.opts) if a == b] or [z3.BoolVal(False)]))
        if isinstance(o, str) and not is_sym(o):
            return mkbool(z3.Or([self.e == i for i, a in enumerate(self.opts) if a == o]
                                or [z3.BoolVal(False)]))
        return False

    def __ne__(self, o):
        return NOT(self == o)

    def _order(self, o, op):
        if isinstance(o, SymEnum):
            return mkbool(z3.Or([z3.And(self.e == i, o.e == j)
                                 for i, a in enumerate(self.opts)
                                 for j, b in enumerate(o.opts) if op(a, b)] or [z3.BoolVal(False)]))
        if isinstance(o, str):
            return mkbool(z3.Or([self.e == i for i, a in enumerate(self.opts) if op(a, o)]
                                or [z3.BoolVal(False)]))
        return NotImplemented

    def __lt__(self, o):
        return self._order(o, operator.lt)

    def __le__(self, o):
        return self._order(o, operator.le)

    def __gt__(self, o):
        return self._order(o, operator.gt)

    def __ge__(self, o):
        return self._order(o, operator.ge)

    def __hash__(self):
        return hash(self.value())

    def __bool__(self):
        return bool(self != "")

    def __str__(self):
        return self.value()

    def __repr__(self):
        return "<str>"

    def __format__(self, spec):
        return format(self.value(), spec)

    def __len__(self):
        return len(self.value())

    def __iter__(self):
        return iter(self.value())

    def __getitem__(self, i):
        return self.value()[i]

    def __contains__(self, o):
        return o in self.value()

    def __add__(self, o):
        return self.value() + str(o)

    def __radd__(self, o):
        return str(o) + self.value()

    def __mod__(self, o):
        return self.value() % o

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.value(), name)


class SymStr(SymBase):
    """A string of fixed shape whose digits may be symbolic."""

    __slots__ = ("chars",)

    def __init__(self, chars):
        self.chars = tuple(chars)

    @property
    def __class__(self):
        return str

    @staticmethod
    def mk(chars):
        if all(isinstance(c, str) and not is_sym(c) for c in chars):
            return "".join(chars)
        return SymStr(chars)

    def value(self):
        return "".join(c if not is_sym(c) else str(engine.cur().pin(c.e)) for c in self.chars)

    def __len__(self):
        return len(self.chars)

    def __iter__(self):
        for c in self.chars:
            yield SymStr((c,)) if is_sym(c) else c

    def __getitem__(self, i):
        r = self.chars[i]
        return SymStr.mk(r if isinstance(i, slice) else (r,))

    def split(self, sep=None, maxsplit=-1):
        if sep is None or len(sep) != 1 or sep.isdigit() or maxsplit != -1:
            return self.value().split(sep, maxsplit)
        out, part = [], []
        for c in self.chars:
            if not is_sym(c) and c == sep:
                out.append(SymStr.mk(part))
                part = []
            else:
                part.append(c)
        return out + [SymStr.mk(part)]

    def partition(self, sep):
        p = self.split(sep)
        if len(p) == 1:
            return p[0], "", ""
        i = [k for k, c in enumerate(self.chars) if not is_sym(c) and c == sep][0]
        return SymStr.mk(self.chars[:i]), sep, SymStr.mk(self.chars[i + 1:])

    def strip(self, *a):
        return self if not a else self.value().strip(*a)

    def upper(self):
        return SymStr.mk([c if is_sym(c) else c.upper() for c in self.chars])

    def lower(self):
        return SymStr.mk([c if is_sym(c) else c.lower() for c in self.chars])

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.chars) and not is_sym(self.chars[i]) and (
            self.chars[i] in chars if chars else self.chars[i].isspace()):
            i += 1
        return SymStr.mk(self.chars[i:])

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def replace(self, a, b, *n):
        if len(a) == 1 and not a.isdigit() and not n:
            out = []
            for c in self.chars:
                out.extend(b if (not is_sym(c) and c == a) else [c])
            return SymStr.mk(out)
        return self.value().replace(a, b, *n)

    def isdigit(self):
        return bool(self.chars) and all(is_sym(c) or c.isdigit() for c in self.chars)

    isnumeric = isdecimal = isdigit

    def startswith(self, p):
        h = self.chars[: len(p)]
        if any(is_sym(c) for c in h):
            return self.value().startswith(p)
        return "".join(h) == p

    def index(self, s, *a):
        if len(s) == 1 and not s.isdigit() and not a:
            for i, c in enumerate(self.chars):
                if not is_sym(c) and c == s:
                    return i
            raise ValueError("substring not found")
        return self.value().index(s, *a)

    def find(self, s, *a):
        try:
            return self.index(s, *a)
        except ValueError:
            return -1

    def to_int(self):
        if not self.isdigit():
            raise ValueError(f"invalid literal for int(): {self.chars}")
        r = 0
        for c in self.chars:
            r = r * 10 + (c if is_sym(c) else int(c))
        return r

    def __contains__(self, s):
        if isinstance(s, str) and len(s) == 1:
            return bool(OR([self._ceq(c, s) for c in self.chars]))
        return s in self.value()

    @staticmethod
    def _ceq(c, s):
        if isinstance(s, SymStr):
            s = s.chars[0]
        if is_sym(c) or is_sym(s):
            ci = c if is_sym(c) else (int(c) if c.isdigit() else None)
            si = s if is_sym(s) else (int(s) if s.isdigit() else None)
            if ci is None or si is None:
                return False
            return ci == si
        return c == s

    def __eq__(self, o):
        if isinstance(o, SymStr) or (isinstance(o, str) and not is_sym(o)):
            oc = o.chars if isinstance(o, SymStr) else o
            if len(oc) != len(self.chars):
                return False
            return AND([self._ceq(a, b) for a, b in zip(self.chars, oc)])
        return False

    def __ne__(self, o):
        return NOT(self == o)

    def __hash__(self):
        return hash(self.value())

    def __add__(self, o):
        oc = o.chars if isinstance(o, SymStr) else tuple(o)
        return SymStr.mk(self.chars + oc)

    def __radd__(self, o):
        return SymStr.mk(tuple(o) + self.chars)

    def __str__(self):
        return self.value()

    def __repr__(self):
        return "<str>"

    def __format__(self, spec):
        return format(self.value(), spec)

    def __bool__(self):
        return bool(self.chars)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.value(), name)


class SymIntStr(SymBase):
    """str(i) of a symbolic integer i (a JSON object key)."""

    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    @property
    def __class__(self):
        return str

    def value(self):
        return str(engine.cur().pin(self.i.e))

    def __eq__(self, o):
        if isinstance(o, SymIntStr):
            return self.i == o.i
        if isinstance(o, str):
            try:
                n = int(o)
            except ValueError:
                return False
            return self.i == n if str(n) == o else False
        return False

    def __ne__(self, o):
        return NOT(self == o)

    def __hash__(self):
        return hash(self.value())

    def startswith(self, p):
        if p and p[0] not in "-0123456789":
            return False
        return self.value().startswith(p)

    def __str__(self):
        return self.value()

    def __repr__(self):
        return "<intstr>"

    def __format__(self, spec):
        return format(self.value(), spec)

    def __len__(self):
        return len(self.value())

    def __iter__(self):
        return iter(self.value())

    def __getitem__(self, i):
        return self.value()[i]

    def __contains__(self, o):
        return o in self.value()

    def __bool__(self):
        return True

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.value(), name)
