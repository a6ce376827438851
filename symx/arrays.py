"""numpy arrays holding proxies: an ndarray subclass that routes numpy's own
functions to the proxies' arithmetic."""
import functools
import math
import operator

import numpy as np
import z3

from . import engine, proxies
from .engine import Unsupported
from .proxies import (_UF, AND, ITE, NOT, OR, SqrtReal, SymBool, SymInt, SymReal, _pyify, _tofloat, _truth, has_sym,
                      is_sym, rv)


def base(x):
    """x as a plain object array (or as it is, when no array)."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    return x


def arr(x):
    """x (scalar, nested sequence or array) as a SymArray."""
    if isinstance(x, SymArray):
        return x
    if is_sym(x):
        return base(x).view(SymArray)
    if isinstance(x, np.ndarray):
        return base(x).view(SymArray)
    return np.array(_deep(x), dtype=object).view(SymArray)


def _deep(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [_deep(v) for v in x]
    return x


def wrap(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        if r.ndim == 0:
            return r[()]
        return r.view(SymArray)
    return r


def smin(a, b):
    return _ext(a, b, lambda x, y: x <= y)


def smax(a, b):
    return _ext(a, b, lambda x, y: x >= y)


def _ext(a, b, le):
    if not is_sym(a) and not is_sym(b):
        return a if le(a, b) else b
    if any(isinstance(v, SqrtReal) for v in (a, b)):
        def sq(v):
            if isinstance(v, SqrtReal):
                return v.sq
            if is_sym(v) or v < 0 or math.isinf(v):
                return None
            return rv(v) * rv(v)

        sa, sb = sq(a), sq(b)
        if sa is not None and sb is not None:
            c = proxies.zbool(proxies.real_cmp(sa, sb, operator.le if le(1, 2) else operator.ge))
            return SqrtReal(z3.simplify(z3.If(c, sa, sb)))
        if not is_sym(a) or not is_sym(b):
            return a if le(a, b) else b
    return ITE(le(a, b), a, b)


def _el(f, nin):
    return np.frompyfunc(lambda *a: f(*[_pyify(x) for x in a]), nin, 1)


_OPS = dict(_UF, minimum=smin, fmin=smin, maximum=smax, fmax=smax)
_OPS.update(
    floor=lambda x: x.floor() if is_sym(x) else float(math.floor(x)),
    ceil=lambda x: x.ceil() if is_sym(x) else float(math.ceil(x)),
    trunc=lambda x: x.trunc() if is_sym(x) else float(math.trunc(x)),
    rint=lambda x: x.rint() if is_sym(x) else float(round(x)),
    sqrt=lambda x: SymReal(proxies.zreal(x)).sqrt() if is_sym(x) else math.sqrt(x),
    sign=lambda x: x.sign() if is_sym(x) else (x > 0) - (x < 0),
    conjugate=lambda x: x,
    hypot=lambda a, b: (SymReal(proxies.zreal(a * a + b * b))).sqrt(),
    logical_xor=lambda a, b: NOT(_truth(a) == _truth(b)),
)


def sqrt_min(vs):
    """The least of several square roots: a fresh square, defined by comparisons in
    which the parts common to all cancel."""
    ls = []
    for v in vs:
        if isinstance(v, SqrtReal):
            ls.append(proxies.decompose(v.sq))
        elif is_sym(v) or v < 0 or math.isinf(v):
            return None
        else:
            ls.append(proxies.Lin({}, proxies.snapc(proxies.frac(v) ** 2)))
    if any(l is None for l in ls):
        return None
    # drop those another one never exceeds
    keep = []
    for l in ls:
        if not any(not (d := l.add(o, -1)).t and d.c >= 0 for o in keep):
            keep.append(l)
    if len(keep) == 1:
        return proxies.mksqrt(keep[0].real())
    d = math.lcm(*[l.parts()[1] for l in keep])
    key = ("min", d, tuple(sorted(str(sorted((i, k) for i, (_, k) in l.t.items())) + str(l.c) for l in keep)))
    eng = proxies.engine.cur()
    memo = eng.concrete_pins.setdefault("sqrtmin", {})
    if key not in memo:
        m = eng.new_int("min")
        ns = [proxies.z3.simplify(l.scale(d).parts()[0]) for l in keep]
        eng.keep.extend(ns)
        eng.assume_fresh(*[m <= n for n in ns], proxies.z3.Or(*[m == n for n in ns]))
        memo[key] = SqrtReal(proxies.z3.simplify(proxies.z3.ToReal(m) * proxies.z3.Q(1, d)))
    return memo[key]


def _reduce(f, a, axis, keepdims=False):
    a = base(a)
    if f is smin and (axis is None or a.ndim == 1) and not keepdims and a.size > 2:
        vs = [_pyify(x) for x in a.ravel()]
        if any(isinstance(v, SqrtReal) for v in vs):
            r = sqrt_min(vs)
            if r is not None:
                return r
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            axis = None
        else:
            raise Unsupported("reduction over several axes")
    if axis is None:
        r = functools.reduce(f, [_pyify(x) for x in a.ravel()])
        return np.full((1,) * a.ndim, r, dtype=object).view(SymArray) if keepdims else r
    a = np.moveaxis(a, axis, 0)
    el = _el(f, 2)
    r = a[0]
    for row in a[1:]:
        r = el(r, row)
    if keepdims:
        r = np.expand_dims(np.asarray(r, dtype=object), axis)
    return wrap(r if isinstance(r, np.ndarray) else np.array(r, dtype=object))


class SymArray(np.ndarray):
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = [base(i) for i in inputs]
        out = kw.pop("out", None)
        name = ufunc.__name__
        if method == "__call__":
            f = _OPS.get(name)
            if f is not None and kw.get("where", True) is True:
                r = _el(f, len(ins))(*ins)
            else:
                r = ufunc(*ins, **kw)
        elif method == "reduce":
            if name in ("maximum", "minimum", "fmax", "fmin"):
                r = _reduce(_OPS[name], ins[0], kw.get("axis", 0), kw.get("keepdims", False))
            elif name == "logical_and":
                r = _reduce(lambda a, b: AND(_truth(a), _truth(b)), ins[0], kw.get("axis", 0))
                r = _truth(r) if not isinstance(r, np.ndarray) else r
            elif name == "logical_or":
                r = _reduce(lambda a, b: OR(_truth(a), _truth(b)), ins[0], kw.get("axis", 0))
                r = _truth(r) if not isinstance(r, np.ndarray) else r
            else:
                kw.pop("dtype", None)
                r = ufunc.reduce(*ins, **kw)
        else:
            kw.pop("dtype", None)
            r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            o = out[0]
            if o.dtype != object:
                raise Unsupported("in-place symbolic write into a number array")
            base(o)[...] = base(r) if isinstance(r, np.ndarray) else r
            return o
        return wrap(r)

    def __array_function__(self, func, types, args, kwargs):
        f = TABLE.get(func)
        if f is not None:
            return f(*args, **kwargs)
        return wrap(super().__array_function__(func, types, args, kwargs))

    def __array_finalize__(self, obj):
        pass

    # methods numpy does not route through ufuncs
    def round(self, decimals=0, out=None):
        return wrap(_el(lambda x: rnd(x, decimals), 1)(base(self)))

    def astype(self, dtype, *a, **kw):
        f = _cast(dtype)
        if f is None:
            return wrap(base(self).astype(dtype, *a, **kw))
        return wrap(_el(f, 1)(base(self)))

    def argmin(self, axis=None, out=None, keepdims=False):
        return _arg(self, axis, lambda a, b: a < b)

    def argmax(self, axis=None, out=None, keepdims=False):
        return _arg(self, axis, lambda a, b: a > b)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        r = _reduce(lambda a, b: AND(_truth(a), _truth(b)), self, axis) if self.size else True
        return _truth(r) if not isinstance(r, np.ndarray) else r

    def any(self, axis=None, out=None, keepdims=False, **kw):
        r = _reduce(lambda a, b: OR(_truth(a), _truth(b)), self, axis) if self.size else False
        return _truth(r) if not isinstance(r, np.ndarray) else r

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce(smin, self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return _reduce(smax, self, axis, keepdims)

    def mean(self, axis=None, **kw):
        s = self.sum(axis=axis)
        return s / (self.size if axis is None else self.shape[axis])

    def sort(self, axis=-1, **kw):
        if self.ndim != 1:
            raise Unsupported("sort of a matrix")
        self[:] = sorted(self.tolist())

    def dot(self, o, out=None):
        return s_dot(self, o)

    def clip(self, min=None, max=None, out=None, **kw):
        r = self
        if min is not None:
            r = np.maximum(r, min)
        if max is not None:
            r = np.minimum(r, max)
        return r


def rnd(x, n=0):
    n = int(n)
    if is_sym(x):
        if isinstance(x, (SymInt, SymBool)):
            return x
        return x.rint() if n == 0 else round(x, n)
    return float(np.round(float(x), n)) if isinstance(x, float) else x


def _cast(dtype):
    if dtype in (float, np.float64, np.float32, "float", "float64"):
        return lambda x: _tofloat(x) if is_sym(x) else float(x)
    if dtype in (int, np.int64, "int", "int64"):
        return lambda x: x.__trunc__() if is_sym(x) and not isinstance(x, SymBool) else (
            x._int() if isinstance(x, SymBool) else int(x))
    try:
        dt = np.dtype(dtype)
    except TypeError:
        return None
    if dt.kind in "iu":
        whole, n = _cast(int), 1 << 8 * dt.itemsize
        lo = -(n >> 1) if dt.kind == "i" else 0

        def narrow(x):
            if not is_sym(x):
                return int(np.asarray(x).astype(np.int64).astype(dt))
            x = whole(x)
            if isinstance(x, SymInt):
                return (x - lo) % n + lo
            return int(np.asarray(x).astype(dt))

        return narrow
    if dtype in (bool, np.bool_, "bool"):
        return _truth
    return None


def _arg(a, axis, lt):
    if axis is not None and a.ndim != 1:
        raise Unsupported("arg-reduction along an axis")
    v = [x for x in base(a).ravel()]
    k = 0
    for i in range(1, len(v)):
        if lt(v[i], v[k]):
            k = i
    return k


def s_dot(a, b, out=None):
    a, b = base(arr(a) if has_sym(a) else np.asarray(a)), base(arr(b) if has_sym(b) else np.asarray(b))
    return wrap(np.dot(a, b))


def s_norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        x = np.asarray(x, dtype=object) if isinstance(x, SymArray) else x
        return np.linalg.norm(np.asarray(x, dtype=float), ord, axis, keepdims)
    a = arr(x)
    if ord == 1 and (a.ndim == 1 or axis is not None):
        return np.abs(a).sum(axis=axis)
    if ord == np.inf and (a.ndim == 1 or axis is not None):
        return np.abs(a).max(axis=axis)
    if ord not in (None, 2) or keepdims:
        raise Unsupported("norm ord")
    s = (a * a).sum(axis=axis)
    if isinstance(s, np.ndarray):
        return wrap(_el(lambda v: _OPS["sqrt"](v), 1)(base(s)))
    return _OPS["sqrt"](s)


def s_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return wrap(_el(lambda x, y: abs(x - y) <= atol + rtol * abs(y), 2)(base(arr(a)), base(arr(b))))


def s_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = s_isclose(a, b, rtol, atol)
    return AND(list(np.ravel(base(r)))) if isinstance(r, np.ndarray) else r


def s_array_equal(a, b, equal_nan=False):
    a, b = base(arr(a)), base(arr(b))
    return a.shape == b.shape and AND([x == y for x, y in zip(a.ravel(), b.ravel())])


def s_where(c, *ab):
    if not ab:
        return np.where(base(arr(c)).astype(bool))
    a, b = (base(arr(x)) if not isinstance(x, (int, float)) else x for x in ab)
    return wrap(_el(ITE, 3)(base(arr(c)), a, b))


def s_sort(a, axis=-1, **kw):
    r = arr(a).copy()
    r.sort()
    return r


def s_unique(a, **kw):
    out = []
    for x in sorted(base(arr(a)).ravel().tolist()):
        if not out or x != out[-1]:
            out.append(x)
    if kw:
        raise Unsupported("np.unique options")
    return arr(out)


def s_array(x, dtype=None, copy=None, **kw):
    if not has_sym(x):
        return np.array(x, dtype, **kw)
    r = arr(x).copy()
    return r if dtype in (None, object) else r.astype(dtype)


def s_asarray(x, dtype=None, *a, **kw):
    if not has_sym(x):
        return np.asarray(x, dtype, *a, **kw)
    r = arr(x)
    return r if dtype in (None, object) else r.astype(dtype)


def s_count_nonzero(a, axis=None):
    if axis is not None:
        raise Unsupported("count_nonzero axis")
    t = 0
    for x in base(arr(a)).ravel():
        x = _truth(x)
        t = t + (x._int() if isinstance(x, SymBool) else int(x))
    return t


def s_mean(a, axis=None, **kw):
    return arr(a).mean(axis=axis)


def s_zeros_like(a, dtype=None, **kw):
    return np.zeros(np.shape(a), dtype or float)


TABLE = {
    np.linalg.norm: s_norm, np.isclose: s_isclose, np.allclose: s_allclose, np.array_equal: s_array_equal,
    np.where: s_where, np.dot: s_dot, np.sort: s_sort, np.unique: s_unique,
    np.count_nonzero: s_count_nonzero, np.mean: s_mean, np.zeros_like: s_zeros_like,
    np.clip: lambda a, lo=None, hi=None, **kw: arr(a).clip(lo, hi),
    np.around: lambda a, decimals=0, out=None: _scalar(arr(a).round(decimals)),
    np.round: lambda a, decimals=0, out=None: _scalar(arr(a).round(decimals)),
    np.argmin: lambda a, axis=None, **kw: arr(a).argmin(axis),
    np.argmax: lambda a, axis=None, **kw: arr(a).argmax(axis),
}


def _scalar(r):
    return r[()] if isinstance(r, np.ndarray) and r.ndim == 0 else r


PLAIN = {"array": s_array, "asarray": s_asarray, "asanyarray": s_asarray, "ascontiguousarray": s_asarray}


def call(f, args, kw):
    """np function f on arguments that may hold proxies."""
    def conv(a):
        if isinstance(a, (list, tuple)) and any(isinstance(x, np.ndarray) for x in a):
            return type(a)(arr(x) if has_sym(x) else x for x in a)
        if has_sym(a):
            return arr(a)
        return a

    if f in TABLE:
        return TABLE[f](*args, **kw)
    return wrap(f(*[conv(a) for a in args], **kw))
