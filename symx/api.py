"""What harnesses are written against: the same harness runs symbolically (inputs
are solver variables) and concretely (inputs are the solver's values, the code is
the untouched one)."""
import shutil
import tempfile
from fractions import Fraction

import numpy as np
import z3

from . import engine, proxies
from .engine import StopPath
from .proxies import (AND, IMPLIES, ITE, NOT, OR, SymBool, SymEnum, SymInt, SymReal, SymStr, has_sym,
                      is_sym, mkbool, num, zbool, zint, zreal)

HARNESSES = []


class Harness:
    def __init__(self, prop, fn, quick, thorough, bounds, opts):
        self.prop, self.fn, self.quick, self.thorough = prop, fn, quick, thorough
        self.bounds, self.opts = bounds, opts
        self.name = fn.__name__

    def configs(self, tier):
        if tier == "quick":
            return list(self.quick)
        out = list(self.quick)
        for c in self.thorough:
            if c not in out:
                out.append(c)
        return out


def harness(prop, quick=(None,), thorough=(), bounds="", **opts):
    def deco(fn):
        HARNESSES.append(Harness(prop, fn, quick, thorough, bounds, opts))
        return fn

    return deco


class Violation(BaseException):
    def __init__(self, inputs, msg):
        self.inputs, self.msg = inputs, msg


class PropertyFailed(BaseException):
    pass


class Skip(BaseException):
    """Concrete run: an assumption does not hold for these inputs."""


class Ctx:
    cpus = 2
    symbolic = False

    def __init__(self):
        self._tmp = []
        self.covered = set()

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="symx-")
        self._tmp.append(d)
        return d

    def cleanup(self):
        for d in self._tmp:
            shutil.rmtree(d, ignore_errors=True)

    def coord(self, name, lo, hi, den=8):
        """A multiple of 1/den in [lo, hi]."""
        n = self.int(name, int(lo * den), int(hi * den))
        return self.scaled(n, den)

    def real(self, name, lo, hi, den=1000):
        return self.coord(name, lo, hi, den)

    def maybe(self, name):
        """None or an arbitrary value."""
        if self.bool(name + "?"):
            return None
        return self.int(name)

    def pick(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[int(self.int(name, 0, len(seq) - 1))]

    def size(self, name, lo, hi):
        """An integer in [lo, hi], one path per value."""
        return self.int(name, lo, hi).__index__()

    # random draws explored per run; longer histories are outside the bounds
    max_draws = None
    unlimited = False
    draws = 0
    # from which draw on draws are not free but given, and by what
    script = None
    scripted_from = 0

    # which worker takes the next batch, and which answers next, where that is not free
    schedule = None

    def draw(self, kind, lo, hi):
        if self.schedule is not None and kind in ("sched", "done"):
            return self.schedule(kind, lo, hi)
        if kind not in ("sched", "done"):
            self.draws += 1
            if self.script is not None and self.draws > self.scripted_from:
                return min(max(lo, lo + self.script(self.draws - self.scripted_from - 1)), hi)
        if self.max_draws is not None and not self.unlimited and self.draws > self.max_draws:
            self.assume(False)
        if lo == hi:
            return lo
        return self.int("rnd_" + kind, lo, hi)

    def cover(self, label):
        """This outcome can happen (harness option covers lists those that must be possible)."""
        self.covered.add(label)

    def raises(self, fn, *exc):
        """Calls fn; the exception if it raised one of exc, else None."""
        try:
            fn()
        except exc as e:
            return e
        return None


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, eng):
        super().__init__()
        self.eng = eng

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        return SymInt(self.eng.z_input(name, "int", lo=lo, hi=hi))

    def bool(self, name):
        return SymBool(self.eng.z_input(name, "bool"))

    def scaled(self, n, den):
        return proxies._tofloat(n) / den if is_sym(n) else n / den

    def enum(self, name, opts):
        opts = tuple(opts)
        if len(opts) == 1:
            return opts[0]
        return SymEnum(self.eng.z_input(name, "int", lo=0, hi=len(opts) - 1), opts)

    def rule_string(self, *parts):
        return SymStr.mk([c for p in parts for c in ([p] if is_sym(p) else list(p))])

    def assume(self, c):
        self.eng.assume(zbool(c))

    def check(self, c, msg):
        if isinstance(c, np.ndarray):
            c = AND([x for x in c.ravel()])
        inputs = self.eng.check(zbool(c), msg)
        if inputs is not None:
            raise Violation(inputs, msg)

    def observe(self, v):
        self.eng.observed.append(v)


class ConcreteCtx(Ctx):
    rng = None

    def __init__(self, values):
        super().__init__()
        self.values = values
        self.names = {}
        self.observed = []
        self.checks = 0

    def _get(self, name, default):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        key = name if n == 0 else f"{name}#{n}"
        return self.values.get(key, default)

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        d = 0
        if lo is not None and lo > 0:
            d = lo
        if hi is not None and hi < 0:
            d = hi
        if self.rng is not None and name.startswith("rnd_"):
            return self.rng.randint(lo, hi)
        v = int(self._get(name, d))
        # A run may draw more than the model fixed, or with another range.
        if lo is not None and v < lo:
            v = lo
        if hi is not None and v > hi:
            v = hi
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def scaled(self, n, den):
        return n / den

    def enum(self, name, opts):
        opts = tuple(opts)
        if len(opts) == 1:
            return opts[0]
        return opts[int(self._get(name, 0))]

    def rule_string(self, *parts):
        return "".join(str(p) for p in parts)

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg):
        self.checks += 1
        if isinstance(c, np.ndarray):
            c = c.all()
        if not c:
            raise PropertyFailed(msg)

    def observe(self, v):
        self.observed.append(v)


# -------------------------------------------------------------- helpers
def same(a, b):
    """Deep equality as one condition (dicts, sequences, arrays, values)."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or len(a) != len(b):
            return False
        conds = []
        for k, v in a.items():
            if k not in b:
                return False
            conds.append(same(v, b[k]))
        return AND(conds)
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return AND([same(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if a is None or b is None:
        return a is b
    if is_sym(a):
        return a == b
    if is_sym(b):
        return b == a
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return bool(a == b)


def count(conds):
    """How many of the conditions hold."""
    t = 0
    for c in conds:
        t = t + (c._int() if isinstance(c, SymBool) else int(bool(c)))
    return t


def close(a, b, tol=1e-6):
    """Equal up to float noise (symbolically: exactly)."""
    if is_sym(a) or is_sym(b):
        return a == b
    return abs(a - b) <= tol


def closev(a, b, tol=1e-6):
    return AND([close(x, y, tol) for x, y in zip(a, b)]) if len(a) == len(b) else False


def quiet_eval(eng, v, m):
    """The value of v under model m, as plain data."""
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymEnum):
        return v.opts[m.eval(v.e, model_completion=True).as_long()]
    if isinstance(v, (SymInt, SymReal)):
        return eng._py(m.eval(v.e, model_completion=True))
    if isinstance(v, dict):
        return [[quiet_eval(eng, k, m), quiet_eval(eng, x, m)] for k, x in v.items()]
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [quiet_eval(eng, x, m) for x in v]
    return v


def plain(v):
    if isinstance(v, dict):
        return [[plain(k), plain(x)] for k, x in v.items()]
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, Fraction):
        return float(v)
    return v


def obs_equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(obs_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6
    return a == b


def round_sqrt(d, sqs, tol=0.00051):
    """Is d the square root of the least of sqs, give or take tol?"""
    from .arrays import sqrt_min
    from .proxies import SqrtReal, _ScaledRint, decompose, mksqrt, real_cmp
    import math
    import operator

    if not has_sym(d) and not has_sym(sqs):
        return abs(float(d) - math.sqrt(max(0.0, float(min(sqs))))) <= tol
    vs = [mksqrt(zreal(s)) for s in sqs]
    m = sqrt_min(vs) if len(vs) > 1 else vs[0]
    sq = None
    if isinstance(d, SqrtReal):
        sq = d.sq
    elif isinstance(d, _ScaledRint) and d.c <= Fraction(1, 1000):
        sq = z3.simplify(d.k.sq * zreal(d.c) * zreal(d.c))
    if sq is not None:
        # rounding aside, compare the squares (which differ by more than noise if at all, on a grid)
        msq = m.sq if isinstance(m, SqrtReal) else zreal(m) * zreal(m)
        sq, msq = SymReal(z3.simplify(sq)), SymReal(z3.simplify(msq))
        return AND(sq - msq <= 1e-6, msq - sq <= 1e-6)
    return AND(d - m <= tol, m - d <= tol)


def sqrt_least(sqs):
    """The square root of the least of sqs."""
    import math

    from .arrays import sqrt_min
    from .proxies import mksqrt

    if not has_sym(sqs):
        return math.sqrt(max(0.0, float(min(sqs))))
    vs = [mksqrt(zreal(s)) for s in sqs]
    return vs[0] if len(vs) == 1 else sqrt_min(vs)
