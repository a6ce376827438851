"""Path exploration by re-execution, with z3 deciding branches and assertions.

One Engine explores one harness: the harness is run again and again, each run
following a prefix of recorded decisions and then extending it.  A branch on a
symbolic condition asks the solver whether the other side is feasible too and,
if so, queues it.  ctx.check() asks the solver whether the negated assertion is
satisfiable under the path condition.
"""
import os
import random
import time
from fractions import Fraction

import z3


class StopPath(BaseException):
    """Ends the current path (infeasible, cut or already reported)."""


class Unsupported(BaseException):
    """The engine cannot continue this path symbolically."""


class Stuck(BaseException):
    """A path takes too long."""


class Deadline(BaseException):
    pass


CUR = None  # the active engine


def cur():
    if CUR is None:
        raise Unsupported("no active engine")
    return CUR


def frac(x):
    """A float constant of the program, as the exact number it stands for.

    Real-arithmetic reading: 1/3 held as a float is read as 1/3, the noise of a
    matrix inverse (|x| < 1e-15) as 0.  Dyadic values are kept exactly."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite float constant")
    if abs(x) < 1e-15:
        return Fraction(0)
    f = Fraction(x)
    if f.denominator <= 1 << 20:
        return f
    g = f.limit_denominator(10**6)
    if g != 0 and abs(f - g) <= abs(f) * Fraction(1, 10**13):
        return g
    return f


def rv(x):
    f = frac(x)
    return z3.Q(f.numerator, f.denominator)


class Stats(dict):
    def inc(self, k, n=1):
        self[k] = self.get(k, 0) + n


class Engine:
    def __init__(self, max_paths=100000, time_limit=600.0, query_timeout_ms=20000,
                 max_pin=64):
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.qt = query_timeout_ms
        self.bounds = {}
        self.ranges = {}
        self.max_pin = max_pin
        self.work = [[]]
        self.cexs = []
        self.truncated = []
        self.solver_s = 0.0

    # ---- one path -------------------------------------------------------
    def begin(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", min(1500, self.qt))
        self.pc = []
        self._model = None
        self.inputs = {}
        self.names = {}
        self.flags = []
        self.decided = {}
        self.keep = []
        self.checks_here = 0
        self.observed = []
        self.nfresh = 0
        self.path_start = time.time()
        self.concrete_pins = {}

    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else f"{base}#{n}"

    def add(self, c):
        self.solver.add(c)
        self.pc.append(c)

    def assume_fresh(self, *cs):
        """Constraints on fresh variables (definitions): invalidate the model."""
        for c in cs:
            self.add(c)
        self._model = None

    def _check(self, *extra):
        self.stats.inc("queries")
        t = time.time()
        if t > self.deadline:
            raise Deadline()
        if extra:
            self.solver.push()
            for c in extra:
                self.solver.add(c)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        if r == z3.unknown:
            self.stats.inc("fallback_queries")
            s = z3.Solver()
            s.set("timeout", self.qt * 2)
            for c in self.pc:
                s.add(c)
            for c in extra:
                s.add(c)
            r = s.check()
            m = s.model() if r == z3.sat else None
        dt = time.time() - t
        if dt > 8 and os.environ.get("SYMX_DUMP"):
            s = z3.Solver()
            s.add(*self.pc)
            s.add(*extra)
            open(f"{os.environ['SYMX_DUMP']}/q{os.getpid()}-{self.stats['queries'] if 'queries' in self.stats else 0}-{r}.smt2", "w").write(s.to_smt2())
        self.solver_s += dt
        self.stats.inc(str(r))
        return r, m

    def model(self):
        if self._model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise StopPath("infeasible")
            if r == z3.unknown:
                raise Unsupported("solver unknown on path condition")
            self._model = m
        return self._model

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        if key in self.decided:
            return self.decided[key]
        pos = len(self.trace)
        if pos < len(self.prefix):
            kind, payload, val = self.prefix[pos]
            if kind != "b":
                raise Unsupported("re-execution diverged")
            self._model = None
        else:
            m = self.model()
            val = z3.is_true(m.eval(c, model_completion=True))
            r, _ = self._check(z3.Not(c) if val else c)
            if r == z3.sat:
                self.work.append(self.trace + [("b", None, not val)])
                self.stats.inc("forks")
            elif r == z3.unknown:
                self.stats.inc("unknown_branches")
                self.work.append(self.trace + [("b", None, not val)])
        self.trace.append(("b", None, val))
        self.stats.inc("branches")
        self.add(c if val else z3.Not(c))
        self.decided[key] = val
        self.keep.append(c)
        return val

    def _py(self, v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        raise Unsupported(f"model value {v}")

    def pin(self, e):
        """A concrete value for e on this path; other values are queued."""
        e = z3.simplify(e)
        if z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e):
            return self._py(e)
        key = ("pin", e.get_id())
        if key in self.concrete_pins:
            return self.concrete_pins[key]
        n = 0
        while True:
            pos = len(self.trace)
            if pos < len(self.prefix):
                kind, v, val = self.prefix[pos]
                if kind != "v":
                    raise Unsupported("re-execution diverged")
                self._model = None
            else:
                v = self._py(self.model().eval(e, model_completion=True))
                val = True
                r, _ = self._check(e != self._z(v, e))
                if r != z3.unsat:
                    if n < self.max_pin:
                        self.work.append(self.trace + [("v", v, False)])
                        self.stats.inc("forks")
                    else:
                        self.flags.append("value set cut")
                        self.truncated.append("value set cut")
            self.trace.append(("v", v, val))
            self.stats.inc("branches")
            zc = e == self._z(v, e)
            self.add(zc if val else z3.Not(zc))
            n += 1
            if val:
                self.concrete_pins[key] = v
                self.keep.append(e)
                return v

    def _z(self, v, e):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if z3.is_int(e):
            return z3.IntVal(v)
        return z3.Q(Fraction(v).numerator, Fraction(v).denominator)

    # ---- inputs ---------------------------------------------------------
    def z_input(self, name, kind, **meta):
        name = self.fresh(name)
        if kind == "bool":
            e = z3.Bool(name)
        else:
            e = z3.Int(name)
        self.inputs[name] = (e, kind)
        self.bounds[name] = (-8 if meta.get("lo") is None else meta["lo"], 8 if meta.get("hi") is None else meta["hi"])
        lo, hi = meta.get("lo"), meta.get("hi")
        if lo is not None and hi is not None:
            self.ranges[e.get_id()] = (lo, hi)
        if lo is not None:
            self.add(e >= lo)
        if hi is not None:
            self.add(e <= hi)
        self._model = None
        return e

    def _probe(self, c, tries=16):
        """The solver could not decide c: ask again with most inputs fixed, so that a
        counterexample is not missed for want of time.  (Says nothing when it finds none.)"""
        rng = random.Random(len(self.trace))
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*self.pc)
        s.add(c)
        for _ in range(tries):
            if time.time() > self.deadline:
                return None
            s.push()
            for n, (e, kind) in self.inputs.items():
                if rng.random() < 0.9:
                    lo, hi = self.bounds.get(n, (-8, 8))
                    s.add(e == (rng.random() < 0.5 if kind == "bool" else rng.randint(lo, hi)))
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
            self.stats.inc("probe_queries")
            if m is not None:
                return m
        return None

    def input_values(self, m):
        out = {}
        for n, (e, kind) in self.inputs.items():
            out[n] = self._py(m.eval(e, model_completion=True))
        return out

    def new_int(self, base):
        self.nfresh += 1
        return z3.Int(f"!{base}{self.nfresh}")

    def new_real(self, base):
        self.nfresh += 1
        return z3.Real(f"!{base}{self.nfresh}")

    # ---- assume / check -------------------------------------------------
    def assume(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise StopPath("assume")
        self.add(c)
        if self._model is not None and not z3.is_true(
            self._model.eval(c, model_completion=True)
        ):
            self._model = None
        if len(self.trace) >= len(self.prefix):
            self.model()

    def check(self, c, msg):
        """Returns None when c holds for every value on the path, else a
        counterexample's input values."""
        self.checks_here += 1
        self.stats.inc("assertions")
        c = z3.simplify(c)
        if z3.is_true(c):
            self.stats.inc("assertions_by_rewriting")
            return None
        if len(self.trace) < len(self.prefix):
            # Already decided when this prefix was first executed, under a
            # weaker path condition.
            self.stats.inc("assertions_decided_on_shorter_prefix")
            self.add(c)
            return None
        r, m = self._check(z3.Not(c))
        if r == z3.unsat:
            self.stats.inc("assertions_by_solver")
            self.add(c)
            return None
        if r == z3.unknown:
            m = self._probe(z3.Not(c))
            if m is not None:
                return self.input_values(m)
            self.stats.inc("assertions_unknown")
            self.flags.append(f"unknown: {msg}")
            return None
        return self.input_values(m)
