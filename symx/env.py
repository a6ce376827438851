"""The environment as nondeterministic stubs: randomness, worker scheduling, JSON
files.  Used in both modes: symbolically each draw is a solver variable, in a
replay it is the value the solver chose."""
import copy
import io
import itertools
import json
import math
import multiprocessing
import multiprocessing.pool
import os
import random
import sys
import types

import numpy as np

from . import arrays, graphs, proxies
from .engine import Unsupported
from .proxies import AND, NOT, SymBase, SymInt, SymIntStr, SymReal, has_sym, is_sym

CTX = None  # current ctx (symbolic or concrete)
SYMBOLIC = False


def ctx():
    if CTX is None:
        raise RuntimeError("no ctx")
    return CTX


# ------------------------------------------------------------------- math
class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        return getattr(math, n)

    @staticmethod
    def sqrt(x):
        if is_sym(x):
            return SymReal(proxies.zreal(x)).sqrt()
        return math.sqrt(x)

    @staticmethod
    def floor(x):
        return x.__floor__() if is_sym(x) else math.floor(x)

    @staticmethod
    def ceil(x):
        return x.__ceil__() if is_sym(x) else math.ceil(x)

    @staticmethod
    def trunc(x):
        return x.__trunc__() if is_sym(x) else math.trunc(x)

    @staticmethod
    def fabs(x):
        return abs(x) if is_sym(x) else math.fabs(x)

    @staticmethod
    def pow(x, y):
        return x**y if is_sym(x) or is_sym(y) else math.pow(x, y)

    @staticmethod
    def hypot(*xs):
        if any(is_sym(x) for x in xs):
            return SymReal(proxies.zreal(sum(x * x for x in xs))).sqrt()
        return math.hypot(*xs)

    @staticmethod
    def dist(p, q):
        return MathShim.hypot(*[a - b for a, b in zip(p, q)])

    @staticmethod
    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if is_sym(a) or is_sym(b):
            d = abs(a - b)
            m = proxies.ITE(abs(a) >= abs(b), abs(a), abs(b))
            return proxies.OR(d <= rel_tol * m, d <= abs_tol)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    @staticmethod
    def fmod(a, b):
        if is_sym(a) or is_sym(b):
            return a - b * (a / b).__trunc__()
        return math.fmod(a, b)

    @staticmethod
    def modf(x):
        if is_sym(x):
            t = x.trunc()
            return x - t, t
        return math.modf(x)

    @staticmethod
    def isnan(x):
        return False if is_sym(x) else math.isnan(x)

    @staticmethod
    def isfinite(x):
        return True if is_sym(x) else math.isfinite(x)

    @staticmethod
    def isinf(x):
        return False if is_sym(x) else math.isinf(x)


MATH = MathShim()


# ------------------------------------------------------------------ numpy
def _pinned(a):
    """a with its symbolic entries given values (the others are explored too)."""
    if not has_sym(a):
        return np.asarray(a, dtype=float) if isinstance(a, np.ndarray) and a.dtype == object else a
    from . import engine

    a = arrays.base(arrays.arr(a))
    return np.array([float(engine.cur().pin(proxies.zreal(x))) if is_sym(x) else float(x)
                     for x in a.ravel()]).reshape(a.shape)


def _wrapped(f):
    def g(*a, **kw):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in kw.values()):
            return arrays.call(f, a, kw)
        return f(*a, **kw)

    g.__name__ = getattr(f, "__name__", "np_function")
    g.__wrapped__ = f
    return g


class LinalgShim(types.ModuleType):
    def __init__(self):
        super().__init__("linalg")

    def __getattr__(self, n):
        return getattr(np.linalg, n)

    norm = staticmethod(arrays.s_norm)

    @staticmethod
    def inv(a):
        return np.linalg.inv(_pinned(a))

    @staticmethod
    def det(a):
        return np.linalg.det(_pinned(a))

    @staticmethod
    def solve(a, b):
        if has_sym(b):
            return arrays.s_dot(np.linalg.inv(_pinned(a)), b)
        return np.linalg.solve(_pinned(a), b)


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.linalg = LinalgShim()

    def __getattr__(self, n):
        v = getattr(np, n)
        if isinstance(v, type) or not callable(v):
            return v
        f = shim_np(v) or _wrapped(v)
        self.__dict__[n] = f
        return f


def shim_np(v):
    f = arrays.PLAIN.get(getattr(v, "__name__", ""))
    if f is not None and getattr(np, v.__name__, None) is v:
        return f
    return None


NP = NumpyShim()
_IDMAP = {
    id(math): MATH, id(np): NP, id(math.sqrt): MATH.sqrt, id(math.floor): MATH.floor,
    id(math.ceil): MATH.ceil, id(math.isclose): MATH.isclose, id(math.hypot): MATH.hypot,
    id(math.dist): MATH.dist, id(np.linalg): NP.linalg, id(np.linalg.norm): arrays.s_norm,
}


def module_shim(v):
    """What stands in for a module-level name of the code under test."""
    r = _IDMAP.get(id(v))
    if r is None and not isinstance(v, type) and callable(v) and (
            type(v) is np.ufunc or getattr(v, "__module__", None) in ("numpy", "numpy.linalg")):
        r = shim_np(v) or _wrapped(v)
    return r


# ----------------------------------------------------------------- random
def _choice(seq):
    seq = seq if hasattr(seq, "__getitem__") else list(seq)
    n = len(seq)
    if n == 0:
        raise IndexError("Cannot choose from an empty sequence")
    i = ctx().draw("choice", 0, n - 1)
    if is_sym(i) and all(type(x) is str for x in seq):
        return proxies.SymEnum(i.e, tuple(seq))
    return seq[i]


def _randint(a, b):
    if a > b:
        raise ValueError(f"empty range for randrange() ({a}, {b + 1})")
    return ctx().draw("randint", a, b)


def _randrange(a, b=None, step=1):
    if b is None:
        a, b = 0, a
    n = len(range(a, b, step))
    if n <= 0:
        raise ValueError("empty range for randrange()")
    return a + step * ctx().draw("randrange", 0, n - 1)


def _sample(pop, k, counts=None):
    pool = list(pop)
    if k > len(pool) or k < 0:
        raise ValueError("Sample larger than population or is negative")
    out = []
    for _ in range(k):
        i = int(ctx().draw("sample", 0, len(pool) - 1))
        out.append(pool.pop(i))
    return out


def _shuffle(x):
    n = len(x)
    for i in range(n - 1, 0, -1):
        j = int(ctx().draw("shuffle", 0, i))
        x[i], x[j] = x[j], x[i]


def _choices(pop, weights=None, *, cum_weights=None, k=1):
    if cum_weights is not None:
        weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
    out = []
    for _ in range(k):
        i = int(ctx().draw("choices", 0, len(pop) - 1))
        if weights is not None and not weights[i] > 0:
            ctx().assume(False)
        out.append(pop[i])
    return out


def _random():
    # 53-bit uniform, on a coarse dyadic grid
    return ctx().draw("random", 0, 1023) / 1024.0


def _uniform(a, b):
    return a + (b - a) * _random()


def _np_choice(a, size=None, replace=True, p=None):
    if p is not None:
        raise Unsupported("np.random.choice with p")
    if size is not None:
        n = int(np.prod(size))
        pop = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        r = [pop[int(ctx().draw("npchoice", 0, len(pop) - 1))] for _ in range(n)] if replace else _sample(pop, n)
        return np.array(r).reshape(size)
    if isinstance(a, (int, np.integer)):
        if a <= 0:
            raise ValueError("a must be greater than 0 unless no samples are taken")
        return ctx().draw("npchoice", 0, int(a) - 1)
    return a[ctx().draw("npchoice", 0, len(a) - 1)]


def _np_randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    if low >= high:
        raise ValueError("low >= high")
    if size is None:
        return ctx().draw("nprandint", low, high - 1)
    n = int(np.prod(size))
    return np.array([int(ctx().draw("nprandint", low, high - 1)) for _ in range(n)]).reshape(size)


# --------------------------------------------------------- worker processes
def _pyl_modules():
    return [m for n, m in list(sys.modules.items())
            if m is not None and n.split(".")[0] in ("pylattica", "props") and hasattr(m, "__dict__")]


def _image():
    """The mutable module data a forked process would get its own copy of."""
    img = {}
    for m in _pyl_modules():
        for k, v in list(vars(m).items()):
            if k.startswith("__") or k.startswith("_sx_"):
                continue
            if isinstance(v, (dict, list, set)) or type(v).__module__.split(".")[0] in ("pylattica", "props"):
                if isinstance(v, (type, types.ModuleType)):
                    continue
                img[(m.__name__, k)] = v
    return img


class _Worker:
    def __init__(self, template):
        self.img = copy.deepcopy(template)

    def run(self, fn, args, kw=None):
        saved = {}
        for (mn, k), v in self.img.items():
            d = vars(sys.modules[mn])
            saved[(mn, k)] = d.get(k, saved)
            d[k] = v
        try:
            # arguments and results travel by pickling
            fn, args, kw = copy.deepcopy((fn, args, kw or {}))
            return copy.deepcopy(fn(*args, **kw))
        finally:
            for (mn, k) in self.img:
                d = vars(sys.modules[mn])
                self.img[(mn, k)] = d[k]
                v = saved[(mn, k)]
                if v is saved:
                    del d[k]
                else:
                    d[k] = v


class _Async:
    def __init__(self, v=None, exc=None):
        self.v, self.exc = v, exc

    def get(self, timeout=None):
        if self.exc is not None:
            raise self.exc
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.exc is None


class Pool:
    """multiprocessing.Pool whose chunk-to-worker assignment is nondeterministic."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = multiprocessing.cpu_count()
        if is_sym(processes):
            processes = int(processes)
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.P = processes
        self.used = 0
        self.init = initializer
        self.closed = False
        self._setup(initializer, initargs)

    def _setup(self, initializer, initargs):
        self.template = copy.deepcopy(_image())
        self.workers = []
        for _ in range(self.P):
            w = _Worker(self.template)
            if initializer is not None:
                w.run(initializer, tuple(initargs))
            self.workers.append(w)

    def _on(self, w, fn, args, kw=None):
        return self.workers[w].run(fn, args, kw)

    def _pick(self):
        # workers that have had no task yet are interchangeable
        n = min(self.P, self.used + 1)
        w = int(ctx().draw("sched", 0, n - 1)) if n > 1 else 0
        if w == self.used:
            self.used += 1
        return w

    def _chunks(self, tasks, chunksize):
        if chunksize is None:
            chunksize, extra = divmod(len(tasks), self.P * 4)
            if extra:
                chunksize += 1
        if not tasks:
            return []
        return [tasks[i:i + chunksize] for i in range(0, len(tasks), chunksize)]

    def _run(self, fn, argtuples, chunksize):
        if self.closed:
            raise ValueError("Pool not running")
        out = []
        for ch in self._chunks(list(argtuples), chunksize):
            w = self._pick()
            for a in ch:
                out.append(self._on(w, fn, tuple(a)))
        return out

    def starmap(self, fn, iterable, chunksize=None):
        return self._run(fn, iterable, chunksize)

    def map(self, fn, iterable, chunksize=None):
        return self._run(fn, [(x,) for x in iterable], chunksize)

    def imap(self, fn, iterable, chunksize=1):
        return iter(self._run(fn, [(x,) for x in iterable], chunksize))

    def imap_unordered(self, fn, iterable, chunksize=1):
        out = self._run(fn, [(x,) for x in iterable], chunksize)
        res = []
        while out:
            i = int(ctx().draw("done", 0, len(out) - 1)) if len(out) > 1 else 0
            res.append(out.pop(i))
        return iter(res)

    def apply(self, fn, args=(), kwds=None):
        return self._on(self._pick(), fn, tuple(args), kwds)

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        try:
            v = self.apply(fn, args, kwds)
        except Exception as e:  # noqa: BLE001
            return _Async(exc=e)
        if callback:
            callback(v)
        return _Async(v)

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return _Async(self._run(fn, it, chunksize))

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return _Async(self.map(fn, it, chunksize))

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def _serve(conn, initializer, initargs):
    try:
        if initializer is not None:
            initializer(*initargs)
        while True:
            try:
                task = conn.recv()
            except EOFError:
                break
            if task is None:
                break
            fn, args, kw = task
            try:
                conn.send((True, fn(*args, **kw)))
            except Exception as e:  # noqa: BLE001
                conn.send((False, e))
    finally:
        os._exit(0)


class RealPool(Pool):
    """The replay's pool: real forked processes, each handed the tasks the
    counterexample's schedule gives it."""

    def _setup(self, initializer, initargs):
        self.workers = []
        mpctx = _REAL["get_context"]("fork")
        for _ in range(self.P):
            a, b = mpctx.Pipe()
            pid = os.fork()
            if pid == 0:
                a.close()
                for other, _ in self.workers:
                    other.close()
                _serve(b, initializer, initargs)
            b.close()
            self.workers.append((a, pid))

    def _on(self, w, fn, args, kw=None):
        c, _ = self.workers[w]
        c.send((fn, args, kw or {}))
        ok, v = c.recv()
        if not ok:
            raise v
        return v

    def terminate(self):
        super().terminate()
        for c, pid in self.workers:
            try:
                c.send(None)
                c.close()
            except OSError:
                pass
            os.waitpid(pid, 0)
        self.workers = []

    def close(self):
        self.closed = True

    def join(self):
        self.terminate()


class FakeContext:
    def __init__(self, method=None):
        self.method = method

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return (Pool if SYMBOLIC else RealPool)(processes, initializer, initargs)

    def cpu_count(self):
        return _cpu_count()

    def __getattr__(self, n):
        return getattr(_REAL["get_context"](self.method), n)


def _cpu_count():
    c = ctx()
    n = getattr(c, "cpus", None)
    return 2 if n is None else n


_REAL = {}


# ------------------------------------------------------------------- JSON
_TABLE = {}


def to_json(o, default=None):
    """What json.dumps followed by json.loads makes of o, proxies kept."""
    if is_sym(o):
        return o
    if o is None or isinstance(o, (bool, int, float, str)):
        return json_atom(o)
    if isinstance(o, dict):
        from .coll import SymDict

        r = SymDict()
        for k, v in o.items():
            r[_json_key(k)] = to_json(v, default)
        return r
    if isinstance(o, (list, tuple)):
        return [to_json(v, default) for v in o]
    if default is not None:
        return to_json(default(o), default)
    raise TypeError(f"Object of type {type(o).__name__} is not JSON serializable")


def json_atom(o):
    if isinstance(o, float) and type(o) is not float:
        return float(o)
    if isinstance(o, (np.integer, np.bool_)):
        raise TypeError(f"Object of type {type(o).__name__} is not JSON serializable")
    return o


def _json_key(k):
    if isinstance(k, SymInt):
        return SymIntStr(k)
    if is_sym(k):
        if isinstance(k, str):
            return k
        raise Unsupported("symbolic JSON key")
    if isinstance(k, str):
        return k
    if k is True:
        return "true"
    if k is False:
        return "false"
    if k is None:
        return "null"
    if isinstance(k, int):
        return int.__repr__(k)
    if isinstance(k, float):
        return float.__repr__(k)
    raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")


def _enc_default(kw):
    if kw.get("default") is not None:
        return kw["default"]
    cls = kw.get("cls")
    return cls().default if cls is not None else None


def _s_dumps(obj, **kw):
    n = len(_TABLE)
    _TABLE[n] = to_json(obj, _enc_default(kw))
    return f'{{"SYMX": {n}}}'


def _s_dump(obj, fp, **kw):
    fp.write(_s_dumps(obj, **kw))


def _s_loads(s, **kw):
    if isinstance(s, (bytes, bytearray)):
        s = s.decode()
    if not s.startswith('{"SYMX": '):
        return _REAL["loads"](s, **kw)
    o = copy.deepcopy(_TABLE[int(s[9:-1])])
    cls = kw.get("cls")
    if cls is not None and hasattr(cls, "process_decoded"):
        return cls().process_decoded(o)
    if kw.get("object_hook"):
        raise Unsupported("object_hook")
    return o


def _s_load(fp, **kw):
    return _s_loads(fp.read(), **kw)


# ---------------------------------------------------------------- plotting
class Trace:
    """A drawn line, as given."""

    def __init__(self, kind="scatter", **kw):
        self.__dict__.update(dict(type=kind, name=None, x=None, y=None, mode=None), **kw)

    def __getitem__(self, k):
        return getattr(self, k)


class Figure:
    """What is added to a figure; everything about its looks is accepted and dropped."""

    def __init__(self, data=None, layout=None, *a, **kw):
        self.data = tuple(data) if isinstance(data, (list, tuple)) else () if data is None else (data,)

    def add_trace(self, trace, *a, **kw):
        self.data += (trace if isinstance(trace, Trace) else Trace(**dict(trace)),)
        return self

    def add_traces(self, data, *a, **kw):
        for t in data if isinstance(data, (list, tuple)) else [data]:
            self.add_trace(t)
        return self

    def add_scatter(self, **kw):
        return self.add_trace(Trace(**kw))

    def __getattr__(self, n):
        if n.startswith(("update_", "add_h", "add_v", "add_annotation", "add_shape", "for_each_", "show")):
            return lambda *a, **kw: self
        raise AttributeError(n)


def _stub_plotly():
    import plotly.graph_objects as go

    go.Figure, go.Scatter, go.Scattergl = Figure, Trace, Trace


# ----------------------------------------------------------------- install
def install(symbolic):
    global SYMBOLIC
    SYMBOLIC = symbolic
    random.choice = _choice
    random.randint = _randint
    random.randrange = _randrange
    random.sample = _sample
    random.shuffle = _shuffle
    random.choices = _choices
    random.random = _random
    random.uniform = _uniform
    np.random.choice = _np_choice
    np.random.randint = _np_randint
    np.random.shuffle = _shuffle
    _REAL.setdefault("get_context", multiprocessing.get_context)
    multiprocessing.get_context = lambda m=None: FakeContext(m)
    multiprocessing.Pool = FakeContext().Pool
    multiprocessing.cpu_count = _cpu_count
    os.cpu_count = _cpu_count
    os.sched_getaffinity = lambda pid: set(range(_cpu_count()))
    graphs.install()
    if symbolic:
        _REAL.update(dumps=json.dumps, loads=json.loads, dump=json.dump, load=json.load)
        json.dumps, json.loads, json.dump, json.load = _s_dumps, _s_loads, _s_dump, _s_load
        _stub_plotly()
