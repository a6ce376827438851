"""Dicts and sets whose keys may be symbolic: lookups compare keys with ==,
which the solver decides, instead of hashing."""
import collections
import copy

import numpy as np

from .proxies import AND, ITE, OR, SymBase, has_sym, is_sym

_FAST = (int, str, float, bool, type(None))


def symkey(k):
    t = type(k)
    if t in _FAST:
        return False
    if isinstance(k, SymBase):
        return True
    if t is tuple or t is frozenset:
        return any(symkey(x) for x in k)
    if t is SymFrozen:
        return k._n > 0
    return False


def keyeq(a, b):
    """a == b for dict keys, as one condition."""
    if type(a) is tuple or type(b) is tuple:
        if type(a) is not tuple or type(b) is not tuple or len(a) != len(b):
            return False
        return AND([keyeq(x, y) for x, y in zip(a, b)])
    if is_sym(a):
        return a == b
    if is_sym(b):
        return b == a
    return a == b


class KeyBox:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def _unbox(k):
    return k.k if isinstance(k, KeyBox) else k


class SymDict(dict):
    def __init__(self, *a, **kw):
        super().__init__()
        self._n = 0
        if a or kw:
            self.update(*a, **kw)

    # --- key resolution: the native key under which k is stored, or None
    def _find(self, k):
        if type(k) is KeyBox:
            return k if dict.__contains__(self, k) else None
        if symkey(k):
            for nk in dict.__iter__(self):
                if keyeq(k, _unbox(nk)):
                    return nk
            return None
        if dict.__contains__(self, k):
            return k
        if self._n:
            for nk in dict.__iter__(self):
                if type(nk) is KeyBox and keyeq(nk.k, k):
                    return nk
        return None

    _NONE = object()

    def _has(self, k):
        if self._n == 0 and not symkey(k):
            return dict.__contains__(self, k), k
        nk = self._find(k)
        if nk is None and k is not None:
            return False, None
        if nk is None:  # key None itself
            return dict.__contains__(self, None), None
        return True, nk

    def __getitem__(self, k):
        ok, nk = self._has(k)
        if ok:
            return dict.__getitem__(self, nk)
        m = getattr(type(self), "__missing__", None)
        if m is not None:
            return m(self, k)
        raise KeyError(k if not has_sym(k) else "<symbolic>")

    def get(self, k, d=None):
        ok, nk = self._has(k)
        return dict.__getitem__(self, nk) if ok else d

    def __contains__(self, k):
        return self._has(k)[0]

    def has(self, k):
        """k in self, as a condition."""
        return OR([keyeq(k, _unbox(nk)) for nk in dict.__iter__(self)])

    def __setitem__(self, k, v):
        ok, nk = self._has(k)
        if ok:
            dict.__setitem__(self, nk, v)
        elif symkey(k):
            dict.__setitem__(self, KeyBox(k), v)
            self._n += 1
        else:
            dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        ok, nk = self._has(k)
        if not ok:
            raise KeyError(k if not has_sym(k) else "<symbolic>")
        if type(nk) is KeyBox:
            self._n -= 1
        dict.__delitem__(self, nk)

    def pop(self, k, *d):
        ok, nk = self._has(k)
        if ok:
            v = dict.__getitem__(self, nk)
            self.__delitem__(k) if nk is None else self._delnative(nk)
            return v
        if d:
            return d[0]
        raise KeyError(k if not has_sym(k) else "<symbolic>")

    def _delnative(self, nk):
        if type(nk) is KeyBox:
            self._n -= 1
        dict.__delitem__(self, nk)

    def popitem(self):
        k, v = dict.popitem(self)
        if type(k) is KeyBox:
            self._n -= 1
        return _unbox(k), v

    def setdefault(self, k, d=None):
        ok, nk = self._has(k)
        if ok:
            return dict.__getitem__(self, nk)
        self[k] = d
        return d

    def clear(self):
        dict.clear(self)
        self._n = 0

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if hasattr(o, "keys"):
                for k in list(o.keys()):
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __iter__(self):
        for k in dict.__iter__(self):
            yield _unbox(k)

    def __reversed__(self):
        for k in dict.__reversed__(self):
            yield _unbox(k)

    def keys(self):
        return Keys(self)

    def values(self):
        return Values(self)

    def items(self):
        return Items(self)

    def copy(self):
        return copy.copy(self)

    def __copy__(self):
        r = self._new()
        for k in dict.__iter__(self):
            v = dict.__getitem__(self, k)
            if type(k) is KeyBox:
                dict.__setitem__(r, KeyBox(k.k), v)
                r._n += 1
            else:
                dict.__setitem__(r, k, v)
        return r

    def _new(self):
        return type(self)()

    def __deepcopy__(self, memo):
        r = self._new()
        memo[id(self)] = r
        for k in dict.__iter__(self):
            v = copy.deepcopy(dict.__getitem__(self, k), memo)
            if type(k) is KeyBox:
                dict.__setitem__(r, KeyBox(k.k), v)
                r._n += 1
            else:
                dict.__setitem__(r, k, v)
        return r

    def __reduce_ex__(self, p):
        return (type(self)._rebuild, (list(self.items()),))

    @classmethod
    def _rebuild(cls, items):
        r = cls()
        for k, v in items:
            r[k] = v
        return r

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        if len(self) != len(o):
            return False
        if self._n == 0 and not getattr(o, "_n", 0):
            for k in dict.__iter__(self):
                if not dict.__contains__(o, k):
                    return False
            return AND([bool_eq(dict.__getitem__(self, k), o[k]) for k in dict.__iter__(self)])
        conds = []
        so = o if isinstance(o, SymDict) else SymDict(o)
        for k, v in self.items():
            ok, nk = so._has(k)
            if not ok:
                return False
            conds.append(bool_eq(v, dict.__getitem__(so, nk)))
        return AND(conds)

    def __ne__(self, o):
        from .proxies import NOT

        return NOT(self == o)

    __hash__ = None

    def __or__(self, o):
        r = self.__copy__()
        r.update(o)
        return r

    def __ror__(self, o):
        r = SymDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r


def bool_eq(a, b):
    r = a == b
    if isinstance(r, np.ndarray):
        return AND([x for x in r.ravel()])
    return r


class _View:
    def __init__(self, d):
        self._d = d

    def __len__(self):
        return dict.__len__(self._d)

    def __repr__(self):
        return type(self).__name__ + repr(list(self))


class Keys(_View, collections.abc.KeysView):
    def __init__(self, d):
        self._d = d
        self._mapping = d

    def __iter__(self):
        return iter(self._d)

    def __contains__(self, k):
        return k in self._d

    def __reversed__(self):
        return reversed(self._d)

    @classmethod
    def _from_iterable(cls, it):
        return SymSet(it)

    def __eq__(self, o):
        return SymSet(self) == o

    def __and__(self, o):
        return SymSet(self) & SymSet(o)

    def __or__(self, o):
        return SymSet(self) | SymSet(o)

    def __sub__(self, o):
        return SymSet(self) - SymSet(o)

    __hash__ = None


class Values(_View, collections.abc.ValuesView):
    def __init__(self, d):
        self._d = d
        self._mapping = d

    def __iter__(self):
        for k in dict.__iter__(self._d):
            yield dict.__getitem__(self._d, k)

    def __contains__(self, v):
        return any(x is v or x == v for x in self)


class Items(_View, collections.abc.ItemsView):
    def __init__(self, d):
        self._d = d
        self._mapping = d

    def __iter__(self):
        for k in dict.__iter__(self._d):
            yield _unbox(k), dict.__getitem__(self._d, k)

    def __contains__(self, kv):
        ok, nk = self._d._has(kv[0])
        return ok and bool(dict.__getitem__(self._d, nk) == kv[1])

    @classmethod
    def _from_iterable(cls, it):
        return SymSet(it)

    __hash__ = None


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        super().__init__(*a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def _new(self):
        return type(self)(self.default_factory)


class SymCounter(SymDict):
    """Counted symbolic keys wait in _log until something asks for more than how often one of them occurs."""

    def __init__(self, it=None, **kw):
        self._log = []
        super().__init__()
        if it is not None:
            self.update(it)
        if kw:
            self.update(kw)

    def __missing__(self, k):
        return 0

    def _flush(self):
        log, self._log = self._log, []
        for k in log:
            SymDict.__setitem__(self, k, SymDict.__getitem__(self, k) + 1)

    def _occurs(self, k):
        return sum([ITE(keyeq(x, k), 1, 0) for x in self._log])

    def __getitem__(self, k):
        if self._log:
            if not dict.__len__(self):
                return self._occurs(k)
            self._flush()
        return SymDict.__getitem__(self, k)

    def get(self, k, d=None):
        if self._log:
            if not dict.__len__(self) and type(d) is int and d == 0:
                return self._occurs(k)
            self._flush()
        return SymDict.get(self, k, d)

    def __bool__(self):
        return bool(self._log) or dict.__len__(self) > 0

    def update(self, it=None, **kw):
        if it is not None:
            if hasattr(it, "keys"):
                self._flush()
                for k in list(it.keys()):
                    self[k] = self[k] + it[k]
            else:
                it = list(it)
                if not dict.__len__(self) and (self._log or any(symkey(k) for k in it)):
                    for k in it:
                        symkey(k) or hash(k)
                    self._log.extend(it)
                else:
                    self._flush()
                    for k in it:
                        self[k] = self[k] + 1
        for k, v in kw.items():
            self[k] = self[k] + v

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def total(self):
        return sum(self.values())

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k


def _settled(name):
    old = getattr(SymDict, name)

    def f(self, *a, **kw):
        if self._log:
            self._flush()
        return old(self, *a, **kw)
    return f


for _m in ("_has", "__contains__", "has", "__setitem__", "__delitem__", "pop", "popitem", "setdefault", "clear", "__iter__", "__reversed__",
           "__len__", "keys", "values", "items", "copy", "__copy__", "_new", "__deepcopy__", "__reduce_ex__", "__eq__", "__ne__",
           "__or__", "__ror__", "__ior__", "__repr__"):
    setattr(SymCounter, _m, _settled(_m))


class SymSet(set):
    """Insertion-ordered only as far as the native set is; symbolic members are boxed."""

    def __init__(self, it=()):
        super().__init__()
        self._n = 0
        for x in it:
            self.add(x)

    def _find(self, k):
        if symkey(k):
            for nk in set.__iter__(self):
                if keyeq(k, _unbox(nk)):
                    return True, nk
            return False, None
        if set.__contains__(self, k):
            return True, k
        if self._n:
            for nk in set.__iter__(self):
                if type(nk) is OBox and keyeq(nk.k, k):
                    return True, nk
        return False, None

    def add(self, x):
        if self._n == 0 and not symkey(x):
            set.add(self, x)
            return
        ok, _ = self._find(x)
        if not ok:
            if symkey(x):
                b = OBox(x)
                set.add(self, b)
                self._n += 1
            else:
                set.add(self, x)

    def __contains__(self, x):
        return self._find(x)[0]

    def has(self, k):
        """k in self, as a condition."""
        return OR([keyeq(k, _unbox(nk)) for nk in set.__iter__(self)])

    def discard(self, x):
        ok, nk = self._find(x)
        if ok:
            if type(nk) is OBox:
                self._n -= 1
            set.discard(self, nk)

    def remove(self, x):
        ok, nk = self._find(x)
        if not ok:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError("pop from an empty set")

    def clear(self):
        set.clear(self)
        self._n = 0

    def __iter__(self):
        if self._n == 0:
            return set.__iter__(self)
        nat = [k for k in set.__iter__(self) if type(k) is not OBox]
        box = sorted((k for k in set.__iter__(self) if type(k) is OBox), key=lambda b: b.n)
        return iter(nat + [b.k for b in box])

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __or__(self, o):
        r = SymSet(self)
        r.update(o)
        return r

    __ror__ = __or__

    def union(self, *its):
        r = SymSet(self)
        r.update(*its)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __and__(self, o):
        o = SymSet(o)
        return SymSet([x for x in self if x in o])

    __rand__ = __and__

    def intersection(self, *its):
        r = self
        for it in its:
            r = r & it
        return r

    def __sub__(self, o):
        o = SymSet(o)
        return SymSet([x for x in self if x not in o])

    def __rsub__(self, o):
        return SymSet(o) - self

    def difference(self, *its):
        r = self
        for it in its:
            r = r - it
        return r

    def __xor__(self, o):
        o = SymSet(o)
        return (self - o) | (o - self)

    symmetric_difference = __xor__

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return SymSet(o).issubset(self)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, Keys)):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def copy(self):
        return SymSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SymSet([copy.deepcopy(x, memo) for x in self])

    def __reduce_ex__(self, p):
        return (SymSet, (list(self),))

    def __repr__(self):
        return "{" + ", ".join(map(repr, self)) + "}"


_cnt = 0


class OBox(KeyBox):
    __slots__ = ("n",)

    def __init__(self, k):
        global _cnt
        _cnt += 1
        self.k = k
        self.n = _cnt

    def __hash__(self):
        return self.n

    def __eq__(self, o):
        return self is o


class SymFrozen(SymSet):
    @property
    def __class__(self):
        return frozenset

    def __hash__(self):
        return hash(frozenset(self))
