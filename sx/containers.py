"""dict/set replacements whose lookups compare symbolic keys with the solver."""
import numbers
from collections.abc import MutableMapping, MutableSet

from sx import engine as E


def _symbolic(key):
    """Whether hashing the key touches a symbolic value (also validates hashability)."""
    e = E.current()
    if e is None:
        hash(key)
        return False
    old, e.hash_flag = e.hash_flag, False
    try:
        hash(key)
        return e.hash_flag
    finally:
        e.hash_flag = old


_MISSING = object()
_PLAIN = (numbers.Number, str, bytes, tuple, frozenset, type(None))


def _plain(x):
    return isinstance(x, _PLAIN) or type(x).__module__.startswith("sx.")


def _same(a, b):
    """Whether two distinct keys, one of them symbolic, are the same key: equal with equal hashes.

    An object that equals numbers or texts (such as a bit with a value) does not have their hashes."""
    return _plain(a) == _plain(b) and a == b




class SymDict(MutableMapping):
    __slots__ = ("_entries", "_index", "_nsym", "__weakref__")

    def __init__(self, *args, **kwargs):
        self._entries = []  # [key, value, symbolic]
        self._index = {}
        self._nsym = 0
        self.update(*args, **kwargs)

    def _find(self, key):
        sym = _symbolic(key)
        if not sym:
            en = self._index.get(key)
            if en is not None:
                return en
            if not self._nsym:
                return None
            for en in self._entries:
                if en[2] and (en[0] is key or _same(en[0], key)):
                    return en
            return None
        for en in self._entries:
            if en[0] is key:
                return en
        for en in self._entries:
            if _same(en[0], key):
                return en
        return None

    def __getitem__(self, key):
        en = self._find(key)
        if en is None:
            raise KeyError(key)
        return en[1]

    def __setitem__(self, key, value):
        en = self._find(key)
        if en is not None:
            en[1] = value
            return
        sym = _symbolic(key)
        en = [key, value, sym]
        self._entries.append(en)
        if sym:
            self._nsym += 1
        else:
            self._index[key] = en

    def _drop(self, en):
        for i, x in enumerate(self._entries):
            if x is en:
                del self._entries[i]
                break
        if en[2]:
            self._nsym -= 1
        else:
            del self._index[en[0]]

    def __delitem__(self, key):
        en = self._find(key)
        if en is None:
            raise KeyError(key)
        self._drop(en)

    def __contains__(self, key):
        return self._find(key) is not None

    def __iter__(self):
        n = len(self._entries)
        for en in list(self._entries):
            if len(self._entries) != n:
                raise RuntimeError("dictionary changed size during iteration")
            yield en[0]

    def __reversed__(self):
        return reversed([en[0] for en in self._entries])

    def __len__(self):
        return len(self._entries)

    def get(self, key, default=None):
        en = self._find(key)
        return default if en is None else en[1]

    def pop(self, key, default=_MISSING):
        en = self._find(key)
        if en is None:
            if default is _MISSING:
                raise KeyError(key)
            return default
        self._drop(en)
        return en[1]

    def popitem(self):
        if not self._entries:
            raise KeyError("popitem(): dictionary is empty")
        en = self._entries[-1]
        self._drop(en)
        return en[0], en[1]

    def clear(self):
        self._entries = []
        self._index = {}
        self._nsym = 0

    def copy(self):
        return SymDict(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        new = SymDict()
        memo[id(self)] = new
        for k, v, _ in self._entries:
            new[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return new

    def update(self, *args, **kwargs):
        if args:
            src = args[0]
            if hasattr(src, "keys"):
                for k in list(src.keys()):
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kwargs.items():
            self[k] = v

    @classmethod
    def fromkeys(cls, it, value=None):
        d = cls()
        for k in it:
            d[k] = value
        return d

    def __or__(self, o):
        d = SymDict(self)
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __class_getitem__(cls, item):
        return cls

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v, _ in self._entries) + "}"


class SymSet(MutableSet):
    """Set with solver-decided membership.  pop() and iteration follow insertion order."""

    __slots__ = ("_d", "__weakref__")

    def __init__(self, it=()):
        self._d = SymDict()
        for x in it:
            self._d[x] = None

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def add(self, x):
        if x not in self._d:
            self._d[x] = None

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        if not self._d:
            raise KeyError("pop from an empty set")
        e = E.current()
        choose = e.path_state.get("set_pop") if e is not None else None
        if choose is not None:  # sets have no order of their own: the harness decides
            x = self._d._entries[choose(len(self._d))][0]
            del self._d[x]
            return x
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def copy(self):
        return SymSet(self)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def difference(self, *its):
        r = self.copy()
        for it in its:
            for x in it:
                r.discard(x)
        return r

    def intersection(self, it):
        o = SymSet(it)
        return SymSet(x for x in self if x in o)

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def symmetric_difference(self, it):
        return self ^ SymSet(it)

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def issubset(self, it):
        o = SymSet(it)
        return all(x in o for x in self)

    def issuperset(self, it):
        return all(x in self for x in it)

    @classmethod
    def _from_iterable(cls, it):
        return cls(it)

    def __deepcopy__(self, memo):
        import copy

        return SymSet(copy.deepcopy(x, memo) for x in self)

    def __class_getitem__(cls, item):
        return cls

    def __repr__(self):
        return "{" + ", ".join(map(repr, self)) + "}"
