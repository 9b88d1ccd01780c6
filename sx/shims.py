"""Stand-ins for builtins and numeric libraries seen by the code under test.

They behave exactly as the originals on concrete values; on symbolic values they build terms.
The numpy stand-in keeps numpy itself (object arrays) and only re-implements what numpy cannot do
on symbolic entries.
"""
import builtins
import cmath as _cmath
import math as _math
import collections
import functools
import types
from fractions import Fraction
from collections.abc import Sequence

import numpy as _np

from sx import engine as E
from sx.containers import SymDict, SymSet
from sx.cyrt import BigInt64, BigLen
from sx.values import (
    Poly, SymAtom, SymBool, SymC, SymInt, cexp, close_cond, eng, is_sym, mkint, psqrt, reciprocal, to_c,
    to_poly, trig, SymBool as _SB, zbool,
)
import z3

# -------------------------------------------------------------- builtins
class _Meta(type):
    """Classes standing for built-in types: calls convert, isinstance accepts symbolic values."""

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __instancecheck__(cls, o):
        if builtins.isinstance(o, cls._base) or builtins.isinstance(o, cls._sym):
            return True
        return cls._base is int and builtins.isinstance(o, SymBool)

    def __subclasscheck__(cls, c):
        if builtins.isinstance(c, _Meta):
            return builtins.issubclass(c._base, cls._base)
        return builtins.issubclass(c, cls._base)

    def __getattr__(cls, n):
        return getattr(cls._base, n)

    def __eq__(cls, o):
        return cls is o or o is cls._base

    def __hash__(cls):
        return builtins.hash(cls._base)

    def __repr__(cls):
        return builtins.repr(cls._base)


def _conv_int(x=0, *a):
    if builtins.isinstance(x, (SymInt, BigInt64)):
        return x
    if builtins.isinstance(x, SymBool):
        return x._int()
    if builtins.isinstance(x, Poly):
        if x.is_const():
            return int(float(x.cval()))
        return x.__int__()
    if builtins.isinstance(x, SymAtom):
        raise ValueError("invalid literal for int() with base 10")
    return int(x, *a)


def _conv_float(x=0.0):
    if builtins.isinstance(x, Poly):
        return x
    if builtins.isinstance(x, SymC) and not x.im.t:
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    if builtins.isinstance(x, (SymInt, SymBool)):
        return to_poly(x)
    if builtins.isinstance(x, str):
        e = E.current()
        if e is not None and x in e.tokens:
            return _conv_float(e.tokens[x])
    return float(x)


def _conv_complex(x=0.0, y=0.0):
    if is_sym(x) or is_sym(y):
        return to_c(x) + to_c(y) * 1j
    return complex(x, y)


def _conv_str(x="", *a):
    return x if builtins.isinstance(x, SymAtom) else str(x, *a)


def _mk(name, base, sym, conv):
    return _Meta(name, (), {"_base": base, "_sym": sym, "_conv": staticmethod(conv), "__module__": "builtins"})


sx_int = _mk("int", int, (SymInt, BigInt64), _conv_int)
sx_float = _mk("float", float, (Poly,), _conv_float)
sx_complex = _mk("complex", complex, (SymC,), _conv_complex)
sx_str = _mk("str", str, (SymAtom,), _conv_str)
_BY_BASE = {int: sx_int, float: sx_float, complex: sx_complex, str: sx_str}


def sx_type(x):
    t = builtins.type(x)
    if t in (int, SymInt):
        return sx_int
    if t in (float, Poly):
        return sx_float
    if t in (complex, SymC):
        return sx_complex
    if t in (str, SymAtom):
        return sx_str
    if t is SymBool:
        return bool
    if t is dict:
        return SymDict
    if t is set:
        return SymSet
    return t


def sx_isinstance(obj, cls):
    if builtins.isinstance(cls, tuple):
        return any(sx_isinstance(obj, c) for c in cls)
    if cls is SymDict:
        return builtins.isinstance(obj, (dict, SymDict))
    if cls is SymSet:
        return builtins.isinstance(obj, (set, SymSet))
    if cls is bool:
        return builtins.isinstance(obj, (bool, SymBool))
    if builtins.isinstance(cls, types.UnionType):
        return any(sx_isinstance(obj, c) for c in cls.__args__)
    if cls is Sequence and builtins.isinstance(obj, SymAtom):
        return True
    return builtins.isinstance(obj, cls)


def sx_issubclass(c, cls):
    if builtins.isinstance(cls, tuple):
        return any(sx_issubclass(c, x) for x in cls)
    return builtins.issubclass(c, cls)


class SymFrozenSet(SymSet):
    __slots__ = ()

    def __hash__(self):
        for x in self:
            builtins.hash(x)
        E.current().hash_flag = True
        return 0


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        super().__init__(*a, **k)

    def __getitem__(self, key):
        en = self._find(key)
        if en is not None:
            return en[1]
        if self.default_factory is None:
            raise KeyError(key)
        self[key] = v = self.default_factory()
        return v


class SymCounter(SymDict):
    def __init__(self, it=(), **k):
        super().__init__()
        self.update(it, **k)

    def update(self, it=(), **k):
        if hasattr(it, "keys"):
            for x in it:
                self[x] = self.get(x, 0) + it[x]
        else:
            for x in it:
                self[x] = self.get(x, 0) + 1

    def __getitem__(self, key):
        return self.get(key, 0)


def _lru_cache(maxsize=128, typed=False):
    """functools.lru_cache with solver-aware keys (eviction beyond maxsize included)."""
    if callable(maxsize):
        return _lru_cache(128)(maxsize)

    def deco(f):
        store = SymDict()

        @functools.wraps(f)
        def g(*a, **k):
            key = (a, tuple(k.items()))
            if key in store:
                v = store.pop(key)
                store[key] = v
                return v
            v = f(*a, **k)
            store[key] = v
            if maxsize is not None and len(store) > maxsize:
                store._drop(store._entries[0])
            return v

        g.cache_clear = store.clear
        g.__wrapped__ = f
        return g

    return deco


class _ModOver(types.ModuleType):
    def __init__(self, base, **over):
        super().__init__(base.__name__)
        self._base = base
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._base, n)


MODULES = {
    "collections": _ModOver(
        collections, OrderedDict=SymDict, defaultdict=SymDefaultDict, Counter=SymCounter
    ),
    "functools": _ModOver(functools, lru_cache=_lru_cache, cache=_lru_cache(None)),
}


def sx_hash(x):
    """hash(); in hash-term mode symbolic strings hash to an uninterpreted function of their code."""
    e = E.current()
    if e is not None and e.hash_terms and builtins.isinstance(x, SymAtom):
        f = z3.Function(f"hash{x.parts or ('', '')}", z3.IntSort(), z3.IntSort())
        return SymInt(f(x.z))
    return builtins.hash(x)


def sx_round(x, n=None):
    if builtins.isinstance(x, SymInt):
        return x
    return builtins.round(x) if n is None else builtins.round(x, n)


def sx_abs(x):
    return abs(x)


def sx_all(it):
    for x in it:
        if not x:
            return False
    return True


BUILTINS = {
    "isinstance": sx_isinstance,
    "int": sx_int,
    "float": sx_float,
    "complex": sx_complex,
    "str": sx_str,
    "hash": sx_hash,
    "issubclass": sx_issubclass,
    "dict": SymDict,
    "set": SymSet,
    "frozenset": SymFrozenSet,
}


def mk_dict(pairs):
    return SymDict(pairs)


def mk_set(items):
    return SymSet(items)


# -------------------------------------------------------------- math / cmath
class _Mod(types.ModuleType):
    def __init__(self, base, **over):
        super().__init__(base.__name__)
        self._base = base
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._base, n)


def _m1(f, g):
    def h(x):
        return g(x) if is_sym(x) else f(x)

    return h


def _sym_real(x):
    if builtins.isinstance(x, SymC):
        if x.im.t:
            raise TypeError("must be real number, not complex")
        return x.re
    return to_poly(x)


math = _Mod(
    _math,
    sqrt=_m1(_math.sqrt, lambda x: psqrt(_sym_real(x))),
    cos=_m1(_math.cos, lambda x: trig(_sym_real(x))[0]),
    sin=_m1(_math.sin, lambda x: trig(_sym_real(x))[1]),
    isclose=lambda a, b, **k: (
        _SB(zbool(_mclose(a, b, **k))) if is_sym(a) or is_sym(b) else _math.isclose(a, b, **k)
    ),
    floor=lambda x: x.__floor__() if is_sym(x) else _math.floor(x),
    ceil=lambda x: x.__ceil__() if is_sym(x) else _math.ceil(x),
    trunc=lambda x: x.__trunc__() if is_sym(x) else _math.trunc(x),
    fmod=lambda x, y: x.fmod(y) if is_sym(x) else _math.fmod(x, y),
    remainder=lambda x, y: x - y * (x / y).__round__() if is_sym(x) else _math.remainder(x, y),
    radians=lambda x: x * (_math.pi / 180) if is_sym(x) else _math.radians(x),
    degrees=lambda x: x * (180 / _math.pi) if is_sym(x) else _math.degrees(x),
    tan=_m1(_math.tan, lambda x: trig(_sym_real(x))[1] / trig(_sym_real(x))[0]),
    isnan=_m1(_math.isnan, lambda x: False),
    isinf=_m1(_math.isinf, lambda x: False),
    isfinite=_m1(_math.isfinite, lambda x: True),
    fabs=_m1(_math.fabs, abs),
    hypot=lambda *a: psqrt(sum((to_poly(x) * to_poly(x) for x in a), Poly({}))) if any(map(is_sym, a)) else _math.hypot(*a),
)

cmath = _Mod(
    _cmath,
    exp=_m1(_cmath.exp, cexp),
    sqrt=_m1(_cmath.sqrt, lambda x: psqrt(_sym_real(x))),
    cos=_m1(_cmath.cos, lambda x: to_c(trig(_sym_real(x))[0])),
    sin=_m1(_cmath.sin, lambda x: to_c(trig(_sym_real(x))[1])),
    rect=lambda r, phi: (to_c(trig(to_poly(phi))[0] * r) + to_c(trig(to_poly(phi))[1] * r) * 1j)
    if is_sym(r) or is_sym(phi)
    else _cmath.rect(r, phi),
    isclose=lambda a, b, **k: (
        _SB(zbool(_mclose(a, b, **k))) if is_sym(a) or is_sym(b) else _cmath.isclose(a, b, **k)
    ),
)


# -------------------------------------------------------------- numpy
class Arr(_np.ndarray):
    """Object array that keeps symbolic values when it is cast to a number type."""

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        if self.dtype == object and _is_numeric_dtype(dtype):
            return self.copy(order=order) if copy else self
        return _np.ndarray.astype(self, dtype, order, casting, subok, copy)

    complex_dtype = False  # the real array would have a complex dtype

    def __array_finalize__(self, obj):
        self.complex_dtype = getattr(obj, "complex_dtype", False)

    @property
    def real(self):
        return _parts(self, "real") if self.dtype == object else _np.ndarray.real.__get__(self)

    @real.setter
    def real(self, v):
        if self.dtype != object:
            _np.ndarray.real.__set__(self, v)
        else:
            self[...] = _np.asarray(v, dtype=object) + _parts(self, "imag") * 1j

    @property
    def imag(self):
        return _parts(self, "imag") if self.dtype == object else _np.ndarray.imag.__get__(self)

    @imag.setter
    def imag(self, v):
        if self.dtype != object:
            _np.ndarray.imag.__set__(self, v)
        else:
            self[...] = _parts(self, "real") + _np.asarray(v, dtype=object) * 1j


def _parts(a, name):
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(a.shape):
        x = a[i]
        out[i] = x if name == "real" and builtins.isinstance(x, (int, float)) else getattr(x, name)
    return out.view(Arr)


def _iscomplexobj(x):
    if builtins.isinstance(x, _np.ndarray) and x.dtype == object:
        return bool(getattr(x, "complex_dtype", False)) or any(builtins.isinstance(v, (complex, SymC)) for v in x.flat)
    if has_sym(x):
        return _iscomplexobj(_np.array(x, dtype=object))
    return _np.iscomplexobj(x)


def _dtyped(a, dtype):
    if builtins.isinstance(a, Arr) and dtype is not None and _np.dtype(dtype).kind == "c":
        a.complex_dtype = True
    return a


def sarr(a):
    return a.view(Arr) if builtins.isinstance(a, _np.ndarray) and a.dtype == object else a


def _plain(a):
    return a.view(_np.ndarray) if builtins.isinstance(a, Arr) else a


def has_sym(x):
    if is_sym(x):
        return True
    if builtins.isinstance(x, _np.ndarray):
        return x.dtype == object and any(is_sym(v) for v in x.flat)
    if builtins.isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


_NUMKINDS = "fc"


def _is_numeric_dtype(dtype):
    if dtype is None:
        return False
    dtype = _fix_dtype(dtype)
    try:
        return _np.dtype(dtype).kind in _NUMKINDS
    except TypeError:
        return False


def _fix_dtype(dtype):
    return dtype._base if builtins.isinstance(dtype, _Meta) else dtype


def _array(x, dtype=None, copy=True, order=None, **kw):
    dtype = _fix_dtype(dtype)
    if has_sym(x):
        if dtype is not None and _np.dtype(dtype).kind == "b":
            x = _np.array(x, dtype=object)
            return _np.array([bool(v) for v in x.flat], dtype=bool).reshape(x.shape)
        if builtins.isinstance(x, _np.ndarray):
            return _dtyped(sarr(_np.array(x, dtype=object, copy=copy, order=order or "K", subok=True)), dtype)
        return _dtyped(sarr(_np.array(x, dtype=object, order=order or "C")), dtype)
    return _np.array(_plain(x), dtype=dtype, copy=copy, order=order or "K", **kw)


def _asarray(x, dtype=None, **kw):
    dtype = _fix_dtype(dtype)
    if dtype is not None and has_sym(x) and _np.dtype(dtype).kind == "b":
        return _array(x, dtype)
    if builtins.isinstance(x, _np.ndarray) and x.dtype == object:
        return x
    if has_sym(x):
        return sarr(_np.array(x, dtype=object))
    return _np.asarray(x, dtype=dtype, **kw)


def _ascontiguous(x, dtype=None, **kw):
    dtype = _fix_dtype(dtype)
    x = _asarray(x)
    if x.dtype == object:
        return sarr(_np.ascontiguousarray(x))
    return _np.ascontiguousarray(x, dtype=dtype)


def _symobj(a):
    """Object arrays for numeric buffers, so that symbolic values can be stored later."""
    return _dtyped(sarr(a.astype(object)), a.dtype)


def _in_path():
    return E.current() is not None


def _zeros(shape, dtype=float, **kw):
    a = _np.zeros(shape, dtype=_fix_dtype(dtype), **kw)
    return _symobj(a) if a.dtype.kind in _NUMKINDS and _in_path() else a


def _ones(shape, dtype=float, **kw):
    a = _np.ones(shape, dtype=_fix_dtype(dtype), **kw)
    return _symobj(a) if a.dtype.kind in _NUMKINDS and _in_path() else a


def _empty(shape, dtype=float, **kw):
    return _zeros(shape, dtype, **kw)


def _full(shape, v, dtype=None, **kw):
    if is_sym(v):
        return sarr(_np.full(shape, v, dtype=object))
    a = _np.full(shape, v, dtype=_fix_dtype(dtype), **kw)
    return _symobj(a) if a.dtype.kind in _NUMKINDS and _in_path() else a


def _eye(n, *a, dtype=float, **kw):
    a = _np.eye(n, *a, dtype=_fix_dtype(dtype), **kw)
    return _symobj(a) if a.dtype.kind in _NUMKINDS and _in_path() else a


def _u1(name, g):
    f = getattr(_np, name)

    def h(x, *a, **k):
        if is_sym(x):
            return g(x)
        if builtins.isinstance(x, (_np.ndarray, list, tuple)) and has_sym(x):
            arr = _np.array(x, dtype=object)
            out = _np.empty(arr.shape, dtype=object)
            for i in _np.ndindex(arr.shape):
                out[i] = g(arr[i])
            return sarr(out)
        if builtins.isinstance(x, _np.ndarray) and x.dtype == object:
            x = _plain(x).astype(complex)
            if not _np.any(x.imag):
                x = x.real
        return f(x, *a, **k)

    return h


def _norm(x, ord=None, axis=None, **k):
    if has_sym(x):
        x = _np.asarray(x, dtype=object)
        if axis is not None and ord in (None, 2) and builtins.isinstance(axis, (int, sx_int)):
            rows = _np.moveaxis(x, axis, -1)
            out = _np.empty(rows.shape[:-1], dtype=object)
            for i in _np.ndindex(out.shape):
                out[i] = _norm(rows[i])
            return sarr(out)
        if axis is not None or not (ord is None or (ord == 2 and x.ndim == 1) or ord == "fro"):
            raise NotImplementedError("norm variant on symbolic data")
        s = Poly({})
        for v in x.flat:
            c = to_c(v)
            s = s + c.re * c.re + c.im * c.im
        return psqrt(s)
    x = _np.asarray(x)
    if x.dtype == object:
        x = _plain(x).astype(complex)
    return _np.linalg.norm(x, ord=ord, axis=axis, **k)


def _bare(x):
    """Whether x is a real input as it is."""
    if not builtins.isinstance(x, Poly) or len(x.t) != 1:
        return False
    ((m, c),) = x.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return False
    v = eng().real_vars.get(m[0][0])
    return v is not None and v.kind in ("real", "angle") and m[0][0] in eng().inputs


def _within(a, b, rel, tol, both):
    """Closeness of two inputs: they differ by at most tol + rel * |b| (or max(tol, rel * max(|a|, |b|)))."""
    x, y = a.z(), b.z()
    d, p, q = (z3.If(v >= 0, v, -v) for v in (x - y, x, y))
    rel, tol = (z3.RealVal(str(Fraction(v))) for v in (rel, tol))
    if both:
        return z3.Or(d <= tol, d <= rel * p, d <= rel * q)
    return d <= tol + rel * q


def _mclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if _bare(a) and _bare(b) and not is_sym(rel_tol) and not is_sym(abs_tol):
        return _within(a, b, rel_tol, abs_tol, True)
    return close_cond(a, b)


def _near(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    """numpy's closeness: exact equality, unless wider tolerances than usual are asked for."""
    for x in (a, b):
        if not builtins.isinstance(x, (builtins.int, builtins.float, builtins.complex, Fraction, _np.number, _np.bool_)) and not is_sym(x):
            raise TypeError("ufunc 'isfinite' not supported for the input types")
    if _bare(a) and _bare(b) and not is_sym(rtol) and not is_sym(atol):
        return _within(a, b, rtol, atol, False)
    if is_sym(rtol) or is_sym(atol) or rtol > 1e-4 or atol > 1e-4:
        a, b = to_c(a), to_c(b)
        d = a - b
        lim = to_poly(rtol) * psqrt(b.re * b.re + b.im * b.im) + to_poly(atol)
        return zbool((d.re * d.re + d.im * d.im) <= lim * lim)
    return close_cond(a, b)


def _isclose(a, b, *args, **k):
    if has_sym(a) or has_sym(b):
        close_cond = lambda x, y: _near(x, y, *args, **k)
        if not builtins.isinstance(a, (list, tuple, _np.ndarray)) and not builtins.isinstance(b, (list, tuple, _np.ndarray)):
            c = close_cond(a, b)
            return c if builtins.isinstance(c, bool) else _SB(c)
        a, b = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
        out = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(a.shape):
            c = close_cond(a[i], b[i])
            out[i] = c if builtins.isinstance(c, bool) else _SB(c)
        return out
    return _np.isclose(_num(a), _num(b), *args, **k)


def _num(a):
    if builtins.isinstance(a, _np.ndarray) and a.dtype == object:
        return _plain(a).astype(complex)
    return a


def _allclose(a, b, *args, **k):
    if has_sym(a) or has_sym(b):
        return sx_all(_np.asarray(_isclose(a, b, *args, **k), dtype=object).flat)
    return _np.allclose(_num(a), _num(b), *args, **k)


def _all(a, *args, **k):
    if has_sym(a):
        return sx_all(_np.asarray(a, dtype=object).flat)
    return _np.all(a, *args, **k)


def _transpose(a, *args):
    if has_sym(a):
        return _np.transpose(_np.asarray(a, dtype=object), *args)
    return _np.transpose(a, *args)


class ScriptedRNG:
    """numpy Generator stand-in: every draw is an arbitrary value of its documented range."""

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            out = _np.empty(size, dtype=object)
            for i in _np.ndindex(out.shape):
                out[i] = self.uniform(low, high)
            return out
        u = E.current().path_state["draw"]()
        return u if (low == 0.0 and high == 1.0) else u * (high - low) + low

    def random(self, size=None, **k):
        return self.uniform(size=size)

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, n):
        raise NotImplementedError(f"random generator method {n} is not modelled")


def _default_rng(seed=None):
    if builtins.isinstance(seed, ScriptedRNG):
        return seed
    e = E.current()
    if e is not None:
        e.path_state.setdefault("rng_seeds", []).append(seed)
    return ScriptedRNG()


class _Random(types.ModuleType):
    Generator = object

    def __init__(self):
        super().__init__("numpy.random")

    default_rng = staticmethod(_default_rng)

    def __getattr__(self, n):
        raise NotImplementedError(f"numpy.random.{n} is not modelled")


def _trace(a, *args, **k):
    if has_sym(a):
        a = _np.asarray(a, dtype=object)
        s = 0
        for i in range(min(a.shape)):
            s = s + a[i, i]
        return s
    a = _np.asarray(a)
    if a.dtype == object:
        a = _plain(a).astype(complex)
    return _np.trace(a, *args, **k)


def _fromiter(it, dtype, count=-1, **k):
    items = list(it) if count < 0 else [x for x, _ in zip(it, range(count))]
    return _array(items, dtype=dtype)


def _isreal_one(x):
    c = to_c(x).im == 0
    return c if builtins.isinstance(c, bool) else bool(c)


_isreal = _u1("isreal", _isreal_one)
_iscomplex = _u1("iscomplex", lambda x: not _isreal_one(x))


def _real_if_close(a, tol=100):
    if not has_sym(a):
        a = _num(_np.asanyarray(a))
        return _np.real_if_close(a, tol=tol)
    a = _asarray(a)
    tol = tol * _np.finfo(float).eps if tol > 1 else tol
    for x in a.flat:
        im = to_c(x).im
        # bounds below the accuracy of the comparisons mean "real"
        near = im == 0 if tol < 1e-10 else abs(im) < tol
        if not near:
            return a
    return a.real


def _vdot(a, b):
    a, b = _np.asarray(a, dtype=object).ravel(), _np.asarray(b, dtype=object).ravel()
    return sum((x.conjugate() * y for x, y in zip(a, b)), 0)


def _log2(x):
    if builtins.isinstance(x, BigLen):
        return x.n
    return _np.log2(x)


_linalg = _Mod(_np.linalg, norm=_norm)

_over = dict(
    array=_array,
    asarray=_asarray,
    asanyarray=_asarray,
    ascontiguousarray=_ascontiguous,
    zeros=_zeros,
    ones=_ones,
    empty=_empty,
    full=_full,
    eye=_eye,
    identity=lambda n, dtype=float: _eye(n, dtype=dtype),
    sqrt=_u1("sqrt", lambda x: psqrt(_sym_real(x))),
    exp=_u1("exp", cexp),
    cos=_u1("cos", lambda x: trig(_sym_real(x))[0]),
    sin=_u1("sin", lambda x: trig(_sym_real(x))[1]),
    abs=_u1("abs", abs),
    absolute=_u1("absolute", abs),
    conj=_u1("conj", lambda x: x.conjugate()),
    conjugate=_u1("conjugate", lambda x: x.conjugate()),
    real=_u1("real", lambda x: x.real),
    imag=_u1("imag", lambda x: x.imag),
    isclose=_isclose,
    allclose=_allclose,
    iscomplexobj=_iscomplexobj,
    isreal=_isreal,
    iscomplex=_iscomplex,
    real_if_close=_real_if_close,
    fromiter=_fromiter,
    tan=_u1("tan", lambda x: trig(_sym_real(x))[1] / trig(_sym_real(x))[0]),
    hypot=lambda x, y: psqrt(to_poly(x) * to_poly(x) + to_poly(y) * to_poly(y)) if is_sym(x) or is_sym(y) else _np.hypot(x, y),
    isrealobj=lambda x: not _iscomplexobj(x),
    all=_all,
    trace=_trace,
    log2=_log2,
    vdot=_vdot,
    transpose=_transpose,
    linalg=_linalg,
    random=_Random(),
    isnan=_u1("isnan", lambda x: False),
    isfinite=_u1("isfinite", lambda x: True),
    float64=lambda x=0.0: sx_float(x) if is_sym(x) else _np.float64(x),
)
# dtype objects must stay usable as dtypes
_over["float64"] = _np.float64

numpy = _Mod(_np, **_over)
numpy.__path__ = []
