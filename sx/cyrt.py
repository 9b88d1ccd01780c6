"""Run-time support for converted Cython code (conversions, memoryviews, C calls)."""
import builtins

import numpy as np

from sx import engine as E
from sx.containers import SymDict
from sx.values import Poly, SymAtom, SymBool, SymC, SymInt, is_sym, to_c, to_poly


class _Null:
    def __bool__(self):
        return False

    def __repr__(self):
        return "NULL"

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


NULL = _Null()


class BigInt64:
    """Symbolic 64-bit unsigned integer handed straight to a C kernel (size-generic checks)."""

    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @staticmethod
    def _z(o):
        import z3

        return o.z if builtins.isinstance(o, BigInt64) else z3.BitVecVal(int(o), 64)

    def __add__(self, o):
        return BigInt64(self.z + self._z(o))

    __radd__ = __add__

    def __sub__(self, o):
        return BigInt64(self.z - self._z(o))

    def __rsub__(self, o):
        return BigInt64(self._z(o) - self.z)

    def __mul__(self, o):
        return BigInt64(self.z * self._z(o))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        import z3

        return BigInt64(z3.UDiv(self.z, self._z(o)))

    def __lt__(self, o):
        return SymBool(self.z < self._z(o))

    def __le__(self, o):
        return SymBool(self.z <= self._z(o))

    def __gt__(self, o):
        return SymBool(self.z > self._z(o))

    def __ge__(self, o):
        return SymBool(self.z >= self._z(o))

    def __eq__(self, o):
        if not builtins.isinstance(o, (int, BigInt64)):
            return NotImplemented
        return SymBool(self.z == self._z(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        import z3

        return r if r is NotImplemented else SymBool(z3.Not(r.z))

    __hash__ = None

    def __round__(self, n=None):
        return self


class BigLen:
    """2 ** n for a symbolic n."""

    def __init__(self, n):
        self.n = n


class BigState:
    """State vector of symbolic length 2^n; kernels append loop summaries to its log."""

    def __init__(self, n):
        self.n = n
        self.log = []
        self.executors = []
        self.shape = (BigLen(n),)


def cy_int(x, lo, hi, typename):
    if builtins.isinstance(x, SymInt):
        if lo <= x <= hi:
            return x
        raise OverflowError(f"value too large to convert to {typename}")
    if builtins.isinstance(x, SymBool):
        return x._int()
    if builtins.isinstance(x, BigInt64):
        return x
    if not hasattr(type(x), "__index__"):
        raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")
    i = x.__index__()
    if i < lo:
        if lo == 0:
            raise OverflowError(f"can't convert negative value to {typename}")
        raise OverflowError(f"value too small to convert to {typename}")
    if i > hi:
        raise OverflowError(f"value too large to convert to {typename}")
    return i


def cy_bint(x):
    return bool(x)


def cy_double(x):
    if builtins.isinstance(x, (SymInt, SymBool)):
        return to_poly(x)
    if builtins.isinstance(x, Poly):
        return x
    if builtins.isinstance(x, SymC):
        raise TypeError("must be real number, not complex")
    return float(x)


def cy_view(x, ndim, contiguous, elemtype):
    if builtins.isinstance(x, BigState):
        return x
    if x is None:
        return None
    if not builtins.isinstance(x, np.ndarray):
        raise TypeError(f"a bytes-like object is required, not '{type(x).__name__}'")
    if x.ndim != ndim:
        raise ValueError(
            f"Buffer has wrong number of dimensions (expected {ndim}, got {x.ndim})"
        )
    if x.dtype != object and x.dtype != np.dtype(complex):
        raise ValueError(
            f"Buffer dtype mismatch, expected 'double complex' but got '{x.dtype}'"
        )
    if not x.flags.writeable:
        raise ValueError("buffer source array is read-only")
    if contiguous and not x.flags.c_contiguous:
        raise ValueError("ndarray is not C-contiguous")
    return x


class Pointer:
    """Address of an array element; element k lies k complex numbers further in memory."""

    __slots__ = ("flat", "start", "array")

    def __init__(self, array, index):
        owner = array
        while builtins.isinstance(owner.base, np.ndarray):
            owner = owner.base
        if owner.flags.c_contiguous:
            flat = owner.reshape(-1)
        elif owner.flags.f_contiguous:
            flat = owner.T.reshape(-1)
        else:
            raise E.Inconclusive("buffer of unknown memory layout")
        addr = array.__array_interface__["data"][0] - owner.__array_interface__["data"][0]
        for i, s, n in zip(index, array.strides, array.shape):
            if i < 0:
                i += n
            if not 0 <= i < n:
                raise IndexError("Out of bounds on buffer access")
            addr += i * s
        assert addr % owner.itemsize == 0
        self.flat, self.start, self.array = flat, addr // owner.itemsize, array

    def read(self, k):
        return self.flat[self._pos(k)]

    def write(self, k, v):
        self.flat[self._pos(k)] = v

    def _pos(self, k):
        p = self.start + k
        if not 0 <= p < len(self.flat):
            raise MemoryFault(f"access to element {k} outside of a buffer of {len(self.flat)}")
        return p


class MemoryFault(Exception):
    pass


def cy_addr(x, index):
    if builtins.isinstance(x, BigState):
        return x
    return Pointer(x, index)


def cy_ext(x, cls):
    if x is None or builtins.isinstance(x, (cls, BigState)):
        return x
    raise TypeError(f"Cannot convert {type(x).__name__} to {cls.__name__}")


def cy_list(x):
    if x is not None and not builtins.isinstance(x, list):
        raise TypeError(f"Expected list, got {type(x).__name__}")
    return x


def cy_castint(x, lo, hi):
    if builtins.isinstance(x, (SymInt, BigInt64)):
        return x
    n = hi - lo + 1
    return (int(x) - lo) % n + lo


def cy_ret(conv):
    def deco(f):
        import functools

        @functools.wraps(f)
        def g(*a, **k):
            return conv(f(*a, **k))

        return g

    return deco


# ------------------------------------------------------------------ CPython C API
def _dict_contains(d, k):
    return 1 if k in d else 0


def _dict_getitem_err(d, k):
    return d[k] if k in d else NULL


def _long_check(x):
    return 1 if builtins.isinstance(x, (int, SymInt, SymBool)) else 0


def _dict_setitem(d, k, v):
    d[k] = v
    return 0


def _dict_delitem(d, k):
    del d[k]
    return 0


CPYTHON = {
    "PyDict_Contains": _dict_contains,
    "PyDict_Size": len,
    "PyDict_GetItemWithError": _dict_getitem_err,
    "PyDict_GetItem": _dict_getitem_err,
    "PyDict_SetItem": _dict_setitem,
    "PyDict_DelItem": _dict_delitem,
    "PyDict_Clear": lambda d: d.clear(),
    "PyDict_Copy": lambda d: d.copy(),
    "PyDict_New": SymDict,
    "PyLong_Check": _long_check,
    "PyInt_Check": _long_check,
    "PyObject": object,
    "PyList_Size": len,
    "PyList_Append": lambda l, x: l.append(x),
    "PyList_GET_SIZE": len,
    "PyObject_Hash": lambda x: hash(x),
}


def runtime(lib):
    from sx import llvm

    def cimport(module, names, g):
        if module.startswith("cpython"):
            for n, a in names:
                if n not in CPYTHON:
                    raise E.Inconclusive(f"C API function {n} is not modelled")
                g[a] = CPYTHON[n]
        elif module.startswith("libc.math"):
            from sx import shims

            for n, a in names:
                g[a] = getattr(shims.math, n)
        elif module.startswith("libc") or module.startswith("libcpp"):
            pass
        elif module.startswith("dwave"):
            try:
                m = lib.pxd(module)
            except ModuleNotFoundError:
                m = lib.get(module)
            for n, a in names:
                if not hasattr(m, n):
                    m = lib.get(module)
                g[a] = getattr(m, n)
        elif module == "numpy":
            pass
        else:
            raise E.Inconclusive(f"cimport of {module}")

    def extern(cname, header, kinds):
        if cname in CPYTHON:
            return CPYTHON[cname]

        def call(*args):
            if lib.snapshot.kernels is None:
                raise E.Inconclusive("kernels are not compiled")
            return llvm.call_kernel(lib.snapshot.kernels, cname, kinds, args)

        call.__name__ = cname
        return call

    return {
        "__cy_int__": cy_int,
        "__cy_bint__": cy_bint,
        "__cy_double__": cy_double,
        "__cy_view__": cy_view,
        "__cy_ext__": cy_ext,
        "__cy_list__": cy_list,
        "__cy_cimport__": cimport,
        "__cy_extern__": extern,
        "__cy_NULL__": NULL,
        "__cy_addr__": cy_addr,
        "__cy_castint__": cy_castint,
        "__cy_ret__": cy_ret,
    }
