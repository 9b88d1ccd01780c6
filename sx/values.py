"""Symbolic values handed to the code under test.

SymBool  - z3 Bool; its truth value is decided (forked) by the engine
SymInt   - z3 Int (Python's unbounded integers)
SymAtom  - opaque string (identifier/label): only equality and concatenation
Poly     - real number: polynomial with rational coefficients over real variables
SymC     - complex number: pair of Poly

Floats are modelled as exact reals (their binary value); rounding is outside the model.  When two
reals are compared for (approximate) equality, coefficients below SNAP are dropped, which accounts
for the rounding of constants such as sqrt(2)/2 (all variables of the harnesses are bounded).
"""
import math
import numbers
import re
from fractions import Fraction

import numpy as np
import z3

from sx import engine as E

SNAP = Fraction(1, 10**10)


def eng():
    e = E.current()
    if e is None:
        raise RuntimeError("symbolic value used outside of a path")
    return e


# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return eng().branch(self.z)

    def __and__(self, o):
        return SymBool(z3.And(self.z, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, zbool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.z, zbool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def _int(self):
        return SymInt(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.z == zbool(o))
        return self._int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        eng().hash_flag = True
        return 0

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self


def zbool(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def mkbool(z):
    """Simplify; return a Python bool when decided."""
    if isinstance(z, bool):
        return z
    s = z3.simplify(z)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(s)


# ------------------------------------------------------------------ integers
class SymInt:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def _o(self, o):
        if isinstance(o, SymInt):
            return o.z
        if isinstance(o, SymBool):
            return o._int().z
        if isinstance(o, (bool, int, np.integer)):
            return z3.IntVal(int(o))
        return None

    def _cmp(self, o, f):
        z = self._o(o)
        if z is not None:
            return mkbool(f(self.z, z))
        if isinstance(o, (float, Fraction)):
            if math.isnan(o):
                return False
            if math.isinf(o):
                return f(0, 1 if o > 0 else -1)
            fr = Fraction(o)
            return mkbool(f(z3.ToReal(self.z), z3.RealVal(str(fr))))
        if isinstance(o, Poly):
            return mkbool(f(z3.ToReal(self.z), o.z()))
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _bin(self, o, f):
        z = self._o(o)
        if z is None:
            if isinstance(o, (float, Poly, Fraction)):
                return NotImplemented
            return NotImplemented
        return mkint(f(self.z, z))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.z < 0, -self.z, self.z))

    def __floordiv__(self, o):
        return self._divmod(o)[0]

    def __mod__(self, o):
        return self._divmod(o)[1]

    def _divmod(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.z / o), mkint(self.z % o)
        i = self.__index__()
        return i // o, i % o

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % (self,)
        return o % self.__index__()

    def __lshift__(self, o):
        return self.__index__() << (o.__index__())

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self.__index__() >> o.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        return self.__index__() & o.__index__()

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | o.__index__()

    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ o.__index__()

    __rxor__ = __xor__

    def __pow__(self, o):
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __truediv__(self, o):
        return to_poly(self) / o

    def __rtruediv__(self, o):
        return o / to_poly(self)

    def __bool__(self):
        return eng().branch(self.z != 0)

    def __index__(self):
        return eng().choose(self.z)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __round__(self, n=None):
        return self

    def __hash__(self):
        eng().hash_flag = True
        return 0

    def __repr__(self):
        return token(self)

    __str__ = __repr__

    def __format__(self, spec):
        return token(self)

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self

    def bit_length(self):
        return self.__index__().bit_length()

    def isdigit(self):
        return True


def mkint(z):
    s = z3.simplify(z)
    if z3.is_int_value(s):
        return s.as_long()
    return SymInt(s)


numbers.Number.register(SymInt)


# ------------------------------------------------------------------ opaque strings
class SymAtom:
    """An opaque, non-empty string known only up to equality (z3 Int code)."""

    __slots__ = ("z", "parts")

    def __init__(self, z, parts=None):
        self.z = z
        self.parts = parts  # concatenation with fixed strings: (before, after)

    def __eq__(self, o):
        if isinstance(o, SymAtom):
            if (self.parts or ("", "")) != (o.parts or ("", "")):
                return False
            return mkbool(self.z == o.z)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        eng().hash_flag = True
        return 0

    def __add__(self, o):
        if isinstance(o, str):
            b, a = self.parts or ("", "")
            return SymAtom(self.z, (b, a + o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            b, a = self.parts or ("", "")
            return SymAtom(self.z, (o + b, a))
        return NotImplemented

    def __bool__(self):
        return True

    def __len__(self):
        return 4

    def __iter__(self):
        raise TypeError("opaque string iterated")

    def lower(self):
        return self

    def __repr__(self):
        return token(self)

    __str__ = __repr__

    def __format__(self, spec):
        return token(self)

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self


# ------------------------------------------------------------------ text tokens
def token(v):
    """A printable stand-in for a symbolic value; equal text only for identical terms."""
    e = eng()
    key = (type(v).__name__, v.key() if isinstance(v, Poly) else (v.z.sexpr() if hasattr(v, "z") and not callable(v.z) else id(v)))
    if isinstance(v, SymC):
        key = ("SymC", v.re.key(), v.im.key())
    if isinstance(v, SymAtom):
        key = key + (v.parts,)
    if key not in e.token_ids:
        t = f"\u27ea{len(e.token_ids)}\u27eb"
        e.token_ids[key] = t
        e.tokens[t] = v
    return e.token_ids[key]


def rounded(v, spec):
    """What is printed with a precision: the decimal next to the value."""
    m = re.fullmatch(r"[ +-]?\d*(?:\.(\d+))?([feg]?)", spec)
    if not m:
        raise E.Inconclusive(f"format specification {spec!r}")
    if m.group(2) == "f":
        return decimals(v, int(m.group(1) or 6))
    if not m.group(1) and not m.group(2):
        return v
    n = int(m.group(1) or 6) + (m.group(2) == "e")
    return v if n >= 17 else significant(v, n)


def significant(v, n):
    """A number that agrees with the value in n digits (any such number)."""
    z = v.z()
    r = new_var(eng().unique("rounded"))
    a = z3.If(z >= 0, z, -z) * z3.Q(1, 10 ** (n - 1))
    eng().add(z3.And(r.z - z <= a, z - r.z <= a))
    return Poly.var(r)


def decimals(v, n):
    k = z3.ToInt(v.z() * 10**n + z3.Q(1, 2))
    r = new_var(eng().unique("rounded"))
    eng().add(r.z * 10**n == z3.ToReal(k))
    return Poly.var(r)


# ------------------------------------------------------------------ reals
# variables: name -> z3 Real, stored per path in engine.real_vars
# a cosine variable has a partner: monomials containing c^2 are rewritten to 1 - s^2


class Var:
    __slots__ = ("name", "z", "kind", "partner")

    def __init__(self, name, kind="real", partner=None):
        self.name, self.kind, self.partner = name, kind, partner
        self.z = z3.Real(name)


def new_var(name, kind="real", partner=None):
    e = eng()
    if name in e.real_vars:
        k = 2
        while f"{name}#{k}" in e.real_vars:
            k += 1
        name = f"{name}#{k}"
    v = Var(name, kind, partner)
    e.real_vars[name] = v
    return v


ONE = ()


class Poly:
    """Real polynomial; monomial = tuple of (varname, exponent) sorted by name."""

    __slots__ = ("t", "_z")

    def __init__(self, terms):
        self.t = terms
        self._z = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({ONE: c} if c else {})

    @staticmethod
    def var(v):
        return Poly({((v.name, 1),): Fraction(1)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def cval(self):
        return self.t.get(ONE, Fraction(0))

    def key(self):
        return tuple(sorted(self.t.items()))

    def z(self):
        if self._z is None:
            rv = eng().real_vars
            parts = []
            for m, c in sorted(self.t.items()):
                fs = []
                if c != 1 or not m:
                    fs.append(z3.RealVal(str(c)))
                for n, k in m:
                    fs.extend([rv[n].z] * k)
                parts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
                if sum(k for _, k in m) > 1:
                    eng().nonlinear = True
            if not parts:
                self._z = z3.RealVal(0)
            elif len(parts) == 1:
                self._z = parts[0]
            else:
                self._z = z3.Sum(*parts)
        return self._z

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return to_c(self) + o
        o = to_poly(o)
        if o is None:
            return NotImplemented
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return to_c(self) - o
        o = to_poly(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return to_c(o) - to_c(self)
        o = to_poly(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return to_c(self) * o
        o = to_poly(o)
        if o is None:
            return NotImplemented
        if not self.t or not o.t:
            return Poly({})
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                for m, c in _mulmono(m1, m2):
                    n = t.get(m, 0) + c1 * c2 * c
                    if n:
                        t[m] = n
                    else:
                        t.pop(m, None)
        return Poly(t)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return to_c(self) / o
        o = to_poly(o)
        if o is None:
            return NotImplemented
        if o.is_const():
            if o.cval() == 0:
                raise ZeroDivisionError("division by zero")
            return self * Poly.const(1 / o.cval())
        return self * reciprocal(o)

    def __rtruediv__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return to_c(o) / to_c(self)
        o = to_poly(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, k):
        if isinstance(k, (int, float)) and k == int(k) and k >= 0:
            r = Poly.const(1)
            for _ in range(int(k)):
                r = r * self
            return r
        if k == 0.5:
            return psqrt(self)
        if k == -0.5:
            return reciprocal(psqrt(self))
        if k == -1:
            return reciprocal(self)
        return NotImplemented

    def __abs__(self):
        if self.is_const():
            return Poly.const(abs(self.cval()))
        if eng().branch(self.z() >= 0):
            return self
        return -self

    # -- rounding to integers: forks over every integer within the bounds
    def __floor__(self):
        if self.is_const():
            return math.floor(self.cval())
        return eng().choose(z3.ToInt(self.z()))

    def __ceil__(self):
        return -(-self).__floor__()

    def __trunc__(self):
        return self.__floor__() if self >= 0 else self.__ceil__()

    def __round__(self, digits=None):
        if digits is not None:
            raise TypeError("rounding a symbolic real to decimals")
        k = (self + Fraction(1, 2)).__floor__()
        if k % 2 and self + Fraction(1, 2) == k:  # halves go to the even neighbour
            k -= 1
        return k

    def __floordiv__(self, o):
        o = to_poly(o)
        if o is None or not o.is_const():
            return NotImplemented
        return Poly.const(Fraction((self * (1 / o.cval())).__floor__()))

    def __mod__(self, o):
        q = self.__floordiv__(o)
        return q if q is NotImplemented else self - q * to_poly(o)

    def __divmod__(self, o):
        q = self.__floordiv__(o)
        return q if q is NotImplemented else (q, self - q * to_poly(o))

    def fmod(self, o):
        o = to_poly(o)
        q = (self * (1 / o.cval())).__trunc__()
        return self - o * Poly.const(Fraction(q))

    # -- comparisons
    def _cmp(self, o, f):
        o = to_poly(o)
        if o is None:
            return NotImplemented
        d = self - o
        if d.is_const():
            return bool(f(d.cval(), 0))
        # exact in the reals: constants are taken at their binary value
        return mkbool(f(d.z(), z3.RealVal(0)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            if o.imag != 0:
                return False
            o = o.real
        if isinstance(o, SymC):
            return o == self
        r = self._cmp(o, lambda a, b: a == b)
        if isinstance(r, SymBool) and isinstance(o, Poly):
            link_angles(self - o)
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r

    def __bool__(self):
        if self.is_const():
            return self.cval() != 0
        return eng().branch(self.z() != 0)

    def __hash__(self):
        eng().hash_flag = True
        return 0

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise TypeError("symbolic real cannot be realised as float")

    def __complex__(self):
        if self.is_const():
            return complex(float(self.cval()))
        raise TypeError("symbolic real cannot be realised as complex")

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        raise TypeError("symbolic real cannot be realised as int")

    def __round__(self, n=None):
        if self.is_const():
            return round(float(self.cval()), n) if n is not None else round(float(self.cval()))
        if n is None:
            return SymInt(z3.ToInt(self.z() + z3.Q(1, 2)))
        return decimals(self, int(n))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Poly({})

    def conjugate(self):
        return self

    conj = conjugate

    def sqrt(self):
        return psqrt(self)

    def cos(self):
        return trig(self)[0]

    def sin(self):
        return trig(self)[1]

    def exp(self):
        return cexp(SymC(self, Poly({})))

    def __repr__(self):
        if self.is_const():
            return repr(float(self.cval()))
        return token(self)

    __str__ = __repr__

    def __format__(self, spec):
        if self.is_const():
            return format(float(self.cval()), spec)
        if spec:
            return token(rounded(self, spec))
        return token(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def is_integer(self):
        if self.is_const():
            return self.cval().denominator == 1
        raise TypeError("symbolic real")


numbers.Real.register(Poly)


def _mulmono(m1, m2):
    if not m1:
        return ((m2, 1),)
    if not m2:
        return ((m1, 1),)
    d = dict(m1)
    for n, k in m2:
        d[n] = d.get(n, 0) + k
    return _normmono(d)


def _normmono(d):
    # inverses cancel; c^2 -> 1 - s^2 for cosine variables; squares of roots are expanded
    rv = eng().real_vars
    for n in list(d):
        if n in d and rv[n].kind == "inv":
            v = rv[n].partner
            if v in d:
                k = min(d[n], d[v])
                for x in (n, v):
                    d[x] -= k
                    if not d[x]:
                        del d[x]
            s = rv[v].partner if rv[v].kind == "cos" else None
            if s and n in d and d.get(s, 0) >= 2:  # s^2/c -> (1 - c^2)/c
                rest = dict(d)
                rest[s] -= 2
                if not rest[s]:
                    del rest[s]
                rest2 = dict(rest)
                rest2[v] = 2
                return tuple(_normmono(rest)) + tuple((m, -c) for m, c in _normmono(rest2))
    for n, k in d.items():
        if k >= 2 and rv[n].kind == "sqrt":
            rest = dict(d)
            rest[n] = k - 2
            if not rest[n]:
                del rest[n]
            out = Poly({tuple(sorted(rest.items())): Fraction(1)}) * rv[n].partner
            return tuple(out.t.items())
        if k >= 2 and rv[n].kind == "cos":
            rest = dict(d)
            rest[n] = k - 2
            if not rest[n]:
                del rest[n]
            s = rv[n].partner
            plus = _normmono(rest)
            rest2 = dict(rest)
            rest2[s] = rest2.get(s, 0) + 2
            return tuple(plus) + tuple((m, -c) for m, c in _normmono(rest2))
    return ((tuple(sorted(d.items())), 1),)


def to_poly(o):
    if isinstance(o, Poly):
        return o
    if isinstance(o, (bool, int, Fraction)):
        return Poly.const(o)
    if isinstance(o, (float, np.floating)):
        if math.isnan(o) or math.isinf(o):
            return None
        return Poly.const(Fraction(float(o)))
    if isinstance(o, np.integer):
        return Poly.const(int(o))
    if isinstance(o, np.bool_):
        return Poly.const(int(o))
    if isinstance(o, SymInt):
        e = eng()
        name = f"int:{o.z.sexpr()}"
        if name not in e.real_vars:
            v = Var(name)
            v.z = z3.ToReal(o.z)
            e.real_vars[name] = v
        return Poly.var(e.real_vars[name])
    if isinstance(o, SymBool):
        return to_poly(o._int())
    return None


def reciprocal(p):
    """1/p (p != 0 is checked as Python would: ZeroDivisionError)."""
    if p.is_const():
        return Poly.const(1 / p.cval())
    e = eng()
    cache = e.path_state.setdefault("recip", {})
    key = p.key()
    if key in cache:
        return cache[key]
    if e.branch(p.z() == 0):
        raise ZeroDivisionError("division by zero")
    e.nonlinear = True
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        r = Poly.const(1 / c)
        invs = e.path_state.setdefault("invs", {})
        for n, k in m:
            if n not in invs:
                v = invs[n] = new_var("inv:" + n, "inv", n)
                e.add(v.z * e.real_vars[n].z == 1)
            r = r * Poly.var(invs[n]) ** k
    else:
        v = new_var("inv")
        r = Poly.var(v)
        e.add(r.z() * p.z() == 1)
    cache[key] = r
    return r


def _cos_of(s):
    """Cosine variable belonging to a sine variable."""
    for n, v in eng().real_vars.items():
        if v.kind == "cos" and v.partner == s:
            return n
    return None


def _root(p):
    """Exact square root of p as a polynomial over absolute values [(names)], or None."""
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        if c < 0 or any(k % 2 for _, k in m):
            return None
        f = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
        if f * f != c:
            f = Fraction(math.sqrt(float(c)))
        return f, [(n, k // 2) for n, k in m]
    rv = eng().real_vars
    names = {n for m in p.t for n, _ in m if rv[n].kind == "sin"}
    for s in sorted(names):
        a, b = {}, {}
        for m, c in p.t.items():
            k = dict(m).get(s, 0)
            if k == 0:
                a[m] = c
            elif k == 2:
                b[tuple(x for x in m if x[0] != s)] = -c
            else:
                break
        else:
            if a == b:
                q, co = _root(Poly(a)), _cos_of(s)
                if q and co:
                    return q[0], q[1] + [(co, 1)]
    return None


def psqrt(p):
    p = snap(p)
    if p.is_const():
        c = p.cval()
        if c < 0:
            raise ValueError("math domain error")
        f = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
        return Poly.const(f if f * f == c else Fraction(math.sqrt(float(c))))
    e = eng()
    cache = e.path_state.setdefault("sqrt", {})
    key = p.key()
    if key in cache:
        return cache[key]
    q = _root(p)
    if q:
        r = Poly.const(q[0])
        for n, k in q[1]:
            v = Poly.var(e.real_vars[n])
            if k % 2 and not e.branch(v.z() >= 0):
                v = -v
            r = r * v**k
        cache[key] = r
        return r
    v = new_var("sqrt", "sqrt", p)
    r = Poly.var(v)
    e.nonlinear = True
    e.add(z3.And(r.z() >= 0, v.z * v.z == p.z()))
    cache[key] = r
    return r


# ------------------------------------------------------------------ complex
class SymC:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __add__(self, o):
        o = to_c(o)
        if o is None:
            return NotImplemented
        return SymC(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = to_c(o)
        if o is None:
            return NotImplemented
        return SymC(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = to_c(o)
        if o is None:
            return NotImplemented
        return SymC(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        o = to_c(o)
        if o is None:
            return NotImplemented
        return SymC(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __neg__(self):
        return SymC(-self.re, -self.im)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        o = to_c(o)
        if o is None:
            return NotImplemented
        if not o.im.t:
            return SymC(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return SymC(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        o = to_c(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, k):
        if isinstance(k, int) and k >= 0:
            r = SymC(Poly.const(1), Poly({}))
            for _ in range(k):
                r = r * self
            return r
        return NotImplemented

    def conjugate(self):
        return SymC(self.re, -self.im)

    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __abs__(self):
        return psqrt(self.re * self.re + self.im * self.im)

    def __eq__(self, o):
        o = to_c(o)
        if o is None:
            return NotImplemented
        a = self.re == o.re
        b = self.im == o.im
        if a is False or b is False:
            return False
        if a is True and b is True:
            return True
        return SymBool(z3.And(zbool(a), zbool(b)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        eng().hash_flag = True
        return 0

    def exp(self):
        return cexp(self)

    def sqrt(self):
        if not self.im.t:
            return psqrt(self.re)
        raise TypeError("complex sqrt")

    def __complex__(self):
        if self.re.is_const() and self.im.is_const():
            return complex(float(self.re.cval()), float(self.im.cval()))
        raise TypeError("symbolic complex cannot be realised")

    def __float__(self):
        if not self.im.t:
            return float(self.re)
        raise TypeError("can't convert complex to float")

    def __repr__(self):
        if self.re.is_const() and self.im.is_const():
            return repr(complex(self))
        return token(self)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


numbers.Complex.register(SymC)


def to_c(o):
    if isinstance(o, SymC):
        return o
    if isinstance(o, (complex, np.complexfloating)):
        return SymC(Poly.const(Fraction(float(o.real))), Poly.const(Fraction(float(o.imag))))
    p = to_poly(o)
    if p is None:
        return None
    return SymC(p, Poly({}))


# ------------------------------------------------------------------ trigonometry
def angle_parts(p):
    """Split a linear polynomial over angle variables into {name: coeff}, const; None if not."""
    rv = eng().real_vars
    out, c0 = {}, Fraction(0)
    for m, c in p.t.items():
        if m == ONE:
            c0 = c
        elif len(m) == 1 and m[0][1] == 1 and rv[m[0][0]].kind == "angle":
            out[m[0][0]] = c
        else:
            return None
    return out, c0


def half_angle(name):
    """(c, s) Poly variables for theta/2 of angle variable `name`."""
    e = eng()
    cache = e.path_state.setdefault("half", {})
    if name not in cache:
        s = new_var(f"s({name})", "sin")
        c = new_var(f"c({name})", "cos", s.name)
        e.nonlinear = True
        th = e.real_vars[name].z
        e.add(c.z * c.z + s.z * s.z == 1)
        e.add(z3.Implies(th == 0, z3.And(c.z == 1, s.z == 0)))
        cache[name] = (Poly.var(c), Poly.var(s))
        link_angles()
        for n, (k, expr) in list(e.inputs.items()):
            if k == "angle" and expr[0] is not None and expr[0].eq(th):
                e.inputs[n] = (k, (th, c.z, s.z))
    return cache[name]


def link_angles(d=None):
    """Equal (opposite) angles have equal (conjugate) circle points: facts for every pair of
    angles the code under test compares."""
    e = eng()
    todo = e.path_state.setdefault("angle_pairs", {})
    if d is not None:
        parts = angle_parts(d)
        if parts is None or len(parts[0]) != 2 or parts[1] != 0:
            return
        (a, x), (b, y) = sorted(parts[0].items())
        if abs(x) != abs(y):
            return
        todo.setdefault((a, b, x == y), False)
    half = e.path_state.get("half", {})
    for (a, b, opposite), done in list(todo.items()):
        if done or a not in half or b not in half:
            continue
        todo[(a, b, opposite)] = True
        (ca, sa), (cb, sb) = half[a], half[b]
        ta, tb = e.real_vars[a].z, e.real_vars[b].z
        if opposite:
            e.add(z3.Implies(ta == -tb, z3.And(ca.z() == cb.z(), sa.z() == -sb.z())))
        else:
            e.add(z3.Implies(ta == tb, z3.And(ca.z() == cb.z(), sa.z() == sb.z())))


def odd_angle(name, q):
    """Unrelated circle point for an angle multiple that is no multiple of a half."""
    e = eng()
    cache = e.path_state.setdefault("odd", {})
    if (name, q) not in cache:
        s = new_var(f"s({q}*{name})", "sin")
        c = new_var(f"c({q}*{name})", "cos", s.name)
        e.nonlinear = True
        e.add(c.z * c.z + s.z * s.z == 1)
        cache[(name, q)] = (Poly.var(c), Poly.var(s))
    return cache[(name, q)]


def trig(p):
    """(cos p, sin p)"""
    if p.is_const():
        v = float(p.cval())
        return Poly.const(Fraction(math.cos(v))), Poly.const(Fraction(math.sin(v)))
    parts = angle_parts(p)
    if parts is None:
        raise TypeError("trigonometric function of a non-linear symbolic expression")
    terms, c0 = parts
    z = SymC(Poly.const(Fraction(math.cos(float(c0)))), Poly.const(Fraction(math.sin(float(c0)))))
    for name, q in sorted(terms.items()):
        k = 2 * q
        kk = Fraction(round(k))
        if abs(k - kk) < Fraction(1, 10**9):
            c, s = half_angle(name)
            k = int(kk)
            if k < 0:
                s, k = -s, -k
            z = z * SymC(c, s) ** k
        else:
            c, s = odd_angle(name, q)
            z = z * SymC(c, s)
    return z.re, z.im


def cexp(c):
    c = to_c(c)
    if not c.re.is_const():
        raise TypeError("exponential of a symbolic real part")
    r = Fraction(math.exp(float(c.re.cval())))
    co, si = trig(c.im)
    return SymC(co * r, si * r)


# ------------------------------------------------------------------ approximate equality
def snap(p):
    """Drop rounding-size coefficients."""
    return Poly({m: c for m, c in p.t.items() if abs(c) > SNAP})


def close_cond(a, b):
    """Condition (bool or z3) that two numbers are equal up to rounding."""
    a, b = to_c(a), to_c(b)
    if a is None or b is None:
        return False
    d = a - b
    out = []
    for p in (snap(d.re), snap(d.im)):
        if p.is_const():
            if p.cval() != 0:
                return False
            continue
        out.append(p.z() == 0)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def is_sym(x):
    return isinstance(x, (SymBool, SymInt, SymAtom, Poly, SymC))
