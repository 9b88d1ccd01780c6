"""Symbolic harness interface."""
import math as _math
import time

import numpy as _np
import z3

from sx import engine as E
from sx import shims
from sx.api import Base
from sx.containers import SymDict
from sx.loader import Lib
from sx.values import (
    Poly, SymAtom, SymBool, SymC, SymInt, close_cond, is_sym, new_var, snap, to_c, to_poly, trig, zbool,
)


class SymH(Base):
    symbolic = True

    def __init__(self, engine, snapshot, stubs=None):
        self.e = engine
        self._lib = Lib(snapshot, stubs(self) if stubs else None)
        self.np = shims.numpy
        self.math = shims.math
        self.cmath = shims.cmath
        self._draws = []
        self._settled = []

    def lib(self, name):
        if name.split(".")[0] in self._lib.stubs:
            return self._lib.stubs[name]
        return self._lib.get(name)

    # ------------------------------------------------------------ inputs
    def int(self, name, lo, hi):
        n = self.e.unique(name)
        v = z3.Int(n)
        self.e.register(n, "int", v)
        self.e.add(z3.And(v >= lo, v <= hi))
        return SymInt(v)

    def big(self, name, lo, hi):
        """64-bit integer handed straight to a kernel (never concretised)."""
        from sx.cyrt import BigInt64

        n = self.e.unique(name)
        v = z3.BitVec(n, 64)
        self.e.register(n, "int", v)
        self.e.add(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
        return BigInt64(v)

    def bool(self, name):
        n = self.e.unique(name)
        v = z3.Bool(n)
        self.e.register(n, "bool", v)
        return SymBool(v)

    def choice(self, name, items):
        items = list(items)
        n = self.e.unique(name)
        v = z3.Int(n)
        self.e.register(n, "int", v)
        if not items:
            raise E.PathAbort()
        self.e.add(z3.And(v >= 0, v < len(items)))
        if len(items) == 1:
            return items[0]
        return items[self.e.choose_range(v, len(items))]

    def flag(self, name):
        """A Boolean decided right away (forked)."""
        return self.choice(name, [False, True])

    def real(self, name, lo, hi, strict_hi=False):
        n = self.e.unique(name)
        v = new_var(n)
        self.e.register(n, "real", v.z)
        self.e.add(v.z >= lo)
        self.e.add(v.z < hi if strict_hi else v.z <= hi)
        return Poly.var(v)

    def angle(self, name, lo=-20, hi=20):
        n = self.e.unique(name)
        v = new_var(n, "angle")
        self.e.register(n, "angle", (v.z, None, None))
        self.e.add(v.z >= lo)
        self.e.add(v.z <= hi)
        return Poly.var(v)

    def cplx(self, name, bound=1):
        return SymC(self.real(name + ".re", -bound, bound), self.real(name + ".im", -bound, bound))

    def atom(self, name):
        """Opaque identifier-like string, equal to another one or not."""
        n = self.e.unique(name)
        v = z3.Int(n)
        self.e.register(n, "int", v)
        self.e.add(z3.And(v >= 0, v <= 30))
        return SymAtom(v)

    def script_rng(self):
        """All random draws become arbitrary numbers of [0, 1)."""
        self._draws = []

        def draw():
            u = self.real("u", 0, 1, strict_hi=True)
            self._draws.append(u)
            return u

        self.e.path_state["draw"] = draw
        self.seeds = self.e.path_state.setdefault("rng_seeds", [])
        return self._draws

    def set_pop(self, choose):
        """choose(n) gives the position of the item that set.pop() takes out of n items."""
        self.e.path_state["set_pop"] = choose

    def hash(self, x):
        """hash(x); hashes of arbitrary strings are an arbitrary function of the string."""
        self.e.hash_terms = True
        try:
            return type(x).__hash__(x)
        finally:
            self.e.hash_terms = False

    def replay_draws(self, draws):
        """The next draws return the given values (then an error)."""
        it = iter(list(draws))
        self.e.path_state["draw"] = lambda: next(it)

    # ------------------------------------------------------------ conditions
    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.e.assume(cond.z)
        elif not cond:
            raise E.PathAbort()

    def check(self, cond, msg):
        if isinstance(cond, SymBool):
            self.e.check(cond.z, msg)
        else:
            self.e.check(bool(cond), msg)

    def mapping(self, pairs):
        """A dict as the caller would write it."""
        return SymDict(pairs)

    def eq(self, a, b):
        """Exact equality (as a condition)."""
        r = a == b
        if isinstance(r, SymBool):
            return r
        if r is True and is_sym(a) and isinstance(a, (Poly, SymC)) and self.e.stats.paths < 4:
            self._settled.append((a, b))
        return bool(r)

    def unwrap(self, x):
        if isinstance(x, _np.ndarray) and x.ndim == 0:
            return x.item() if x.dtype != object else x[()]
        return x

    def close(self, a, b):
        a, b = self.unwrap(a), self.unwrap(b)
        c = close_cond(a, b)
        return c if isinstance(c, bool) else SymBool(c)

    def check_close(self, a, b, msg):
        c = self.close(a, b)
        if c is True and (is_sym(a) or is_sym(b)) and self.e.stats.paths < 4:
            self._settled.append((a, b))
        self.check(c, msg)

    def confirm(self):
        """Lets the solver confirm equalities the normal form has settled (first paths of a harness)."""
        todo, self._settled = self._settled[:400], []
        if not todo:
            return
        t = time.time()
        s = z3.Solver()
        s.set("timeout", 2000)
        diff = []
        for a, b in todo:
            a, b = to_c(a), to_c(b)
            for x, y in ((a.re, b.re), (a.im, b.im)):
                x, y = snap(x), snap(y)
                if not (x.is_const() and y.is_const()):
                    d = x.z() - y.z()
                    diff.append(z3.Or(d > 1e-9, d < -1e-9))
        if diff:
            s.add(z3.And(*[z3.And(v.z <= 100, v.z >= -100) for v in self.e.real_vars.values()]))
            s.add(z3.Or(*diff))
            if s.check() == z3.unsat:
                self.e.stats.confirmed += len(todo)
                self.e.stats.confirm_queries += 1
            self.e.stats.solver_s += time.time() - t

    def all_of(self, conds):
        zs = []
        for c in conds:
            if isinstance(c, SymBool):
                zs.append(c.z)
            elif not c:
                return False
        return SymBool(z3.And(*zs)) if zs else True

    def any_of(self, conds):
        zs = []
        for c in conds:
            if isinstance(c, SymBool):
                zs.append(c.z)
            elif c:
                return True
        return SymBool(z3.Or(*zs)) if zs else False

    def implies(self, a, b):
        return self.any_of([self.not_(a), b])

    def not_(self, a):
        return SymBool(z3.Not(a.z)) if isinstance(a, SymBool) else not a

    # ------------------------------------------------------------ numbers
    def cos(self, x):
        return trig(to_poly(x))[0] if is_sym(x) else _math.cos(x)

    def sin(self, x):
        return trig(to_poly(x))[1] if is_sym(x) else _math.sin(x)

    def expi(self, x):
        c, s = trig(to_poly(x))
        return SymC(c, s)

    def conj(self, x):
        return to_c(x).conjugate()

    def as_real(self, x):
        return to_c(x).re

    def abs2(self, x):
        x = to_c(x)
        return x.re * x.re + x.im * x.im

    def array(self, rows, order="C"):
        """A complex matrix/vector as a user would build it."""
        return shims.sarr(_np.array([list(r) for r in rows] if len(rows) and isinstance(rows[0], (list, tuple)) else list(rows), dtype=object, order=order))

    def text(self, t):
        """Numbers and labels behind the tokens of generated text."""
        return self.e.tokens.get(t, t)

    def show(self, v):
        return str(v)
