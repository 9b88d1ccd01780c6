"""Path exploration and solver queries.

A *harness* is an ordinary Python function that drives the code under test.  Its inputs are
symbolic; whenever the code under test (or the harness) needs the truth value of a symbolic
condition, the engine asks z3 which outcomes are feasible under the path condition, follows one and
schedules the other.  A property is an assertion over the symbolic values: the engine asks z3 for a
model of ``path condition and not property``.  ``unsat`` on every feasible path means the assertion
holds for every value within the harness' bounds; a model is turned into concrete inputs that are
replayed against the real build.
"""
import math
import threading
import time
from fractions import Fraction

import z3

FEAS_TIMEOUT_MS = 20000
CHECK_TIMEOUT_MS = 60000
CUTOFF = None  # shared time limit, set once a violation has been found


class PathAbort(BaseException):
    """Ends the current path (infeasible assumption)."""


class PathLimit(BaseException):
    """Raised when the path budget is exhausted."""


class Inconclusive(BaseException):
    """The solver could not decide a query."""


class Failure:
    """A candidate counterexample."""

    def __init__(self, msg, inputs, kind):
        self.msg, self.inputs, self.kind = msg, inputs, kind
        self.other = []  # other inputs on which the same assertion fails

    def __repr__(self):
        return f"Failure({self.kind}: {self.msg}; {self.inputs})"


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.forks = 0
        self.feas_queries = 0
        self.obligations = 0       # assertions evaluated on some path
        self.trivial = 0           # of those: decided by normal form, no solver call needed
        self.queries = 0           # of those: decided by a solver call (unsat)
        self.solver_s = 0.0
        self.witnesses = 0         # paths whose end was shown reachable by a model
        self.max_depth = 0
        self.confirmed = 0         # normal-form decisions confirmed by a solver call
        self.confirm_queries = 0

    def as_dict(self):
        return dict(self.__dict__)


ENGINE = None


def current():
    return ENGINE


class Engine:
    def __init__(self, max_paths=200000, deadline=None, seed=0):
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.seed = seed
        self.failures = []
        self.witness_inputs = []
        self.max_failures = 3
        self.keep_witnesses = 3
        self.hash_terms = False

    # ---------------------------------------------------------------- path set-up
    def _start(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.known = {}
        self.inputs = {}
        self.fresh = {}
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set("timeout", FEAS_TIMEOUT_MS)
        self.solver.set("random_seed", self.seed)
        self.nonlinear = False
        self.hash_flag = False
        self.tokens = {}
        self.token_ids = {}
        self.path_state = {}
        self.real_vars = {}
        self.sym_interesting = 0
        self.notes = []

    def late(self):
        now = time.time()
        return (self.deadline is not None and now > self.deadline) or (CUTOFF is not None and now > CUTOFF.value)

    def explore(self, fn, before_path=None, after_path=None, work=None, until=None):
        """Explore every feasible path of fn() below the given prefixes.

        Returns the prefixes left when the time slice `until` is over (they are explored by other
        workers); an empty list means that everything was explored.
        """
        global ENGINE
        work = [[]] if work is None else list(work)
        while work:
            if until is not None and time.time() > until:
                return work
            if self.stats.paths + self.stats.aborted >= self.max_paths or self.late():
                raise PathLimit(f"path budget exhausted with {len(work)} prefixes left")
            prefix = work.pop()
            self._start(prefix)
            ENGINE = self
            try:
                if before_path:
                    before_path()
                try:
                    fn()
                    self._end_of_path()
                    self.stats.paths += 1
                except PathAbort:
                    self.stats.aborted += 1
                except Exception as e:  # escaped from the code under test
                    self.stats.paths += 1
                    self._fail_exception(e)
            finally:
                ENGINE = None
                if after_path:
                    after_path()
            work.extend(self.pending)
            self.stats.max_depth = max(self.stats.max_depth, len(self.trace))
            if len(self.failures) >= self.max_failures:
                break
        return []

    def _end_of_path(self):
        m = self.model_inputs()
        if m is None:
            raise PathAbort()
        self.stats.witnesses += 1
        self.consider_witness(m)

    def consider_witness(self, m):
        n = self.stats.witnesses
        # reservoir-free deterministic spread: keep first, then at powers of two
        if len(self.witness_inputs) < 2 or (n & (n - 1)) == 0:
            self.witness_inputs.append(m)

    # ---------------------------------------------------------------- constraints
    def add(self, cond):
        """Assume a z3 condition on this path (no feasibility check)."""
        self.pc.append(cond)
        self.solver.add(cond)

    def _sat(self, cond):
        t = time.time()
        self.stats.feas_queries += 1
        if self.nonlinear:
            s = z3.Solver()
            s.set("timeout", FEAS_TIMEOUT_MS)
            s.add(*self.pc)
            s.add(cond)
            r = s.check()
        else:
            r = self.solver.check(cond)
            if r == z3.unknown:
                s = z3.Solver()
                s.set("timeout", FEAS_TIMEOUT_MS)
                s.add(*self.pc)
                s.add(cond)
                r = s.check()
        self.stats.solver_s += time.time() - t
        return r

    def branch(self, cond):
        """Decide a z3 Bool, forking when both outcomes are feasible."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        if key in self.known:
            return self.known[key][1]
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i]
            forced = False
        else:
            if self.late():
                raise PathLimit("time budget exhausted inside a path")
            rt = self._sat(c)
            if rt == z3.unsat:
                val = False
                # path condition itself is satisfiable by construction
            else:
                rf = self._sat(z3.Not(c))
                if rf == z3.unsat:
                    val = True
                else:
                    if i > 5000:
                        raise PathLimit("path too deep")
                    self.stats.forks += 1
                    val = True
                    self.pending.append(self.trace + [False])
        self.stats.decisions += 1
        self.trace.append(val)
        nc = z3.simplify(z3.Not(c))
        self.known[key] = (c, val)
        self.known[nc.get_id()] = (nc, not val)
        self.add(c if val else nc)
        return val

    def choose(self, expr, limit=300):
        """Concretise a z3 Int, forking over all feasible values."""
        e = z3.simplify(expr)
        if z3.is_int_value(e):
            return e.as_long()
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            vals = []
            block = []
            while True:
                t = time.time()
                self.stats.feas_queries += 1
                s = z3.Solver()
                s.set("timeout", FEAS_TIMEOUT_MS)
                s.add(*self.pc)
                s.add(*block)
                r = s.check()
                self.stats.solver_s += time.time() - t
                if r == z3.unknown:
                    raise Inconclusive("concretisation")
                if r == z3.unsat:
                    break
                v = s.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                block.append(e != v)
                if len(vals) > limit:
                    raise PathLimit(f"more than {limit} values to concretise for {e}")
            if not vals:
                raise PathAbort()
            vals.sort()
            val = vals[0]
            for v in reversed(vals[1:]):
                self.pending.append(self.trace + [v])
            self.stats.forks += len(vals) - 1
        self.stats.decisions += 1
        self.trace.append(val)
        self.add(e == val)
        return val

    def pick(self, n):
        """Nondeterministic choice 0..n-1 (stub behaviour), forked without a solver variable."""
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            val = 0
            for v in range(n - 1, 0, -1):
                self.pending.append(self.trace + [v])
            self.stats.forks += n - 1
        self.trace.append(val)
        self.stats.decisions += 1
        return val

    def choose_range(self, var, n):
        """Fork over var = 0..n-1; every value is feasible because var is fresh."""
        val = self.pick(n)
        self.add(var == val)
        return val

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort()
            return
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        self.add(c)
        if len(self.trace) >= len(self.prefix) and self._sat(z3.BoolVal(True)) == z3.unsat:
            raise PathAbort()

    # ---------------------------------------------------------------- assertions
    def check(self, cond, msg):
        """Assert cond (bool or z3 Bool) on this path."""
        self.stats.obligations += 1
        if isinstance(cond, bool):
            self.stats.trivial += 1
            if not cond:
                m = self.model_inputs(True)
                if m is None:
                    raise PathAbort()
                self.fail(msg, m, "assert", z3.BoolVal(True))
                raise PathAbort()
            return
        c = z3.simplify(cond)
        if z3.is_true(c):
            self.stats.trivial += 1
            return
        r, model = self.solve(z3.Not(c))
        if r == z3.unsat:
            self.stats.queries += 1
            self.add(c)
            return
        if r == z3.unknown:
            raise Inconclusive(f"assertion undecided: {msg}")
        for p in self.path_state.get("prefer", ()):
            r2, m2 = self.solve(z3.And(z3.Not(c), p))
            if r2 == z3.sat:
                model = m2
                break
        model = self.realistic(z3.Not(c)) or model
        self.fail(msg, self.read_model(model), "assert", z3.Not(c))
        raise PathAbort()

    def realistic(self, extra):
        """A model in which every angle belongs to its sine and cosine: the solver only knows that
        these lie on the unit circle, so a counterexample is looked for at the values of the angle
        that matter for the comparisons on the path."""
        angles = [e for k, e in self.inputs.values() if k == "angle" and e[1] is not None]
        if not angles:
            return None
        consts = set()
        for f in self.pc:
            todo, n = [f], 0
            while todo and n < 200:
                x = todo.pop()
                n += 1
                if z3.is_rational_value(x):
                    consts.add(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                todo.extend(x.children())
        t = time.time()
        base = [Fraction(q) for q in ("0.7", "2.6", "-1.3", "3.9", "-4.4", "7.1", "-8.3", "13.7", "-14.9", "0.009", "-0.009", "0.0003")]
        for k in sorted(consts, key=abs)[:20]:
            if k and abs(k) < 50:
                base += [k * q for q in (Fraction(9, 10), Fraction(11, 10), Fraction(1, 2), Fraction(-9, 10))] + [k]
        model = None
        for i in range(len(base)):
            if self.late() or time.time() - t > 10:
                break
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*self.pc)
            s.add(extra)
            for j, (th, c, sn) in enumerate(angles):
                v = base[(i + 3 * j) % len(base)]
                s.add(th == z3.Q(v.numerator, v.denominator))
                for x, y in ((c, math.cos(float(v) / 2)), (sn, math.sin(float(v) / 2))):
                    eps = Fraction(1, 10**12)
                    lo, hi = Fraction(y) - eps, Fraction(y) + eps
                    s.add(x >= z3.Q(lo.numerator, lo.denominator), x <= z3.Q(hi.numerator, hi.denominator))
            if guarded(s, 2000) == z3.sat:
                model = s.model()
                break
        self.stats.solver_s += time.time() - t
        return model

    def solve(self, extra):
        """Full-strength query: path condition and extra."""
        t = time.time()
        r = z3.unknown
        model = None
        if not self.nonlinear:
            attempts = [("incremental", None), ("plain", CHECK_TIMEOUT_MS), ("all", CHECK_TIMEOUT_MS)]
        else:
            attempts = [("plain", 1500), ("pin", 0), ("pin", 1), ("nlsat", 10000), ("plain", CHECK_TIMEOUT_MS // 3), ("nlsat", CHECK_TIMEOUT_MS)]
        for how, arg in attempts:
            if how == "incremental":
                s = self.solver
                r = s.check(extra)
            else:
                if self.late():
                    raise PathLimit("time budget exhausted inside a path")
                s = z3.Tactic("qfnra-nlsat").solver() if how == "nlsat" else z3.SolverFor("ALL") if how == "all" else z3.Solver()
                ms = 3000 if how == "pin" else arg
                s.set("timeout", ms)
                try:
                    s.add(*self.pc)
                    s.add(extra)
                    if how == "pin":
                        pins = self.pins(arg)
                        if not pins:
                            continue
                        s.add(*pins)
                    r = guarded(s, ms)
                except z3.Z3Exception:
                    r = z3.unknown
                    continue
                if how == "pin" and r == z3.unsat:
                    r = z3.unknown
            if r == z3.sat:
                model = s.model()
            if r != z3.unknown:
                break
        self.stats.solver_s += time.time() - t
        return r, model

    def pins(self, turn):
        """Rational points on the unit circle for the angles, to find a counterexample quickly."""
        out = []
        for k, (kind, expr) in enumerate(self.inputs.values()):
            if kind == "angle" and expr[1] is not None:
                u = Fraction(k % 7 + 2, k % 5 + 11) if turn == 0 else Fraction(5 * (k % 3) + 7, k % 11 + 3)
                d = 1 + u * u
                out.append(expr[1] == z3.Q(*((1 - u * u) / d).as_integer_ratio()))
                out.append(expr[2] == z3.Q(*(2 * u / d).as_integer_ratio()))
        return out

    def fail(self, msg, inputs, kind, cond=None):
        f = Failure(msg, inputs, kind)
        self.failures.append(f)
        if cond is not None:
            f.other = [x for x in (self.generic(cond, 0), self.generic(cond, 1)) if x is not None and x != inputs]

    def generic(self, cond, turn):
        """Inputs without coincidences: real numbers that are not determined by the path get values
        with many digits. The solver's own values (mostly zero) can hide a difference that the
        model over-approximates."""
        free = [e[0] if k == "angle" else e for k, e in self.inputs.values() if k == "real" or (k == "angle" and e[1] is None)]
        if not free:
            return None
        t = time.time()
        pins = []
        for j, x in enumerate(free):
            v = Fraction(123456789012 + 37003700371 * (j + 1) * (turn + 1), 10**12 if not turn else 10**11)
            v = v - int(v) if not turn else v % 3
            c = x == z3.Q(v.numerator, v.denominator)
            if time.time() - t > 3 or self.late():
                break
            if self.quick(cond, pins + [c]) is not None:
                pins.append(c)
        m = self.quick(cond, pins) if pins else None
        self.stats.solver_s += time.time() - t
        return None if m is None else self.read_model(m)

    def quick(self, cond, more):
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*self.pc)
        s.add(cond)
        s.add(*more)
        try:
            return s.model() if guarded(s, 1000) == z3.sat else None
        except z3.Z3Exception:
            return None

    def _fail_exception(self, e):
        import traceback

        m = self.model_inputs(True)
        if m is None:
            return
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-4:])
        self.fail(f"exception {type(e).__name__}: {e} [{where}]", m, "exception")

    # ---------------------------------------------------------------- models
    def register(self, name, kind, expr):
        n = name
        k = 1
        while n in self.inputs:
            k += 1
            n = f"{name}#{k}"
        self.inputs[n] = (kind, expr)
        return n

    def unique(self, name):
        k = self.fresh.get(name, 0)
        self.fresh[name] = k + 1
        return name if k == 0 else f"{name}#{k + 1}"

    def model_inputs(self, failed=False):
        if failed:
            model = self.realistic(z3.BoolVal(True))
            if model is not None:
                return self.read_model(model)
        for p in self.path_state.get("prefer", ()):
            r, model = self.solve(p)
            if r == z3.sat:
                return self.read_model(model)
        r, model = self.solve(z3.BoolVal(True))
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            raise Inconclusive("path witness undecided")
        return self.read_model(model)

    def read_model(self, model):
        out = {}
        for name, (kind, expr) in self.inputs.items():
            out[name] = read_value(model, kind, expr)
        return out


def guarded(s, ms):
    """Check with a watchdog: some tactics overrun their time limit."""
    w = threading.Timer(ms / 1000 * 1.2 + 2, s.ctx.interrupt)
    w.daemon = True
    w.start()
    try:
        return s.check()
    finally:
        w.cancel()


def read_value(model, kind, expr):
    if kind in ("int",):
        return model.eval(expr, model_completion=True).as_long()
    if kind == "bool":
        return z3.is_true(model.eval(expr, model_completion=True))
    if kind == "real":
        return num_value(model.eval(expr, model_completion=True))
    if kind == "angle":  # expr = (theta, c, s) with half angle; c, s may be None
        th, c, s = expr
        tv = num_value(model.eval(th, model_completion=True))
        if c is None:
            return tv
        cv = num_value(model.eval(c, model_completion=True))
        sv = num_value(model.eval(s, model_completion=True))
        if tv == 0.0 and abs(sv) < 1e-12 and cv > 0:
            return 0.0
        if abs(math.cos(tv / 2) - cv) + abs(math.sin(tv / 2) - sv) < 1e-6:
            return tv
        return 2 * math.atan2(sv, cv)
    raise AssertionError(kind)


def num_value(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    raise Inconclusive(f"cannot read model value {v}")
