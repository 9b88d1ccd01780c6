"""Replays harness inputs on the real build.  Run under the project's interpreter:

    /opt/venv/bin/python concrete.py BUILD_DIR < jobs.json

Each job runs in a forked child with a time limit; one JSON line per job is printed.
"""
import importlib
import json
import math
import cmath
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
TOL = 1e-6


class Violated(Exception):
    pass


class Skip(Exception):
    pass


class ScriptedGen:
    def __init__(self, h):
        self.h = h

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            import numpy as np

            out = np.empty(size)
            for i in np.ndindex(out.shape):
                out[i] = self.uniform(low, high)
            return out
        return low + (high - low) * self.h._draw()

    def random(self, size=None, **k):
        return self.uniform(size=size)

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np

        a = list(range(a)) if isinstance(a, int) else list(a)
        p = [1 / len(a)] * len(a) if p is None else p
        if size is not None:
            return np.array([self.choice(a, None, replace, p) for _ in range(int(np.prod(size)))]).reshape(size)
        cdf = np.cumsum(p)
        return a[int(np.searchsorted(cdf / cdf[-1], self.h._draw(), side="right"))]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Skip(f"generator method {n}")


def make_h():
    from sx.api import Base

    class ConcreteH(Base):
        symbolic = False

        def __init__(self, inputs, build):
            import numpy as np

            self.inputs = inputs
            self.count = {}
            self.np, self.math, self.cmath = np, math, cmath
            self.build = build
            self.missing = []
            self.checks = 0

        def lib(self, name):
            m = importlib.import_module(name)
            assert name.split(".")[0] != "dwave" or m.__file__.startswith(self.build), m.__file__
            return m

        def _in(self, name, default):
            k = self.count.get(name, 0)
            self.count[name] = k + 1
            n = name if k == 0 else f"{name}#{k + 1}"
            if n not in self.inputs:
                self.missing.append(n)
                return default
            return self.inputs[n]

        def int(self, name, lo, hi):
            return int(self._in(name, lo))

        big = int

        def bool(self, name):
            return bool(self._in(name, False))

        def choice(self, name, items):
            items = list(items)
            i = int(self._in(name, 0))
            if not items:
                raise Skip("empty choice")
            return items[i]

        def flag(self, name):
            return self.choice(name, [False, True])

        def real(self, name, lo, hi, strict_hi=False):
            return float(self._in(name, lo))

        def angle(self, name, lo=-20, hi=20):
            return float(self._in(name, 0.5))

        def cplx(self, name, bound=1):
            return complex(self.real(name + ".re", 0, 0), self.real(name + ".im", 0, 0))

        def atom(self, name):
            return f"v{int(self._in(name, 0))}"

        def script_rng(self):
            import numpy as np

            self._draws = []
            self._script = None
            self.seeds = []

            def default_rng(seed=None):
                if isinstance(seed, ScriptedGen):
                    return seed
                self.seeds.append(seed)
                return ScriptedGen(self)

            np.random.default_rng = default_rng
            return self._draws

        def _draw(self):
            if self._script is not None:
                return next(self._script)
            u = self.real("u", 0, 1)
            self._draws.append(u)
            return u

        def replay_draws(self, draws):
            self._script = iter(list(draws))

        def assume(self, cond):
            if not cond:
                raise Skip("assumption")

        def check(self, cond, msg):
            self.checks += 1
            if not bool(cond):
                raise Violated(msg)

        def mapping(self, pairs):
            return dict(pairs)

        def eq(self, a, b):
            if isinstance(a, float) or isinstance(b, float):
                try:
                    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
                except TypeError:
                    return False
            return bool(a == b)

        def unwrap(self, x):
            return x

        def close(self, a, b):
            try:
                a, b = complex(a), complex(b)
            except TypeError:
                return False
            return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))

        def check_close(self, a, b, msg):
            self.check(self.close(a, b), f"{msg} ({a!r} vs {b!r})")

        def all_of(self, conds):
            return all(bool(c) for c in conds)

        def any_of(self, conds):
            return any(bool(c) for c in conds)

        def implies(self, a, b):
            return (not a) or bool(b)

        def not_(self, a):
            return not a

        def cos(self, x):
            return math.cos(x)

        def sin(self, x):
            return math.sin(x)

        def expi(self, x):
            return cmath.exp(1j * x)

        def conj(self, x):
            return complex(x).conjugate()

        def set_pop(self, choose):
            pass

        def hash(self, x):
            return hash(x)

        def as_real(self, x):
            return complex(x).real

        def abs2(self, x):
            return abs(complex(x)) ** 2

        def array(self, rows, order="C"):
            return self.np.array(rows, dtype=complex, order=order)

        def text(self, t):
            return t

        def show(self, v):
            return str(v)

    return ConcreteH


def run_job(job, build):
    sys.path.insert(0, build)
    import warnings

    warnings.simplefilter("ignore")
    H = make_h()
    h = H(job["inputs"], build)
    mod = importlib.import_module("props." + job["module"])
    for hn in mod.harnesses(job["tier"]):
        if hn.name == job["harness"]:
            break
    else:
        return {"status": "error", "msg": "harness not found"}
    try:
        hn.fn(h, **hn.params)
        return {"status": "ok", "checks": h.checks, "missing": h.missing}
    except Violated as e:
        return {"status": "violated", "msg": str(e), "missing": h.missing}
    except Skip as e:
        return {"status": "skip", "msg": str(e)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
        return {"status": "violated", "msg": f"exception {type(e).__name__}: {e} [{where}]", "missing": h.missing}


def main():
    build = sys.argv[1]
    jobs = json.load(sys.stdin)
    limit = int(os.environ.get("REPLAY_LIMIT", "60"))
    for i, job in enumerate(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(limit)
            try:
                res = run_job(job, build)
            except BaseException as e:
                res = {"status": "error", "msg": f"{type(e).__name__}: {e}"}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if data:
            res = json.loads(data)
        else:
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            res = (
                {"status": "violated", "msg": f"crashed with signal {sig}"}
                if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE)
                else {"status": "error", "msg": f"no result (signal {sig})"}
            )
        print(json.dumps(res), flush=True)


if __name__ == "__main__":
    main()
