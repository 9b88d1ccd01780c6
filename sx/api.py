"""What harnesses see.  The same harness runs symbolically (SymH, under python3-vt with z3) and
concretely on the real build (ConcreteH, under the project's interpreter) to replay a
counterexample or to validate a path witness."""


class Harness:
    """One harness instance: fn(h, **params)."""

    def __init__(self, name, fn, covers=(), bounds="", max_paths=200000, replay=True, split=True, **params):
        self.name, self.fn, self.params = name, fn, params
        self.covers, self.bounds = covers, bounds
        self.max_paths = max_paths
        self.replay = replay
        self.split = split


class Base:
    symbolic = False

    # -------------------------------------------------------- library under test
    @property
    def circuit(self):
        return self.lib("dwave.gate.circuit")

    @property
    def ops(self):
        return self.lib("dwave.gate.operations")

    @property
    def base(self):
        return self.lib("dwave.gate.operations.base")

    @property
    def prim(self):
        return self.lib("dwave.gate.primitives")

    @property
    def regs(self):
        return self.lib("dwave.gate.registers.registers")

    @property
    def sim(self):
        return self.lib("dwave.gate.simulator.simulator")

    @property
    def unitary(self):
        return self.lib("dwave.gate.tools.unitary")

    # -------------------------------------------------------- helpers
    def raises(self, fn, *a, **k):
        """Run fn; return the exception it raised, or None."""
        try:
            fn(*a, **k)
        except Exception as e:
            return e
        return None

    def check_raises(self, msg, fn, *a, exc=Exception, **k):
        e = self.raises(fn, *a, **k)
        self.check(isinstance(e, exc), f"{msg}: expected an error, got {type(e).__name__ if e else 'none'}")
        return e

    def check_same(self, a, b, msg):
        """Identity of two sequences of objects."""
        a, b = list(a), list(b)
        self.check(len(a) == len(b) and all(x is y for x, y in zip(a, b)), msg)

    def check_matrix(self, a, b, msg):
        a, b = self.tolist(a), self.tolist(b)
        self.check(len(a) == len(b), f"{msg}: dimension")
        for i, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, list) or isinstance(y, list):
                if not (isinstance(x, list) and isinstance(y, list)) or len(x) != len(y):
                    self.check(False, f"{msg}: shape")
                for j, (u, v) in enumerate(zip(x, y)):
                    self.check_close(u, v, f"{msg}: entry ({i},{j})")
            else:
                self.check_close(x, y, f"{msg}: entry {i}")

    @staticmethod
    def tolist(a):
        if isinstance(a, (list, tuple)):
            return [Base.tolist(x) for x in a]
        if hasattr(a, "ndim") and a.ndim > 0:
            return [Base.tolist(a[i]) for i in range(a.shape[0])]
        return a

    def perm(self, name, items, k):
        """k distinct items in any order (nondeterministic)."""
        items = list(items)
        out = []
        for i in range(k):
            out.append(items.pop(self.index(f"{name}{i}", len(items))))
        return out

    def index(self, name, n):
        return self.choice(name, range(n))

    # -------------------------------------------------------- gates as a user writes them
    def user_gate(self, m):
        class UserGate(self.ops.Operation):
            _num_qubits = 1
            matrix = m

        return UserGate

    def user_controlled(self, m, k=1):
        class UserControlled(self.ops.ControlledOperation):
            _num_control = k
            _num_target = 1
            _target_operation = self.user_gate(m)

        return UserControlled

    # -------------------------------------------------------- plain linear algebra (reference)
    def apply(self, m, qubits, vec, n):
        """Reference semantics: matrix m on `qubits` (first = most significant) of an n-qubit vector."""
        m = self.tolist(m)
        k = len(qubits)
        out = [0] * len(vec)
        masks = [1 << (n - 1 - q) for q in qubits]
        for x in range(len(vec)):
            row = 0
            for mk in masks:
                row = 2 * row + (1 if x & mk else 0)
            base = x
            for mk in masks:
                base &= ~mk
            acc = 0
            for col in range(1 << k):
                e = m[row][col]
                if self.is_zero(e):
                    continue
                y = base
                for j, mk in enumerate(masks):
                    if (col >> (k - 1 - j)) & 1:
                        y |= mk
                if self.is_zero(vec[y]):
                    continue
                acc = acc + e * vec[y]
            out[x] = acc
        return out

    def product(self, steps, n):
        """Reference unitary: columns = images of basis vectors under the (matrix, qubits) steps."""
        cols = []
        for c in range(1 << n):
            v = [0] * (1 << n)
            v[c] = 1
            for m, q in steps:
                v = self.apply(m, q, v, n)
            cols.append(v)
        return [[cols[c][r] for c in range(1 << n)] for r in range(1 << n)]

    @staticmethod
    def is_zero(x):
        return isinstance(x, (int, float, complex)) and x == 0
