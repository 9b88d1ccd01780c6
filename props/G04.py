"""The unitary always reflects the current circuit."""
from props.gates import GATES
from sx.api import Harness

KERNELS = True
PRELOAD = ("dwave.gate.simulator.simulator", "dwave.gate.operations", "dwave.gate.tools.unitary")
BOUNDS = (
    "circuits of 1 or 2 qubits (thorough: 3) with up to 4 single-qubit and controlled operations, parameters and positions "
    "arbitrary; every sequence of 2 (thorough: 3) of: reading the unitary or the matrix of a custom operation (class or instance), "
    "overwriting the result, appending, removing, resetting, replacing or re-targeting an operation, simulating, building other circuits"
)
OUTSIDE = "longer histories and circuits; changes of a gate's own matrix"


class World:
    def __init__(self, h, n):
        self.h, self.n = h, n
        self.c = h.circuit.Circuit(n)
        self.steps = []   # [kind, parameters, positions]
        self.k = 0
        self.ops = []
        self.cls = self.inst = None

    def add(self, how="context"):
        h, n = self.h, self.n
        self.k += 1
        kind = h.choice(f"kind{self.k}", ["RX", "CRY"]) if n > 1 else ["RX", "Rotation"][self.k % 2]
        npar, nq, nc, _ = GATES[kind]
        p = [h.angle(f"g{self.k}.{i}") for i in range(npar)]
        pos = h.perm(f"q{self.k}.", range(n), nq)
        q = [self.c.qubits[i] for i in pos]
        cls = getattr(h.ops, kind)
        a = p[0] if npar == 1 else list(p)
        make = lambda: cls(a, q[0], q[1]) if nc else cls(a, q[0])  # noqa: E731
        self.c.unlock()
        if how == "context":
            with self.c.context:
                make()
        else:
            self.c.append(make())
        self.steps.append((GATES[kind][3](h, *p), pos))

    def want(self):
        return self.h.product(self.steps, self.n)

    def read(self, msg, which):
        h = self.h
        w = self.want()
        if which in ("all", "unitary"):
            m = h.unitary.build_unitary(self.c)
            h.check_matrix(m, w, f"unitary {msg}")
            self.spoil(m)
        if which in ("all", "class"):
            m = self.cls.matrix
            h.check_matrix(m, w, f"matrix of the class {msg}")
            self.spoil(m)
        if which in ("all", "instance"):
            m = self.inst.matrix
            h.check_matrix(m, w, f"matrix of an instance {msg}")
            self.spoil(m)

    @staticmethod
    def spoil(m):
        try:
            m[:, :] = 3
        except ValueError:
            pass


def history(h, n, start, moves, length):
    w = World(h, n)
    for _ in range(start):
        w.add()
    w.cls = h.ops.create_operation(w.c, name="Mine")
    w.inst = w.cls()
    if h.flag("before"):
        w.read("at first", "all")
    for i in range(length):
        m = h.choice(f"move{i}", moves)
        c = w.c
        if m == "append":
            w.add(h.choice(f"how{i}", ["context", "append"]))
        elif m == "remove":
            if not w.steps:
                return h.assume(False)
            j = h.index(f"which{i}", len(w.steps))
            op = c.circuit[j]
            first = next(k for k, x in enumerate(c.circuit) if x == op)
            c.remove(op)
            del w.steps[first]
        elif m == "reset":
            c.reset()
            w.steps.clear()
        elif m == "replace":  # the operations are a list the user may change
            if len(w.steps) < 2:
                return h.assume(False)
            c.circuit[0], c.circuit[-1] = c.circuit[-1], c.circuit[0]
            w.steps[0], w.steps[-1] = w.steps[-1], w.steps[0]
        elif m == "parameter":
            if not w.steps:
                return h.assume(False)
            op = c.circuit[-1]
            op.parameters[0] = h.angle(f"new{i}")
            w.steps[-1] = (GATES[op.__class__.__name__][3](h, *op.parameters), w.steps[-1][1])
        elif m == "read":
            w.read(f"after move {i}", h.choice(f"read{i}", ["unitary", "class", "instance"]))
        elif m == "simulate":
            h.sim.simulate(c)
        elif m == "other":
            d = h.circuit.Circuit(n)
            with d.context:
                h.ops.Y(d.qubits[0])
            m2 = h.unitary.build_unitary(d)
            h.check_matrix(m2, h.product([([[0, -1j], [1j, 0]], [0])], n), "unitary of another circuit")
            World.spoil(m2)
    w.read("at the end", "all")


def moved(h, n):
    """Re-targeted operations count on their new qubits."""
    c = h.circuit.Circuit(n)
    a, b = h.angle("a"), h.angle("b")
    with c.context:
        x = h.ops.RX(a, c.qubits[0])
        y = h.ops.CRY(b, c.qubits[0], c.qubits[1])
    cls = h.ops.create_operation(c)
    if h.flag("before"):
        h.unitary.build_unitary(c)
        cls.matrix
    i = h.index("i", n)
    j, k = h.perm("j", range(n), 2)
    x.qubits = [c.qubits[i]]
    y.qubits = [c.qubits[j], c.qubits[k]]
    want = h.product([(GATES["RX"][3](h, a), [i]), (GATES["CRY"][3](h, b), [j, k])], n)
    h.check_matrix(h.unitary.build_unitary(c), want, "unitary")
    h.check_matrix(cls.matrix, want, "matrix of the class")


def parametric(h):
    """Parametric circuits: later operations and parameters count."""
    c = h.circuit.ParametricCircuit(1)
    q = c.qubits
    v = [h.angle(f"v{i}") for i in range(2)]
    with c.context as reg:
        h.ops.RX(reg.p[0], q[0])
        h.ops.RY(reg.p[1], q[0])
    cls = h.ops.create_operation(c)
    op = cls(list(v))
    rx, ry, rz = (GATES[g][3] for g in ("RX", "RY", "RZ"))
    steps = [(rx(h, v[0]), [0]), (ry(h, v[1]), [0])]
    if h.flag("before"):
        m = op.matrix
        h.check_matrix(m, h.product(steps, 1), "matrix at first")
        World.spoil(m)
    if h.flag("remove"):
        c.remove(c.circuit[0])
        del steps[0]
    c.unlock()
    with c.context as reg:
        h.ops.RZ(reg.p[0], q[0])
    steps.append((rz(h, v[0]), [0]))
    h.check_matrix(op.matrix, h.product(steps, 1), "matrix after more operations")
    op.parameters[0] = h.angle("w")
    steps[-1] = (rz(h, op.parameters[0]), [0])
    if len(steps) == 3:
        steps[0] = (rx(h, op.parameters[0]), [0])
    h.check_matrix(op.matrix, h.product(steps, 1), "matrix after changing a parameter")


def harnesses(tier):
    deep = tier == "thorough"
    out = []
    moves = ["append", "remove", "reset", "replace", "parameter", "read", "simulate", "other"]
    for n, start in ((1, 1), (1, 2), (2, 1)):
        for first in moves:
            if first == "replace" and start == 1:
                continue
            out.append(Harness(f"history-{n}-{start}-{first}", first_move, n=n, start=start, first=first, moves=moves, length=1))
    if deep:
        for first in moves:
            out.append(Harness(f"history-1-2-{first}-long", first_move, n=1, start=2, first=first, moves=moves, length=2))
            out.append(Harness(f"history-2-2-{first}", first_move, n=2, start=2, first=first, moves=moves, length=1))
    for n in (2, 3):
        out.append(Harness(f"moved-{n}", moved, n=n))
    out.append(Harness("parametric", parametric))
    return out


def first_move(h, n, start, first, moves, length):
    class Fixed:
        """h with the first move decided (splits the work)."""

        def __getattr__(self, k):
            return getattr(h, k)

        def choice(self, name, items):
            return first if name == "move0" else h.choice(name, items)

    history(Fixed(), n, start, moves, length + 1)
