"""State-vector simulation against the ordered product of the operations' matrices."""
from props.circ import KINDS, circuit, general2, prefix, reference, repeated, wide, width
from props.gates import GATES
from sx.api import Harness

KERNELS = True
PRELOAD = ("dwave.gate.simulator.simulator", "dwave.gate.operations")
BOUNDS = (
    "circuits of up to 3 qubits (4 thorough): user-defined unitaries bring the qubits into an arbitrary product "
    "state (these span all states), then any one supported gate on any ordered choice of distinct qubits, or any "
    "sequence of 2 (3 thorough) gates covering every code path, or operation objects recorded several times; one gate at selected positions of 4 to 8 qubits; parameters are arbitrary real numbers in [-20, 20]"
)
OUTSIDE = "other circuits of more than 4 qubits (the kernels alone are decided for any size by S04) or longer sequences; floating-point rounding"


def gates(h, n, kinds, phases):
    c, steps = circuit(h, n, kinds, phases)
    h.sim.simulate(c)
    h.check_matrix(c.state, reference(h, steps, n), f"state after {'+'.join(kinds)}")


def larger(h, n, kind):
    """Selected positions in circuits of more qubits."""
    c, steps = wide(h, n, kind)
    h.sim.simulate(c)
    h.check_matrix(c.state, reference(h, steps, n), f"state of {n} qubits after {kind}")


def again(h, n, kind):
    """Operation objects act as often as they are recorded."""
    c, steps = repeated(h, n, kind)
    h.sim.simulate(c)
    h.check_matrix(c.state, reference(h, steps, n), f"state after {kind}, recorded several times")


def sequence(h, n, k, pool):
    gates(h, n, [h.choice(f"kind{i}", pool) for i in range(k)], False)


def anymatrix(h, controlled):
    """A user-defined matrix: any unitary."""
    m = general2(h, "m")
    n = min(2 + controlled, 3)
    c = h.circuit.Circuit(n)
    with c.context:
        steps = prefix(h, c.qubits, n, False)
        q = h.perm("q", range(n), 1 + controlled)
        if controlled == 2:
            op = h.user_controlled(h.array(m), 2)(control=(c.qubits[q[0]], c.qubits[q[1]]), target=c.qubits[q[2]])
            full = [[1 if i == j else 0 for j in range(8)] for i in range(6)] + [[0] * 6 + m[0], [0] * 6 + m[1]]
        elif controlled:
            op = h.user_controlled(h.array(m), 1)(c.qubits[q[0]], c.qubits[q[1]])
            full = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0] + m[0], [0, 0] + m[1]]
        else:
            op = h.user_gate(h.array(m))(c.qubits[q[0]])
            full = m
    h.check_matrix(op.matrix, full, "matrix of the operation")
    h.sim.simulate(c)
    h.check_matrix(c.state, reference(h, steps + [(full, q)], n), "state")


def registers(h):
    """Qubit positions are those in the whole circuit, also with several registers."""
    c = h.circuit.Circuit()
    c.add_qregister(1, "a")
    c.add_qregister(2, "b")
    if h.flag("late"):
        c.add_qubit(qreg_label="a")
    n = len(c.qubits)
    q = list(c.qregisters["a"]) + list(c.qregisters["b"])
    with c.context:
        steps = prefix(h, q, n, False)
        p = h.perm("q", range(n), 2)
        op = h.ops.CRY(h.angle("t"), q[p[0]], q[p[1]])
    h.sim.simulate(c)
    h.check_matrix(c.state, reference(h, steps + [(op.matrix, p)], n), "state")


def unsupported(h):
    """Operations the simulator does not know are refused."""
    class Two(h.ops.Operation):
        _num_qubits = 2
        matrix = h.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]])

    c = h.circuit.Circuit(2)
    with c.context:
        Two(c.qubits)
    h.check_raises("unknown multi-qubit operation", h.sim.simulate, c, exc=ValueError)
    h.check(c.state is None, "no state after a refused simulation")
    empty = h.circuit.Circuit()
    h.sim.simulate(empty)
    h.check(empty.state is None, "a circuit without qubits has no state")


def harnesses(tier):
    out = []
    deep = tier == "thorough"
    for g, (npar, nq, nc, _) in GATES.items():
        for n in range(nq, 4):
            if deep or n in (nq, 3):
                out.append(Harness(f"{g}-{n}", gates, n=n, kinds=(g,), phases=n == nq or deep, bounds=f"{n} qubits, {npar} real parameters"))
        if deep:
            out.append(Harness(f"{g}-4", gates, n=4, kinds=(g,), phases=False, bounds=f"4 qubits, {npar} real parameters"))
    out.append(Harness("any-unitary", anymatrix, controlled=0))
    out.append(Harness("any-controlled-unitary", anymatrix, controlled=1))
    out.append(Harness("any-twice-controlled-unitary", anymatrix, controlled=2))
    out.append(Harness("registers", registers))
    out.append(Harness("unsupported", unsupported))
    out.append(Harness("sequence2", sequence, n=3, k=2, pool=KINDS if deep else ("Y", "CRY", "CSWAP", "CCX", "cuser", "SWAP")))
    for k in ("RY", "CRY", "cuser") + (("CSWAP", "Rotation", "user") if deep else ()):
        out.append(Harness(f"again-{k}", again, n=max(2, width(k)), kind=k))
    for n in (4, 5, 6, 8):
        for k in ("RX", "CRY", "SWAP", "CSWAP", "CCX", "cuser"):
            out.append(Harness(f"larger-{n}-{k}", larger, n=n, kind=k))
    if deep:
        out.append(Harness("sequence3", sequence, n=3, k=3, pool=("CY", "CSWAP", "CCX")))
    return out
