"""Measurements: Born rule, collapse, recorded outcomes."""
from props.circ import Tree, outer
from sx.api import Harness

KERNELS = True
PRELOAD = ("dwave.gate.simulator.simulator", "dwave.gate.operations")
BOUNDS = (
    "any state of 1 or 2 qubits (real amplitudes of any sign pattern for 3 qubits), any random draws in [0, 1); 1 to 3 "
    "measurements of any qubits in any order, together or one by one, into any bits, with gates between; state-vector and "
    "density-matrix simulation; product states of 3 qubits as density matrices and, in selected orders, of 4 and 5 qubits as vectors"
)
OUTSIDE = "other larger circuits; rounding at the edge of a probability; little-endian simulation, which refuses measurements"


def result(h, c, want, mixed, msg):
    if mixed:
        h.check_matrix(c.density_matrix, outer(h, want), msg)
    else:
        h.check_matrix(c.state, want, msg)


def measure(h, n, k, how, mixed, phases, stored):
    """k of n qubits in an arbitrary state are measured together or one after another."""
    draws = h.script_rng()
    order = h.perm("order", range(n), n)
    c = h.circuit.Circuit(n, k + 1)
    q, b = c.qubits, c.bits
    dest = h.perm("bit", range(k + 1), k) if stored == "bits" else list(range(k))
    with c.context:
        t = Tree(h, q, order, phases)
        if how == "together":
            m = h.ops.Measurement(tuple(q[i] for i in order[:k]))
            if stored == "bits":
                m | [b[i] for i in dest]
            elif stored == "register":
                m | b
            elif stored == "more":
                m | tuple(b)
        else:
            for i, j in zip(order[:k], dest):
                m = h.ops.Measurement(q[i] if h.flag("single") else [q[i]])
                if stored != "none":
                    m | b[j]
    if h.flag("preset"):
        for x in b:
            x.set(1)
        old = 1
    else:
        old = None
    h.sim.simulate(c, mixed_state=mixed)
    h.check(len(draws) == k, "one random draw per measured qubit")
    if stored == "none":
        h.check(all(x.value == old for x in b), "bits stay as they are when outcomes are not stored")
        out = []
        for i in range(k):  # read the outcomes off the draws
            out.append(0 if draws[i] < t.p0(out) else 1)
    else:
        out = [b[j].value for j in dest]
        h.check(all(type(x) is int and x in (0, 1) for x in out), "outcomes are 0 or 1")
        for i in range(k):
            t.check_draw(out, i, draws[i], f"outcome {i} follows the Born rule")
        for j in range(k + 1):
            if j not in dest:
                h.check(b[j].value == old, "other bits stay as they are")
    result(h, c, t.vector(n, out), mixed, "collapsed state")


def again(h, how, mixed):
    """A measured qubit gives the same outcome again, whatever is drawn."""
    draws = h.script_rng()
    c = h.circuit.Circuit(2, 3)
    q, b = c.qubits, c.bits
    with c.context:
        t = Tree(h, q, [1, 0])
        if how == "object":
            m = h.ops.Measurement(q[1]) | b[2]
            h.ops.Identity(q[0])
        elif how == "together":
            h.ops.Measurement((q[1], q[1])) | (b[0], b[2])
        else:
            h.ops.Measurement(q[1]) | b[0]
            if how == "flip":
                h.ops.X(q[1])
            h.ops.Measurement(q[1]) | b[2]
    if how == "object":
        # the same object, recorded twice
        c.unlock()
        c.append(m)
        h.sim.simulate(c, mixed_state=mixed)
        h.check(len(draws) == 2, "two random draws")
        t.check_draw([b[2].value], 0, draws[0], "outcome")
        return result(h, c, t.vector(2, [b[2].value]), mixed, "state")
    h.sim.simulate(c, mixed_state=mixed)
    h.check(b[2].value == (1 - b[0].value if how == "flip" else b[0].value), "outcome of the repeated measurement")
    t.check_draw([b[0].value], 0, draws[0], "first outcome")
    v = t.vector(2, [b[0].value])
    result(h, c, h.apply([[0, 1], [1, 0]], [1], v, 2) if how == "flip" else v, mixed, "state")


def overwrite(h, mixed):
    """Later outcomes replace earlier ones in the same bit."""
    draws = h.script_rng()
    c = h.circuit.Circuit(2, 1)
    q, b = c.qubits, c.bits
    with c.context:
        t = Tree(h, q, [0, 1])
        h.ops.Measurement(q[0]) | b[0]
        h.ops.Measurement(q[1]) | b[0]
    h.sim.simulate(c, mixed_state=mixed)
    first = 0 if draws[0] < t.p0([]) else 1
    t.check_draw([first, b[0].value], 1, draws[1], "the bit holds the last outcome")
    result(h, c, t.vector(2, [first, b[0].value]), mixed, "state")


def later(h, mixed):
    """Gates after a measurement act on the collapsed state."""
    draws = h.script_rng()
    c = h.circuit.Circuit(2, 2)
    q, b = c.qubits, c.bits
    with c.context:
        t = Tree(h, q, [1, 0])
        h.ops.Measurement(q[1]) | b[0]
        op = h.ops.CRY(h.angle("g"), q[1], q[0])
        op2 = h.ops.SWAP((q[0], q[1]))
        h.ops.Measurement(q[0]) | b[1]  # holds the qubit measured first
    h.sim.simulate(c, mixed_state=mixed)
    o = b[0].value
    t.check_draw([o], 0, draws[0], "first outcome")
    h.check(b[1].value == o, "outcome of the swapped qubit")
    v = h.apply(op2.matrix, [0, 1], h.apply(op.matrix, [1, 0], t.vector(2, [o]), 2), 2)
    result(h, c, v, mixed, "state")


def product(h, n, mixed):
    """More qubits, with arbitrary product amplitudes."""
    draws = h.script_rng()
    order = h.perm("order", range(3), 3) if n == 3 else list(h.choice("order", ([2, 0, 3, 1], [3, 1, 2, 0], [0, 3, 1, 2])))
    order += range(4, n)
    c = h.circuit.Circuit(n, n)
    q, b = c.qubits, c.bits
    with c.context:
        ts = [h.angle(f"t{i}") for i in range(2 if n > 3 else 3)]
        for i, t in zip(order, ts):
            h.ops.RY(t, q[i])
        for i in order[len(ts) :]:
            if i % 2:
                h.ops.X(q[i])
        h.ops.Measurement(tuple(q[i] for i in order)) | b
    h.sim.simulate(c, mixed_state=mixed)
    h.check(len(draws) == n, "one random draw per measured qubit")
    out = [x.value for x in b]
    for i in range(len(ts), n):
        h.check(out[i] == order[i] % 2, f"outcome {i} is certain")
    for i in range(len(ts)):
        low = draws[i] < h.cos(ts[i] / 2) ** 2
        h.check(low if out[i] == 0 else h.not_(low), f"outcome {i} follows the Born rule")
    # a basis state, up to a sign that its density matrix does not show
    d = 1 << n
    k = sum(v << (n - 1 - p) for v, p in zip(out, order))
    h.check_matrix(c.density_matrix, [[1 if i == j == k else 0 for j in range(d)] for i in range(d)], "collapsed state")


def pairing(h):
    """Bits are paired with qubits in order; too few bits are refused."""
    c = h.circuit.Circuit(3, 3)
    k = h.choice("k", [1, 2, 3])
    nb = h.choice("bits", [0, 1, 2, 3])
    with c.context:
        m = h.ops.Measurement(tuple(c.qubits[i] for i in range(k)))
        order = h.perm("b", range(3), nb)
        bits = [c.bits[i] for i in order]
        if nb < k:
            h.check_raises("too few bits", lambda: m | bits, exc=ValueError)
            h.check(m.bits is None, "no bits after a refused pairing")
        else:
            h.check((m | bits) is m, "returns the measurement")
            h.check_same(m.bits, bits[:k], "paired bits")


def harnesses(tier):
    deep = tier == "thorough"
    out = []
    for mixed in (False, True):
        out.append(Harness(f"one-{mixed}", measure, n=1, k=1, how="single", mixed=mixed, phases=True, stored="bits"))
        for how in ("together", "single"):
            for k in (1, 2):
                out.append(Harness(f"two-{k}-{how}-{mixed}", measure, n=2, k=k, how=how, mixed=mixed, phases=True, stored="bits"))
        out.append(Harness(f"unstored-{mixed}", measure, n=2, k=2, how="together", mixed=mixed, phases=False, stored="none"))
        out.append(Harness(f"register-{mixed}", measure, n=2, k=2, how="together", mixed=mixed, phases=False, stored="register"))
        for how in ("together", "one by one", "flip", "object"):
            out.append(Harness(f"again-{how}-{mixed}", again, how=how, mixed=mixed))
        out.append(Harness(f"overwrite-{mixed}", overwrite, mixed=mixed))
        out.append(Harness(f"later-{mixed}", later, mixed=mixed))
    out.append(Harness("more", measure, n=2, k=1, how="together", mixed=False, phases=False, stored="more"))
    for k in (1, 2, 3) if deep else (2,):
        for how in ("together", "single"):
            out.append(Harness(f"three-{k}-{how}", measure, n=3, k=k, how=how, mixed=False, phases=False, stored="register" if how == "together" else "bits"))
    if deep:
        out.append(Harness("three-mixed", measure, n=3, k=2, how="together", mixed=True, phases=False, stored="register"))
    out.append(Harness("product-3", product, n=3, mixed=True))
    for n in (4, 5):
        out.append(Harness(f"product-{n}", product, n=n, mixed=False))
    out.append(Harness("pairing", pairing))
    return out
