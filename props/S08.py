"""Simulation is repeatable and leaves the circuit and the user's matrices alone."""
import numpy

from props.circ import Tree, build, general2, prefix, reference, width
from sx.api import Harness

KERNELS = True
PRELOAD = ("dwave.gate.simulator.simulator", "dwave.gate.operations")
BOUNDS = (
    "circuits of up to 3 qubits with an arbitrary product state, one gate of each kind, a measurement and a condition, "
    "any parameters and random draws; up to 3 simulations in different modes; operation objects shared by two circuits or changed in between; bits preset by the user; user matrices: any unitary, in C, Fortran, "
    "transposed, strided and read-only layout, and real or integer matrices"
)
OUTSIDE = "larger circuits; conditions on bits that are measured later in the circuit and hold values of an earlier run"


def layout(h, how, m):
    """The matrix m as a user may hold it."""
    if how == "C":
        return h.array(m)
    if how == "F":
        return h.array(m, order="F")
    if how == "transposed":
        return h.array([list(r) for r in zip(*m)]).T
    if how == "readonly":
        a = h.array(m)
        a.flags.writeable = False
        return a
    if how == "strided":
        big = h.array([[m[i // 2][j // 2] if i % 2 == 0 and j % 2 == 0 else 7 for j in range(4)] for i in range(4)])
        return big[::2, ::2]
    raise AssertionError(how)


def matrices(h, how, kind, mixed, little):
    m = general2(h, "m")
    a = layout(h, how, m)
    n = 1 if kind == "user" else 2
    q = h.perm("q", range(n), n)
    c = h.circuit.Circuit(n)
    with c.context:
        steps = prefix(h, c.qubits, n, False)
        if kind == "user":
            h.user_gate(a)(c.qubits[0])
            steps.append((m, [0]))
        else:
            h.user_controlled(a, 1)(c.qubits[q[0]], c.qubits[q[1]])
            steps.append(([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0] + m[0], [0, 0] + m[1]], q))
    want = reference(h, steps, n)
    if little:
        want = [want[int(format(i, f"0{n}b")[::-1], 2)] for i in range(1 << n)]
    for turn in ("first", "second"):
        h.sim.simulate(c, mixed_state=mixed, little_endian=little)
        if mixed:
            h.check_matrix(c.density_matrix, [[x * h.conj(y) for y in want] for x in want], f"{turn} density matrix, {how} matrix")
        else:
            h.check_matrix(c.state, want, f"{turn} state, {how} matrix")
        h.check_matrix(a, m, f"the user's matrix after the {turn} simulation")


def plain(h, dtype, kind):
    """Real and integer matrices are gates like any other."""
    a = numpy.array([[0, 1], [1, 0]], dtype=dtype)
    n = 1 if kind == "user" else 2
    c = h.circuit.Circuit(n)
    with c.context:
        steps = prefix(h, c.qubits, n, True)
        if kind == "user":
            h.user_gate(a)(c.qubits[0])
            steps.append(([[0, 1], [1, 0]], [0]))
        else:
            h.user_controlled(a, 1)(c.qubits[0], c.qubits[1])
            steps.append(([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], [0, 1]))
    h.sim.simulate(c, mixed_state=h.flag("mixed"))
    v = reference(h, steps, n)
    h.check_matrix(c.density_matrix, [[x * h.conj(y) for y in v] for x in v], f"{dtype} matrix")


def left(h, n, kind, mixed):
    """States left in a circuit are no starting points."""
    c = h.circuit.Circuit(n)
    t = h.angle("t")
    d = 1 << n
    v = h.array([h.cos(t)] + [0] * (d - 2) + [h.sin(t)])
    m = h.array([[(h.cos(t) ** 2 if i == 0 else h.sin(t) ** 2) if i == j and i in (0, d - 1) else 0 for j in range(d)] for i in range(d)])
    if kind is not None:
        with c.context:
            op = build(h, kind)(list(c.qubits)[::-1][: width(kind)])
    how = h.choice("preset", ("vector", "matrix", "none"))
    if how != "none":
        c.set_state(v if how == "vector" else m)
    want = [1] + [0] * ((1 << n) - 1)
    if kind is not None:
        want = h.apply(op.matrix, list(range(n))[::-1][: width(kind)], want, n)
    for turn in ("first", "second"):
        h.sim.simulate(c, mixed_state=mixed, little_endian=h.flag(turn)) if kind is None else h.sim.simulate(c, mixed_state=mixed)
        h.check_matrix(c.density_matrix, [[x * h.conj(y) for y in want] for x in want], f"density matrix of the {turn} simulation")
        if not mixed:
            h.check_matrix(c.state, want, f"state of the {turn} simulation")


def snapshot(c):
    ops = list(c.circuit)
    return (
        ops,
        [list(op.qubits) for op in ops],
        [list(op.parameters) if hasattr(op, "parameters") else None for op in ops],
        [getattr(op, "_cond", None) for op in ops],
        [list(op.bits) if getattr(op, "bits", None) else None for op in ops],
        [(k, list(r)) for k, r in c.qregisters.items()],
        [(k, list(r)) for k, r in c.cregisters.items()],
        c.is_locked(),
        list(c.qubits),
        list(c.bits),
    )


def same(h, x, y):
    if isinstance(x, (list, tuple)):
        return isinstance(y, (list, tuple)) and len(x) == len(y) and all(same(h, a, b) for a, b in zip(x, y))
    return x is y or bool(h.eq(x, y))


def repeat(h, kind, between, mixed):
    draws = h.script_rng()
    n = {"CSWAP": 3, "CCX": 3}.get(kind, 2)
    c = h.circuit.Circuit(n, 2)
    q, b = c.qubits, c.bits
    with c.context:
        Tree(h, q, [1, 0], False)
        if n > 2:
            h.ops.RX(h.angle("x"), q[2])
        h.ops.Measurement(q[1]) | b[1]
        h.ops.X(q[0]).conditional(b[1])
        h.ops.Measurement(q[0]) | b[0]
        build(h, kind)([q[i] for i in {1: (0,), 2: (1, 0), 3: (2, 0, 1)}[width(kind)]])
    if h.flag("unlocked"):
        c.unlock()
    before = snapshot(c)
    seed = h.int("seed", 0, 2**40)
    h.sim.simulate(c, mixed_state=mixed, rng_seed=seed)
    first = h.tolist(c.density_matrix if mixed else c.state)
    bits = [x.value for x in b]
    used = list(draws)
    h.check(len(h.seeds) == 1 and h.seeds[0] is not None and h.eq(h.seeds[0], seed), "the random generator is made from rng_seed")
    h.check(same(h, before, snapshot(c)), "simulation leaves the circuit as it was")
    if between == "again":
        h.sim.simulate(c)
    elif between == "other":
        d = h.circuit.Circuit(1)
        with d.context:
            h.ops.X(d.qubits[0])
        h.sim.simulate(d)
    elif between == "mixed":
        h.sim.simulate(c, mixed_state=not mixed)
    elif between == "preset":
        c.set_state(h.array([0] * ((1 << n) - 1) + [1]), force=True)
        h.raises(h.sim.simulate, c, little_endian=True)
    h.replay_draws(used)
    h.sim.simulate(c, mixed_state=mixed, rng_seed=seed)
    h.check_matrix(c.density_matrix if mixed else c.state, first, "state of the repeated simulation")
    h.check([x.value for x in b] == bits, "measured bits of the repeated simulation")
    h.check(same(h, before, snapshot(c)), "repeated simulation leaves the circuit as it was")


def preset(h, mixed, value):
    """Bits set by the user and written by no measurement keep their values from run to run."""
    draws = h.script_rng()
    c = h.circuit.Circuit(2, 3)
    q, b = c.qubits, c.bits
    first = h.flag("condition first")
    with c.context:
        t = Tree(h, q, [1, 0], False)
        if first:
            h.ops.Y(q[0]).conditional(b[0])
        h.ops.Measurement(q[1]) | b[2]
        if not first:
            h.ops.Y(q[0]).conditional((b[0], b[2]))
    b[0].set(value)
    if h.flag("third"):
        b[1].set(value)
    keep = b[1].value
    runs = []
    for i in range(3):
        if i:
            h.replay_draws(used)
        h.sim.simulate(c, mixed_state=mixed if i < 2 else not mixed, rng_seed=5)
        used = used if i else list(draws)
        h.check(b[0].value == value and b[1].value == keep, f"bits set by the user, run {i}")
        runs.append((h.tolist(c.density_matrix), b[2].value))
    for i in (1, 2):
        h.check(runs[i][1] == runs[0][1], f"outcome of run {i}")
        h.check_matrix(h.array(runs[i][0]), runs[0][0], f"state of run {i}")


def shared(h, kind, mixed):
    """One operation object in two circuits that hold its qubits at different positions."""
    w = width(kind)
    n = max(w, 2)
    c, d = h.circuit.Circuit(n), h.circuit.Circuit()
    order = h.perm("order", range(n), n)
    for i in order:
        d.add_qubit(c.qubits[i])
    pos = list(range(w))[::-1]
    op = build(h, kind)([c.qubits[i] for i in pos])
    m = op.matrix
    steps = []
    for x in (c, d):
        with x.context:
            steps.append(prefix(h, x.qubits, n, False) if x is c or w < 3 else [])
        x.unlock()
        x.append(op)
    first = reference(h, steps[0] + [(m, pos)], n)
    second = reference(h, steps[1] + [(m, [order.index(i) for i in pos])], n)
    for x, v, name in ((c, first, "first"), (d, second, "second"), (c, first, "first, again,")):
        h.sim.simulate(x, mixed_state=mixed)
        if mixed:
            h.check_matrix(x.density_matrix, [[a * h.conj(b) for b in v] for a in v], f"density matrix of the {name} circuit")
        else:
            h.check_matrix(x.state, v, f"state of the {name} circuit")


def moved(h, kind, mixed):
    """Parameters or qubits of an operation changed between two simulations."""
    w = width(kind)
    n = max(w, 2)
    c = h.circuit.Circuit(n)
    with c.context:
        steps = prefix(h, c.qubits, n, False)
        op = build(h, kind)(c.qubits[:w])
    h.sim.simulate(c, mixed_state=mixed)
    pos = h.perm("pos", range(n), w)
    op.qubits = [c.qubits[i] for i in pos]
    if hasattr(op, "parameters"):
        for i in range(len(op.parameters)):
            op.parameters[i] = h.angle(f"new.{i}")
    h.sim.simulate(c, mixed_state=mixed)
    v = reference(h, steps + [(op.matrix, pos)], n)
    h.check_matrix(c.density_matrix, [[a * h.conj(b) for b in v] for a in v], "state after changing the operation")


def harnesses(tier):
    deep = tier == "thorough"
    out = []
    for how in ("C", "F", "transposed", "readonly", "strided"):
        for kind in ("user", "cuser"):
            for mixed in (False, True):
                for little in (False, True):
                    if deep or not little or how == "F":
                        out.append(Harness(f"layout-{how}-{kind}-{mixed}-{little}", matrices, how=how, kind=kind, mixed=mixed, little=little))
    for dtype in ("float64", "int64", "bool"):
        for kind in ("user", "cuser"):
            out.append(Harness(f"plain-{dtype}-{kind}", plain, dtype=dtype, kind=kind))
    for i, kind in enumerate(("RX", "Rotation", "CRX", "SWAP", "CSWAP", "user", "cuser")):
        for mixed in (False, True):
            if deep and kind != "CSWAP" or mixed == (i % 3 == 2):
                out.append(Harness(f"shared-{kind}-{mixed}", shared, kind=kind, mixed=mixed))
                out.append(Harness(f"moved-{kind}-{mixed}", moved, kind=kind, mixed=mixed))
    for mixed in (False, True):
        for value in (0, 1):
            out.append(Harness(f"preset-{mixed}-{value}", preset, mixed=mixed, value=value))
        for n, kind in ((1, None), (2, None), (1, "RY"), (2, "CRX")):
            out.append(Harness(f"left-{n}-{kind}-{mixed}", left, n=n, kind=kind, mixed=mixed))
    kinds = ("Y", "Rotation", "CY", "CRX", "SWAP", "CSWAP", "CCX", "user", "cuser")
    for i, kind in enumerate(kinds):
        for j, between in enumerate(("again", "other", "mixed", "preset")):
            if deep or i % 4 == j:
                for mixed in ((False, True) if deep and kind not in ("CSWAP", "CCX") else (False,)):
                    out.append(Harness(f"repeat-{kind}-{between}-{mixed}", repeat, kind=kind, between=between, mixed=mixed))
    out.append(Harness("repeat-mixed", repeat, kind="CRX", between="mixed", mixed=True))
    return out
