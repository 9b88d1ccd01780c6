"""Conditional operations."""
from props.circ import KINDS, Tree, build, outer, prefix, reference, reversed_bits, wide, width
from props.gates import GATES
from sx.api import Harness

KERNELS = True
PRELOAD = ("dwave.gate.simulator.simulator", "dwave.gate.operations")
BOUNDS = (
    "any product state of up to 3 qubits and one conditional operation of each kind on any qubits, conditioned on 1 to 4 "
    "bits in any order, given as bit, list, tuple or register; bits preset to 0 or 1 (or unset beside a 0), or measured "
    "earlier in the same run from any state with any draws; both simulation methods and both index orders; "
    "conditional parametric operations of circuits that are evaluated or applied; the same operation twice in a row with equal or different conditions, or recorded twice with its bit measured in between; one conditional gate at selected positions of 5 qubits"
)
OUTSIDE = "longer circuits; conditions with an unset bit beside ones only (unspecified)"


def final(h, c, v, n, mixed, little, msg):
    if little:
        v = [v[reversed_bits(i, n)] for i in range(1 << n)]
    if mixed:
        h.check_matrix(c.density_matrix, outer(h, v), msg)
    else:
        h.check_matrix(c.state, v, msg)


def condition(h, bits, reg, form):
    if form == "bit":
        return bits[0]
    if form == "register":
        return reg
    return list(bits) if form == "list" else tuple(bits)


def preset(h, kind, n, k, form, mixed, little):
    """Bits set before the simulation."""
    c = h.circuit.Circuit(n)
    q = c.qubits
    c.add_cregister(k, "cond")
    c.add_bit()
    order = h.perm("bit", range(k), k) if form != "register" else list(range(k))
    bits = [c.cregisters["cond"][i] for i in order]
    vals = [h.choice(f"value{i}", [0, 1, None]) for i in range(k)]
    if None in vals and 0 not in vals:
        return h.assume(False)
    for b, x in zip(bits, vals):
        if x is not None:
            b.set(x)
    pos = h.perm("q", range(n), width(kind))
    with c.context:
        steps = prefix(h, q, n, False)
        op = build(h, kind)([q[i] for i in pos])
        h.check(op.conditional(condition(h, bits, c.cregisters["cond"], form)) is op, "conditional returns the operation")
    h.check(len(c.circuit) == n + 1, "one operation")
    h.sim.simulate(c, mixed_state=mixed, little_endian=little)
    if all(x == 1 for x in vals):
        steps.append((op.matrix, pos))
    final(h, c, reference(h, steps, n), n, mixed, little, "state")
    h.check(all((b.value is None) if x is None else b.value == x for b, x in zip(bits, vals)), "the bits stay as they are")
    # the same circuit with other values
    if h.flag("flip"):
        for b in bits:
            b.set(1, force=True)
        h.sim.simulate(c, mixed_state=mixed, little_endian=little)
        if not all(x == 1 for x in vals):
            steps.append((op.matrix, pos))
        final(h, c, reference(h, steps, n), n, mixed, little, "state after changing the bits")


def measured(h, kind, k, mixed):
    """Bits measured earlier in the same run; earlier values do not matter."""
    draws = h.script_rng()
    n = max(2, width(kind))
    c = h.circuit.Circuit(n, 2)
    q, b = c.qubits, c.bits
    old = h.choice("old", [None, 0, 1])
    if old is not None:
        b[0].set(old)
        b[1].set(1 - old)
    with c.context:
        t = Tree(h, q, [1, 0] if k == 2 else [1], False)
        if k == 1:
            h.ops.RX(h.angle("x"), q[0])
        if h.flag("split"):
            for i, p in enumerate([1, 0][:k]):
                h.ops.Measurement(q[p]) | b[i]
        else:
            h.ops.Measurement(tuple(q[p] for p in [1, 0][:k])) | tuple(b[i] for i in range(2))[:k]
        pos = h.choice("q", [(0, 1, 2), (n - 1, 0, 1)])[: width(kind)]
        op = build(h, kind)([q[i] for i in pos])
        op.conditional(b[0] if k == 1 else h.choice("form", [[b[0], b[1]], (b[1], b[0])]))
    h.sim.simulate(c, mixed_state=mixed)
    out = [b[i].value for i in range(k)]
    for i in range(k):
        t.check_draw(out, i, draws[i], "outcome")
    v = t.vector(n, out)
    if k == 1:
        v = h.apply(c.circuit[1].matrix, [0], v, n)
    if all(out):
        v = h.apply(op.matrix, pos, v, n)
    final(h, c, v, n, mixed, False, "state")


def chain(h, mixed):
    """A condition sees the last outcome written before it is reached, not a later one."""
    draws = h.script_rng()
    c = h.circuit.Circuit(2, 1)
    q, b = c.qubits, c.bits
    with c.context:
        t = Tree(h, q, [0], False)
        h.ops.Measurement(q[0]) | b[0]
        h.ops.X(q[1]).conditional(b[0])
        h.ops.X(q[0])
        h.ops.Measurement(q[0]) | b[0]  # the opposite outcome
        op = h.ops.RY(h.angle("y"), q[1]).conditional([b[0]])
    h.sim.simulate(c, mixed_state=mixed)
    first = 1 - b[0].value
    t.check_draw([first], 0, draws[0], "first outcome")
    v = [0] * 4
    v[2 * (1 - first) + first] = 1
    if not first:
        v = h.apply(op.matrix, [1], v, 2)
    final(h, c, v, 2, mixed, False, "state")


def larger(h, kind, n, mixed):
    """Conditional operations in circuits of more qubits."""
    c, steps = wide(h, n, kind)
    c.add_cregister(3)
    for b in c.bits:
        b.set(1)
    i = h.choice("bit", (0, 2))
    v = h.choice("value", (0, 1))
    c.bits[i].set(v, force=True)
    op = c.circuit[-1]
    op.conditional(tuple(c.bits) if h.flag("all") else c.bits[i])
    h.sim.simulate(c, mixed_state=mixed)
    final(h, c, reference(h, steps if v else steps[:-1], n), n, mixed, False, "state")


def again(h, kind, mixed):
    """An operation recorded twice depends on its bit each time."""
    draws = h.script_rng()
    c = h.circuit.Circuit(2, 1)
    q, b = c.qubits, c.bits
    with c.context:
        t = Tree(h, q, [0], False)
    c.unlock()
    old = h.choice("old", [0, 1])
    b[0].set(old)
    pos = [0, 1][-width(kind) :]
    op = build(h, kind)([q[p] for p in pos]).conditional(b[0])
    rx = h.ops.RX(h.angle("x"), q[1])
    m = h.ops.Measurement(q[0]) | b[0]
    c.extend([rx, op, m, op])
    h.sim.simulate(c, mixed_state=mixed)
    o = b[0].value
    t.check_draw([o], 0, draws[0], "outcome")
    v = h.apply(rx.matrix, [1], t.vector(2, [o]), 2)
    for x in (old, o):
        if x:
            v = h.apply(op.matrix, pos, v, 2)
    # gates controlled by the measured qubit and ones on the other commute with its measurement
    final(h, c, v, 2, mixed, False, "state")


def conditional_measurement(h, mixed, preset):
    """A blocked measurement draws nothing and writes nothing."""
    draws = h.script_rng()
    c = h.circuit.Circuit(2, 3)
    q, b = c.qubits, c.bits
    old = h.choice("old", [None, 0, 1])
    if old is not None:
        b[2].set(old)
    with c.context:
        t = Tree(h, q, [1, 0], False)
        if preset:
            b[0].set(h.choice("x", [0, 1]))
        else:
            h.ops.Measurement(q[1]) | b[0]
        (h.ops.Measurement(q[0] if not preset else (q[1], q[0])) | (b[2] if not preset else (b[2], b[1]))).conditional(b[0])
    h.sim.simulate(c, mixed_state=mixed)
    x = b[0].value
    if preset:
        out = [] if not x else [b[2].value, b[1].value]
    else:
        out = [x] if not x else [x, b[2].value]
    h.check(len(draws) == len(out), "one draw per measured qubit, none if blocked")
    for i in range(len(out)):
        t.check_draw(out, i, draws[i], "outcome")
    if not x:
        h.check(b[2].value == old and b[1].value is None, "a blocked measurement writes no bit")
    final(h, c, t.vector(2, out), 2, mixed, False, "state")


def many(h, mixed):
    """Several conditional and unconditional operations keep their own conditions."""
    c = h.circuit.Circuit(2, 2)
    q, b = c.qubits, c.bits
    vals = [h.choice(f"v{i}", [0, 1]) for i in range(2)]
    for x, y in zip(b, vals):
        x.set(y)
    with c.context:
        steps = prefix(h, q, 2, False)
        ops = []
        for i in range(3):
            which = h.choice(f"on{i}", ["none", "0", "1", "both"]) if i < 2 else "none"
            op = (h.ops.RX if i % 2 else h.ops.RY)(h.angle(f"a{i}"), q[i % 2])
            cond = {"none": [], "0": [0], "1": [1], "both": [1, 0]}[which]
            if cond:
                op.conditional([b[j] for j in cond])
            if all(vals[j] for j in cond):
                steps.append((op.matrix, [i % 2]))
    h.sim.simulate(c, mixed_state=mixed)
    final(h, c, reference(h, steps, 2), 2, mixed, False, "state")


def pairs(h, kind, mixed):
    """The same operation twice in a row, each with its own condition."""
    c = h.circuit.Circuit(2, 2)
    q, b = c.qubits, c.bits
    vals = [h.choice(f"v{i}", [0, 1]) for i in range(2)]
    for x, y in zip(b, vals):
        x.set(y)
    pos = [(0, 1), (1, 0)][h.index("pos", 2)][: width(kind)]
    with c.context:
        steps = prefix(h, q, 2, False)
        make = build(h, kind)
        done = []
        for i in range(2):
            on = h.choice(f"on{i}", [(), (0,), (1,), (0, 1)])
            op = make([q[j] for j in pos])
            if on:
                op.conditional(b[on[0]] if len(on) == 1 else tuple(b[j] for j in on))
            if all(vals[j] for j in on):
                done.append(op)
    steps += [(op.matrix, pos) for op in done]
    h.sim.simulate(c, mixed_state=mixed)
    final(h, c, reference(h, steps, 2), 2, mixed, False, "state")


def evaluated(h, kind, how, mixed):
    """Conditions of circuits that are evaluated, applied or put together of evaluated operations."""
    draws = h.script_rng()
    npar, w, _, matrix = GATES[kind]
    n = 2
    c = h.circuit.ParametricCircuit(n, 2)
    q, b = c.qubits, c.bits
    pos = h.perm("q", range(n), w)
    x = [h.angle(f"x{i}") for i in range(npar)]
    with c.context as regs:
        t = Tree(h, q, [1], False)
        m = h.ops.Measurement(q[1]) | b[1]
        op = getattr(h.ops, kind)([regs.p[i] for i in range(npar)], qubits=[q[i] for i in pos])
        op.conditional(b[1])
        h.ops.X(q[0]).conditional([b[1]])
    vals = [x if o is op else [] for o in c.circuit]
    if how == "variables":
        for p, v in zip(c._parameter_register, x):
            p.set(v)
    if how in ("copy", "inplace"):
        e = c.eval(vals, inplace=True) if how == "inplace" else c.eval(vals)
    elif how == "variables":
        e = c.eval()
    elif how == "applied":
        e = h.circuit.Circuit(n, 2)
        with e.context as r:
            c(x, r.q, r.c)
    else:
        e = h.circuit.Circuit()
        for i in range(n):
            e.add_qubit(q[i])
            e.add_bit(b[i])
        e.extend([op.eval(x) if o is op else o for o in c.circuit])
    h.sim.simulate(e, mixed_state=mixed)
    out = [e.bits[1].value]
    t.check_draw(out, 0, draws[0], "outcome")
    v = t.vector(n, out)
    if out[0]:
        v = h.apply(matrix(h, *x), pos, v, n)
        v = h.apply([[0, 1], [1, 0]], [0], v, n)
    final(h, e, v, n, mixed, False, "state")


def harnesses(tier):
    deep = tier == "thorough"
    out = []

    def add(kind, n, k, form, mixed, little):
        out.append(Harness(f"preset-{kind}-{n}-{k}-{form}-{mixed}-{little}", preset, kind=kind, n=n, k=k, form=form, mixed=mixed, little=little))

    forms = ("bit", "list", "tuple", "register")
    for i, kind in enumerate(KINDS):
        n = max(width(kind), 2)
        big = n == 3
        for mixed in (False, True):
            for little in (False, True):
                if deep:
                    add(kind, n, 2, forms[1 + (i + mixed) % 3], mixed, little)
                    add(kind, n, 1, "bit", mixed, little)
                elif not big or not mixed:
                    form = forms[(i + mixed + 2 * little) % 4]
                    add(kind, n, 1 if form == "bit" else 2, form, mixed, little)
        for mixed in (False, True):
            if deep or not (big and mixed):
                out.append(Harness(f"measured-{kind}-{mixed}", measured, kind=kind, k=1 if big or mixed else 2, mixed=mixed))
    if deep:
        add("Rotation", 2, 3, "list", False, False)
        add("CY", 2, 3, "register", False, True)
        for kind in ("Y", "CRY", "SWAP"):
            out.append(Harness(f"measured2-{kind}", measured, kind=kind, k=2, mixed=True))
    for mixed in (False, True):
        add("Y", 1, 3, "tuple" if mixed else "list", mixed, False)
    add("Y", 1, 4, "register", False, False)
    for i, kind in enumerate(("X", "RX", "CX", "SWAP", "CRZ", "Hadamard", "S") if deep else ("X", "RX", "CX", "SWAP")):
        for mixed in (False, True) if deep else (i % 2 == 1,):
            out.append(Harness(f"pairs-{kind}-{mixed}", pairs, kind=kind, mixed=mixed))
    for kind in ("CRY", "CSWAP"):
        out.append(Harness(f"larger-5-{kind}", larger, kind=kind, n=5, mixed=False))
    for i, kind in enumerate(("RX", "CRY", "Rotation")):
        for j, how in enumerate(("copy", "inplace", "variables", "applied", "operations")):
            for mixed in (False, True) if deep else ((i + j) % 2 == 1,):
                out.append(Harness(f"evaluated-{kind}-{how}-{mixed}", evaluated, kind=kind, how=how, mixed=mixed))
    for mixed in (False, True):
        out.append(Harness(f"chain-{mixed}", chain, mixed=mixed))
        for kind in ("RY", "CRY") if deep else ("CRY",):
            out.append(Harness(f"again-{kind}-{mixed}", again, kind=kind, mixed=mixed))
        out.append(Harness(f"many-{mixed}", many, mixed=mixed))
        for p in (False, True):
            out.append(Harness(f"measurement-{mixed}-{p}", conditional_measurement, mixed=mixed, preset=p))
    return out
