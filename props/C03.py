"""Changes of a circuit that are refused leave it as it was."""
from props.circmodel import Model, agree
from props.gates import GATES
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "circuits with two registers (one of them may be empty) of qubits and of bits (any labels, in the register harnesses also numbers and the empty text, values and lock) and up to 2 operations, parametric or not, "
    "with or without a state; one refused change of each kind: any item or label that is present, objects of other types, "
    "frozen registers, every built-in gate, measurement, barrier, custom or user-defined operation with a qubit of no or another "
    "circuit at any position, given to append, extend, a context or an applied circuit, alone or after valid operations"
)
OUTSIDE = "registers and operations changed directly instead of through the circuit; bits of measurements and conditions"


def circuit(h, cls="Circuit", ops=1, bits=True, sizes=(1, 2), special=False):
    """A circuit and its model; with special, one register label may be the empty text or a number."""
    odd = h.choice("special label", (None, 0, "", 1, 2.5)) if special else None
    where = h.choice("special register", (0, 1)) if odd is not None else None
    m = Model()
    c = getattr(h.circuit, cls)()
    labels = {}
    for kind in "qc" if bits else "q":
        for r, n in enumerate(sizes):
            l = odd if where == r else h.atom(f"{kind}{r}")
            if r:
                h.assume(h.not_(h.eq(l, labels[kind])))
            labels[kind] = l
            (c.add_qregister if kind == "q" else c.add_cregister)(n, l)
            getattr(m, kind).append((l, list((c.qregisters if kind == "q" else c.cregisters)[l])))
    if bits:
        b = m.items("c")[h.choice("valued", (0, 1))]
        v = h.choice("value", (None, 0, 1))
        if v is not None:
            b.set(v)
            m.bits_set[id(b)] = v
    if ops:
        with c.context as regs:
            q = regs.q
            m.ops.append(h.ops.CX(q[2], q[0]))
            if cls != "Circuit":
                m.ops.append(h.ops.RX(regs.p[0], q[1]))
        c.unlock()
    return c, m


def snap(c):
    return [(op, op.qubits, list(getattr(op, "parameters", []))) for op in c.circuit], c.num_parameters, c.parametric


def same(h, c, m, old, msg):
    agree(h, c, m, msg)
    new = snap(c)
    for (a, q, p), (b, r, s) in zip(new[0], old[0]):
        h.check(a is b and q is r or (len(q) == len(r) and all(x is y for x, y in zip(q, r))), f"{msg}: qubits of an operation")
        h.check(len(p) == len(s) and all(x is y for x, y in zip(p, s)), f"{msg}: parameters of an operation")
    h.check(new[1] == old[1] and new[2] == old[2], f"{msg}: parameters")


def works(h, c, m, msg):
    """The circuit is usable after a refused change."""
    if c.is_locked():
        c.unlock()
        m.locked = False
    x = h.prim.Qubit("new")
    c.add_qubit(x, m.q[1][0])
    m.q[1][1].append(x)
    with c.context:
        m.ops.append(h.ops.SWAP((x, m.items("q")[0])))
    m.locked = True
    agree(h, c, m, f"{msg}: used again")


def items(h, kind, cls):
    """Qubits and bits that are present, of other types, or for frozen registers."""
    c, m = circuit(h, cls, ops=2)
    if h.flag("locked"):
        c.lock()
        m.locked = True
    add = c.add_qubit if kind == "q" else c.add_bit
    regs = c.qregisters if kind == "q" else c.cregisters
    where = h.choice("where", ("none", "old", "new"))
    label = None if where == "none" else getattr(m, kind)[h.index("which", 2)][0] if where == "old" else h.atom("label")
    how = h.choice("how", ("present", "type", "frozen"))
    old = snap(c)
    if how == "present":
        present = m.items(kind)
        x = present[h.index("item", len(present))]
        h.check_raises("an item that is present", add, x, label, exc=ValueError)
    elif how == "type":
        x = h.choice("object", ["bit", "text", 0, 1, 0.5, "variable", "list"])
        x = (
            (h.prim.Bit if kind == "q" else h.prim.Qubit)("x") if x == "bit"
            else h.prim.Variable("x") if x == "variable"
            else [(h.prim.Qubit if kind == "q" else h.prim.Bit)("x")] if x == "list"
            else x
        )
        h.check_raises("an object of another type", add, x, label, exc=TypeError)
    else:
        for _, r in regs.items():
            r.freeze()
        if where == "new":
            h.assume(any(bool(h.eq(label, l)) for l in m.labels(kind)))
        x = (h.prim.Qubit if kind == "q" else h.prim.Bit)("x") if h.flag("given") else None
        h.check_raises("an item for a frozen register", add, x, label)
        same(h, c, m, old, f"after a refused item ({how})")
        return
    same(h, c, m, old, f"after a refused item ({how})")
    works(h, c, m, how)


def registers(h, kind, cls, sizes):
    c, m = circuit(h, cls, sizes=sizes, special=True)
    add = c.add_qregister if kind == "q" else c.add_cregister
    n = h.choice("n", (0, 1, 2))
    old = snap(c)
    if h.flag("known"):
        label = getattr(m, kind)[h.index("which", 2)][0]
    else:
        label = h.atom("label")
        h.assume(any(bool(h.eq(label, l)) for l in m.labels(kind)))
    h.check_raises("a register label that is present", add, n, label, exc=ValueError)
    same(h, c, m, old, "after a refused register")
    h.check_raises("sizes are numbers", add, "a", "another")
    same(h, c, m, old, "after a register without a size")
    works(h, c, m, "register")


def make(h, kind, qubits, values, custom=None):
    """An operation of the kind on the qubits (fewer are completed by the caller)."""
    if kind in GATES:
        npar, nq, nc, _ = GATES[kind]
        a = [values[:npar]] if npar else []
        cls = getattr(h.ops, kind)
        return cls(*a, qubits=tuple(qubits[:nq]))
    if kind == "custom":
        return custom(tuple(qubits[:2]))
    if kind == "user":
        return h.user_gate(None)(qubits[0])
    return getattr(h.ops, kind)(tuple(qubits[:2]))


def custom_operation(h):
    sub = h.circuit.Circuit(2)
    with sub.context as regs:
        h.ops.X(regs.q[1])
    return h.ops.create_operation(sub)


def size(kind):
    return GATES[kind][1] if kind in GATES else 1 if kind == "user" else 2


def foreign(h, gate, cls, way):
    """Operations on a qubit the circuit does not have."""
    c, m = circuit(h, cls, bits=False)
    n = size(gate)
    custom = custom_operation(h)
    own = m.items("q")
    d = h.circuit.Circuit(1)
    y = d.qubits[0] if h.flag("other circuit") else h.prim.Qubit(h.choice("text", ("0", "1")))
    at = h.index("position", n)
    qubits = list(own[:n])
    qubits[at] = y
    values = [h.real(f"p{i}", -10, 10) for i in range(GATES[gate][0] if gate in GATES else 0)]
    old = snap(c)
    if way == "append":
        op = make(h, gate, qubits, values, custom)
        h.check_raises("an operation on another qubit", c.append, op, exc=ValueError)
    elif way == "extend":
        op = make(h, gate, qubits, values, custom)
        good = h.ops.Z(own[0])
        after = h.flag("after")
        h.check_raises("operations on other qubits", c.extend, [good, op] if not after else [good, op, h.ops.Z(own[1])], exc=ValueError)
    elif way == "context":
        before = h.flag("before")
        with c.context:
            if before:
                m.ops.append(h.ops.Y(own[1]))
                old = snap(c)
            h.check_raises("an operation on another qubit", make, h, gate, qubits, values, custom, exc=ValueError)
            agree(h, c, m, "within the context")
            h.check(h.circuit.CircuitContext.active_context is c.context, "the context stays active")
        m.locked = True
    elif way == "frozen":
        # nothing is appended while frozen
        with c.context:
            with c.context.freeze:
                make(h, gate, qubits, values, custom)
        m.locked = True
    else:
        # an applied circuit: first valid operations, then one on the other qubit
        sub = h.circuit.Circuit(n + 1)
        with sub.context:
            h.ops.X(sub.qubits[n])
            make(h, gate, list(sub.qubits), values, custom)
        given = qubits + [own[2]] if n < 3 else qubits + [h.prim.Qubit("z")]
        with c.context:
            before = h.flag("before")
            if before:
                m.ops.append(h.ops.Y(own[1]))
                old = snap(c)
            h.check_raises("a circuit applied to another qubit", sub, given, exc=ValueError)
            agree(h, c, m, "within the context")
        m.locked = True
    same(h, c, m, old, "after a refused operation")
    works(h, c, m, "operation")


def absent(h, cls):
    """Operations that are not there cannot be removed; the circuit keeps its state."""
    c, m = circuit(h, cls, bits=False)
    own = m.items("q")
    k = h.index("state", 8)
    mixed = h.flag("mixed")
    state = h.array([[1 if i == j == k else 0 for j in range(8)] for i in range(8)] if mixed else [1 if i == k else 0 for i in range(8)])
    c.set_state(state)
    if h.flag("locked"):
        c.lock()
        m.locked = True
    x = h.ops.Y(own[h.index("q", 3)])
    old = snap(c)
    h.check_raises("an operation that is not there", c.remove, x, exc=ValueError)
    same(h, c, m, old, "after a refused removal")
    h.check((c.density_matrix if mixed else c.state) is state, "the state after a refused removal")


def locked(h, cls):
    """A locked circuit refuses operations and being entered."""
    c, m = circuit(h, cls, bits=False)
    c.lock()
    m.locked = True
    op = h.ops.X(m.items("q")[h.index("q", 3)])
    old = snap(c)
    how = h.choice("how", ("append", "extend", "enter"))
    if how == "append":
        h.check_raises("appending to a locked circuit", c.append, op, exc=h.circuit.CircuitError)
    elif how == "extend":
        h.check_raises("extending a locked circuit", c.extend, [op, op], exc=h.circuit.CircuitError)
    else:
        h.check_raises("entering a locked circuit", c.context.__enter__, exc=h.circuit.CircuitError)
        h.check(h.circuit.CircuitContext.active_context is None, "no context is active")
    same(h, c, m, old, "after a refused operation")
    works(h, c, m, "locked")


def unset(h, way):
    """Variables without values are refused by circuits without parameters."""
    c, m = circuit(h, "Circuit", bits=False)
    own = m.items("q")
    v = h.prim.Variable("a")
    two = [h.real("p", -10, 10), v] if h.flag("second") else [v, h.real("p", -10, 10)]
    old = snap(c)
    make_op = lambda: h.ops.Rotation([two[0], 0, two[1]], own[0])
    if way == "append":
        op = make_op()
        h.check_raises("a variable without value", c.append, op, exc=ValueError)
    elif way == "extend":
        op = make_op()
        h.check_raises("a variable without value", c.extend, [h.ops.X(own[0]), op], exc=ValueError)
    else:
        with c.context:
            h.check_raises("a variable without value", make_op, exc=ValueError)
        m.locked = True
    same(h, c, m, old, "after a refused variable")
    works(h, c, m, "variable")


def refused(h, why, way):
    """A refused operation keeps its variables, whatever values they have."""
    c, m = circuit(h, "Circuit", bits=False)
    own = m.items("q")
    v = h.prim.Variable("a")
    v.set(h.real("x", -10, 10))
    y = h.prim.Qubit("y") if why == "qubit" else own[0]
    w = h.prim.Variable("b") if why == "variable" else h.real("z", -10, 10)
    at = h.choice("at", (0, 1, 2))
    pars = [v if i == at else w for i in range(3)]
    gate = h.choice("gate", ("Rotation", "CRotation"))
    op = h.ops.Rotation(list(pars), y) if gate == "Rotation" else h.ops.CRotation(list(pars), own[1], y)
    if why == "locked":
        c.lock()
        m.locked = True
    old = snap(c)
    call = (lambda: c.append(op)) if way == "append" else (lambda: c.extend([h.ops.X(own[0]), op]))
    h.check_raises("a refused operation", call, exc=(ValueError, h.circuit.CircuitError))
    for a, b in zip(op.parameters, pars):
        h.check(a is b, "parameters of the refused operation")
    same(h, c, m, old, "after a refused operation")


def wrong(h, cls, way):
    """Things that are no operations are refused."""
    c, m = circuit(h, cls, bits=False)
    own = m.items("q")
    x = h.choice("object", ["X", 1, 0.5, "qubit", "circuit"])
    x = own[0] if x == "qubit" else h.circuit.Circuit(1) if x == "circuit" else x
    if x.__class__.__name__ == "Circuit":
        return  # has qubits as an operation has
    old = snap(c)
    if way == "append":
        h.check_raises("no operation", c.append, x)
    else:
        h.check_raises("no operation", c.extend, [h.ops.X(own[1]), x])
    same(h, c, m, old, "after a refused object")
    works(h, c, m, "object")


def without_qubits(h, gate, cls):
    """Within a context, operations need qubits, and as many as they act on."""
    c, m = circuit(h, cls, bits=False)
    own = m.items("q")
    n = size(gate)
    values = [h.real(f"p{i}", -10, 10) for i in range(GATES[gate][0] if gate in GATES else 0)]
    old = snap(c)
    k = h.choice("given", [j for j in (0, 1, 2, 3) if j != n])
    with c.context:
        call = lambda: make_exact(h, gate, own[:k], values)
        h.check_raises("a wrong number of qubits", call)
        agree(h, c, m, "within the context")
    m.locked = True
    same(h, c, m, old, "after a refused operation")
    works(h, c, m, "number")


def make_exact(h, kind, qubits, values):
    npar, nq, nc, _ = GATES[kind]
    a = [values[:npar]] if npar else []
    cls = getattr(h.ops, kind)
    return cls(*a, qubits=tuple(qubits) if qubits else None)


def harnesses(tier):
    out = []
    for why in ("qubit", "variable", "locked"):
        for way in ("append", "extend"):
            out.append(Harness(f"refused-{why}-{way}", refused, why=why, way=way))
    for cls in ("Circuit", "ParametricCircuit"):
        for kind in "qc":
            out.append(Harness(f"items-{kind}-{cls}", items, kind=kind, cls=cls))
            for sizes in ((1, 2), (0, 3), (3, 0)):
                out.append(Harness(f"registers-{kind}-{sizes[0]}-{cls}", registers, kind=kind, cls=cls, sizes=sizes))
        out.append(Harness(f"locked-{cls}", locked, cls=cls))
        out.append(Harness(f"absent-{cls}", absent, cls=cls))
        for way in ("append", "extend"):
            out.append(Harness(f"wrong-{way}-{cls}", wrong, cls=cls, way=way))
        for gate in list(GATES) + ["Measurement", "Barrier", "custom", "user"]:
            for way in ("append", "extend", "context", "frozen", "apply"):
                if tier == "quick" and cls != "Circuit" and gate not in ("X", "RX", "CX", "CRotation", "Measurement"):
                    continue
                out.append(Harness(f"foreign-{gate}-{way}-{cls}", foreign, gate=gate, cls=cls, way=way))
            if gate in GATES:
                out.append(Harness(f"number-{gate}-{cls}", without_qubits, gate=gate, cls=cls))
    for way in ("append", "extend", "context"):
        out.append(Harness(f"unset-{way}", unset, way=way))
    return out
