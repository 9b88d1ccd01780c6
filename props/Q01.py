"""OpenQASM statements of circuits."""
from props import qasm
from props.circ import PATTERNS
from props.gates import ALIASES, GATES
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "circuits of up to 3 quantum and 2 classical registers of 0 to 3 (2 in some cases 4) qubits and bits with operations on any distinct qubits, "
    "up to 3 (4 in the thorough tier) operations; 13 qubits in 1, 2 or 13 registers with 2 operations on selected qubits; every gate with any real or integer parameters; custom operations with and "
    "without parameters; parameters of evaluated operations; operation objects recorded several times; both naming options with texts, integers, tuples and reserved words as labels"
)
OUTSIDE = (
    "labels that are names of gates; a qubit that belongs to several registers; names of custom operations that are not names in "
    "OpenQASM; parameters whose shortest decimal form is scientific notation; parameters that are not real numbers; "
    "measurements, barriers, conditions and parametric circuits, evaluated ones included, which the export refuses (checked)"
)

NAMES = {
    "Identity": "id",
    "Hadamard": "h",
    "Rotation": "rot",
    "CHadamard": "ch",
    "CRotation": "crot",
    "CRX": "crx",
    "CRY": "cry",
    "CRZ": "crz",
}


def name_of(kind):
    return NAMES.get(kind, kind.lower())


def place(h, kind, qubits, pars, custom=None):
    """Add an operation to the active circuit."""
    npar, nq, nc = custom[1:] if custom else GATES[kind][:3]
    cls = custom[0] if custom else getattr(h.ops, kind)
    a = [pars[0] if npar == 1 else list(pars)] if npar else []
    if nc:
        return cls(*a, qubits[0], qubits[1])
    return cls(*a, qubits[0] if nq == 1 else tuple(qubits))


def parameter(h, name):
    return h.int(name, -9, 9) if h.flag(name + ".int") else h.real(name, -9, 9)


def registers(h, c, qs, cs, labels=None):
    """Adds the registers; returns the position (register number, index) of every qubit."""
    where = []
    for i, n in enumerate(qs):
        c.add_qregister(n, labels[i]) if labels else c.add_qregister(n)
        where += [(i, k) for k in range(n)]
    for i, n in enumerate(cs):
        c.add_cregister(n, labels[len(qs) + i]) if labels else c.add_cregister(n)
    return where


def read(h, text):
    try:
        return qasm.Reader(h, text, True)
    except qasm.BadText as e:
        h.check(False, f"the export is not OpenQASM: {e}")


def agree(h, c, p, ops, qs, cs, labels):
    """The program declares the registers and applies exactly these operations."""
    h.check(float(p.version) == 2.0, "version")
    h.check(p.includes == ["qelib1.inc"], "the standard library is included")
    items = [x for x in p.items if x[0] != "gate"]
    n = len(qs) + len(cs)
    head, body = items[:n], items[n:]
    h.check(all(x[0] in ("qreg", "creg") for x in head), "declarations first")
    names = [x[1] for x in head]
    h.check(len(set(names)) == len(names) == n, "every register is declared, under distinct names")
    q = [x for x in head if x[0] == "qreg"]
    b = [x for x in head if x[0] == "creg"]
    h.check([x[2] for x in q] == list(qs), "sizes of the quantum registers, in order")
    h.check([x[2] for x in b] == list(cs), "sizes of the classical registers, in order")
    if labels:
        h.check([x[1] for x in q] + [x[1] for x in b] == [str(l) for l in labels], "registers are named by their labels")
    h.check(len(body) == len(ops), "one statement for every operation")
    for x, (name, pars, where) in zip(body, ops):
        h.check(x[0] == "apply" and x[1] == name, f"statement {x[1]!r} for {name}")
        h.check(len(x[2]) == len(pars), f"number of parameters of {name}")
        for got, want in zip(x[2], pars):
            h.check(h.eq(got, want), f"parameter of {name}")
        h.check(x[3] == [(q[r][1], k) for r, k in where], f"qubits of {name}")


def gates(h, kinds, n, qs, cs, options=False):
    """Circuits of n gates."""
    c = h.circuit.Circuit()
    where = registers(h, c, qs, cs)
    if h.flag("locked") if n < 2 else False:
        c.lock()
        c.unlock()
    ops = []
    with c.context as regs:
        for i in range(n):
            kind = h.choice(f"g{i}", kinds)
            npar, nq, _, _ = GATES[kind]
            pos = h.perm(f"q{i}.", range(len(where)), nq)
            pars = [parameter(h, f"p{i}{j}") if n == 1 else h.real(f"p{i}{j}", -9, 9) for j in range(npar)]
            place(h, kind, [regs.q[k] for k in pos], pars)
            ops.append((name_of(kind), pars, [where[k] for k in pos]))
    if options:
        c.lock() if h.flag("lock") else c.unlock()
    kw = {}
    if h.flag("reg_labels"):
        kw["reg_labels"] = True
    elif h.flag("explicit"):
        kw["reg_labels"] = False
    if options and h.flag("version"):
        kw["version"] = "2.0"
    old = list(c.circuit)
    p = read(h, c.to_qasm(**kw))
    h.check_same(list(c.circuit), old, "the circuit is not changed")
    agree(h, c, p, ops, qs, cs, None)
    if options:
        h.check_raises("another version", c.to_qasm, version="3.0", exc=NotImplementedError)


# usable as names in OpenQASM or not
GOOD = ("a", "qA_1", "q", "c", "q0", "c0", "zZ9", "reg")
BAD = ("", "Q", "1a", "a b", "_a", "a-b", 0, 3, ("a",), "qreg", "gate", "pi", "measure", "if", "include", "é", "a\n")


def labels(h, qs, cs):
    """Labels are used as names where they are names, and refused otherwise."""
    n = len(qs) + len(cs)
    bad = h.flag("bad")
    ls = []
    for i in range(n):
        if bad and i == n - 1:
            ls.append(h.choice("bad label", BAD))
        else:
            ls.append(h.choice(f"l{i}", GOOD[:4] if n > 2 else GOOD))
    # labels within one kind have to differ to be accepted by the circuit
    for group in (ls[: len(qs)], ls[len(qs) :]):
        h.assume(len(set(group)) == len(group))
    c = h.circuit.Circuit()
    where = registers(h, c, qs, cs, ls)
    ops = []
    with c.context as regs:
        for k in range(len(where)):
            h.ops.RX(k, regs.q[k])
            ops.append(("rx", [k], [where[k]]))
    agree(h, c, read(h, c.to_qasm()), ops, qs, cs, None)
    clash = len(set(map(str, ls))) < n
    if bad or clash:
        h.check_raises("labels that are no names", c.to_qasm, exc=(h.circuit.CircuitError, ValueError), reg_labels=True)
    else:
        agree(h, c, read(h, c.to_qasm(reg_labels=True)), ops, qs, cs, ls)
    c.add_qregister(1)
    agree(h, c, read(h, c.to_qasm()), [(a, b, x) for a, b, x in ops], list(qs) + [1], cs, None)


def large(h, kinds, qs, cs):
    """Registers of more than ten qubits, and more than ten registers."""
    c = h.circuit.Circuit()
    where = registers(h, c, qs, cs)
    ops = []
    with c.context as regs:
        for i in range(2):
            kind = h.choice(f"g{i}", kinds)
            npar, nq, _, _ = GATES[kind]
            pos = h.choice(f"q{i}", [[9, 10, 1], [10, 12, 11], [11, 1, 10], [1, 11, 0], [12, 0, 2], [2, 12, 1]])[:nq]
            pars = [h.real(f"p{i}{j}", -9, 9) for j in range(npar)]
            place(h, kind, [regs.q[k] for k in pos], pars)
            ops.append((name_of(kind), pars, [where[k] for k in pos]))
    agree(h, c, read(h, c.to_qasm(reg_labels=h.flag("reg_labels"))), ops, qs, cs, None)


def custom(h, parametric, nq):
    """Operations made out of circuits."""
    inner = (h.circuit.ParametricCircuit if parametric else h.circuit.Circuit)(nq)
    with inner.context as regs:
        if parametric:
            h.ops.RY(regs.p[0], regs.q[0])
            h.ops.RX(regs.p[1], regs.q[nq - 1])
        else:
            h.ops.Y(regs.q[0])
    name = h.choice("name", ("MyOp", "my", None))
    cls = h.base.create_operation(inner, name=name) if name else h.base.create_operation(inner)
    c = h.circuit.Circuit()
    qs = (2, 1) if nq < 3 else (2, 2)
    where = registers(h, c, qs, ())
    ops = []
    with c.context as regs:
        for i in range(2):
            pos = h.perm(f"q{i}.", range(len(where)), nq)
            pars = [h.real(f"p{i}{j}", -9, 9) for j in range(2)] if parametric else []
            a = [pars] if parametric else []
            cls(*a, qubits=tuple(regs.q[k] for k in pos))
            ops.append(((name or "CustomOperation").lower(), pars, [where[k] for k in pos]))
            if h.flag(f"x{i}"):
                h.ops.X(regs.q[pos[0]])
                ops.append(("x", [], [where[pos[0]]]))
    agree(h, c, read(h, c.to_qasm(reg_labels=h.flag("reg_labels"), gate_definitions=h.flag("definitions"))), ops, qs, (), None)


def evaluated(h, kind):
    """Parametric circuits are refused, and their evaluations exported."""
    npar, nq, _, _ = GATES[kind]
    c = h.circuit.ParametricCircuit()
    where = registers(h, c, (2, 1), (1,))
    pos = h.perm("q", range(3), nq)
    with c.context as regs:
        vs = [regs.p[j] for j in range(npar)]
        place(h, kind, [regs.q[k] for k in pos], vs)
        h.ops.RZ(vs[0], regs.q[pos[0]])
    h.check_raises("parametric circuits", c.to_qasm, exc=h.circuit.CircuitError)
    pars = [h.real(f"p{j}", -9, 9) for j in range(npar)]
    if h.flag("set"):
        for v, x in zip(vs, pars):
            v.set(x)
        h.check_raises("parametric circuits with values", c.to_qasm, exc=h.circuit.CircuitError)
        e = c.eval()
    else:
        e = c.eval([pars, [pars[0]]])
    # evaluated circuits are parametric circuits still: their operations are exported by others
    h.check_raises("evaluated parametric circuits", e.to_qasm, exc=h.circuit.CircuitError)
    plain = h.circuit.Circuit()
    where = registers(h, plain, (2, 1), (1,))
    with plain.context as regs:
        place(h, kind, [regs.q[k] for k in pos], e.circuit[0].parameters)
        h.ops.RZ(e.circuit[1].parameters, regs.q[pos[0]])
    ops = [(name_of(kind), pars, [where[k] for k in pos]), ("rz", pars[:1], [where[pos[0]]])]
    agree(h, plain, read(h, plain.to_qasm()), ops, (2, 1), (1,), None)


def again(h, kind):
    """Operation objects recorded several times are exported as often."""
    npar, nq, _, _ = GATES[kind]
    c = h.circuit.Circuit()
    where = registers(h, c, (2, 1), (1,))
    q = list(c.qubits)
    pos = h.perm("q", range(3), nq)
    pars = [h.real(f"p{j}", -9, 9) for j in range(npar)]
    a = place(h, kind, [q[k] for k in pos], pars)
    b = h.ops.Y(q[pos[-1]])
    ops = []
    for s in h.choice("pattern", PATTERNS):
        op = a if s == "a" else b
        c.append(op) if h.flag("append") else c.extend([op])
        ops.append((name_of(kind), pars, [where[k] for k in pos]) if s == "a" else ("y", [], [where[pos[-1]]]))
    agree(h, c, read(h, c.to_qasm(reg_labels=h.flag("reg_labels"))), ops, (2, 1), (1,), None)


def refused(h, what):
    """Content that OpenQASM cannot express."""
    c = h.circuit.Circuit(2, 2)
    before = h.flag("before")
    with c.context as regs:
        q, b = regs.q, regs.c
        if before:
            h.ops.X(q[0])
        if what == "measurement":
            h.ops.Measurement(q[0]) | b[1]
        elif what == "unset measurement":
            h.ops.Measurement(q)
        elif what == "barrier":
            h.ops.Barrier(q)
        elif what == "conditional":
            h.choice("gate", (h.ops.X, h.ops.Y))(q[1]).conditional(b[h.index("bit", 2)])
        elif what == "conditional rotation":
            h.ops.RX(h.real("p", -1, 1), q[1]).conditional(tuple(b))
        elif what == "user gate":
            h.user_gate(h.array([[0, 1], [1, 0]]))(q[0])
        elif what == "user controlled":
            h.user_controlled(h.array([[0, 1], [1, 0]]), 1)(q[0], q[1])
        if h.flag("after"):
            h.ops.Y(q[1])
    kw = {}
    if h.flag("labels"):
        kw["reg_labels"] = True
    if h.flag("definitions"):
        kw["gate_definitions"] = True
    if what == "conditional" and h.flag("values"):
        for x in c.bits:
            x.set(1)
    h.check_raises(f"{what}", c.to_qasm, exc=(h.circuit.CircuitError, NotImplementedError), **kw)


FILE = "dwave/gate/circuit.py: "


def harnesses(tier):
    deep = tier != "quick"
    cov = [FILE + "Circuit.to_qasm", FILE + "Circuit.find_qubit", "dwave/gate/operations/base.py: Operation._map_qubits"]
    out = []
    for k in GATES:
        nq = GATES[k][1]
        for qs, cs in (((2, 1), (1,)), ((3,), ()), ((1, 0, 2), (0, 2))) + ((((2, 2), (2, 1)), ((4,), (1,))) if deep else ()):
            out.append(Harness(f"gate-{k}-{'-'.join(map(str, qs))}", gates, covers=cov, kinds=(k,), n=1, qs=qs, cs=cs))
    for i, kinds in enumerate((("X", "CX"), ("RZ", "SWAP"), ("Rotation", "CRY"), ("CCX", "S"), ("CSWAP", "T"))):
        for n in (2, 3) if deep else (2,):
            out.append(Harness(f"several-{'-'.join(kinds)}-{n}", gates, covers=cov, kinds=kinds, n=n, qs=(1, 2), cs=(1,)))
    out.append(Harness("sequence", gates, covers=cov, kinds=("X", "RY"), n=4 if deep else 3, qs=(1, 1), cs=()))
    for qs, cs in (((), ()), ((0,), ()), ((), (2,)), ((2, 1, 1), (1, 1)), ((1,), (1,)), ((1, 1), ()), ((2, 0), (1, 0)), ((0, 1), ()), ((0, 0, 1), (0, 1))):
        out.append(Harness(f"layout-{qs}-{cs}".replace(" ", ""), gates, covers=cov, kinds=("RX",), n=min(1, sum(qs)), qs=qs, cs=cs, options=True))
        if qs or cs:
            out.append(Harness(f"labels-{qs}-{cs}".replace(" ", ""), labels, covers=cov + ["dwave/gate/registers/registers.py: QuantumRegister.to_qasm"], qs=qs, cs=cs))
    for qs, cs in (((11, 2), (12,)), ((1,) * 13, (1,) * 11), ((13,), ())):
        out.append(Harness(f"large-{len(qs)}", large, covers=cov, kinds=("X", "CRX", "CCX"), qs=qs, cs=cs))
    for p in (False, True):
        for nq in (1, 2) + ((3,) if deep else ()):
            out.append(Harness(f"custom-{nq}-{p}", custom, covers=cov, parametric=p, nq=nq))
    for k in GATES:
        if GATES[k][0]:
            out.append(Harness(f"evaluated-{k}", evaluated, covers=cov, kind=k))
    for k in ("X", "CRX", "CSWAP"):
        out.append(Harness(f"again-{k}", again, covers=cov, kind=k))
    for what in ("measurement", "unset measurement", "barrier", "conditional", "conditional rotation", "user gate", "user controlled"):
        out.append(Harness("refused-" + what.replace(" ", "-"), refused, covers=cov, what=what))
    return out
