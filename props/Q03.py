"""QIR programs of circuits."""
from props.circ import PATTERNS
from props.gates import GATES
from props.qir import BASE, EXTERNAL, NAMES, Program, calls_of, layout, place, stubs
from sx.api import Harness

PRELOAD = ("dwave.gate.qir.compiler", "dwave.gate.qir.instructions", "dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "circuits of up to 3 quantum and 3 classical registers with up to 4 qubits and bits in all, of up to 3 gates (4 in the thorough tier) on any distinct qubits "
    "with any real or integer parameters and up to 3 measurements of any qubits into any bits, as text and as bitcode, with and without external "
    "functions; operation objects recorded several times; 13 qubits and 12 bits with 2 gates and a measurement at selected positions; PyQIR is represented by a stand-in with the same interface for symbolic parameters and by itself in every replay"
)
OUTSIDE = (
    "operations with the name of a library gate that are not that gate; infinite parameters; parameters that are no real numbers or "
    "unset variables, which raise errors; PyQIR itself"
)


def program(h, c, external, bitcode):
    kw = {}
    if external:
        kw["add_external"] = True
    if bitcode:
        kw["bitcode"] = True
    return Program(h, c.to_qir(**kw), bitcode)


def agree(h, c, prog, gates, meas):
    """The program consists of these gates and measurements."""
    got = calls_of(h, prog)
    h.check(len(got) == len(gates) + len(meas), "one call for every operation")
    for (name, pars, qubits, results), (kind, want, pos) in zip(got, gates):
        h.check(name == NAMES[kind], f"{kind} calls {name}")
        h.check(len(pars) == len(want) and h.all_of([h.eq(a, b) for a, b in zip(pars, want)]), f"parameters of {kind}")
        h.check(qubits == pos and not results, f"qubits of {kind}")
    for (name, pars, qubits, results), (q, b) in zip(got[len(gates) :], meas):
        h.check(name == "mz" and not pars, "measurements follow the gates")
        h.check(qubits == [q], "measured qubit")
        h.check(results == [b], "result of the measurement")
    h.check(prog.outputs == [b for _, b in meas], "the results are recorded in the order of the measurements")
    h.check(prog.required == (c.num_qubits, c.num_bits), "required numbers of qubits and results")


def circuit(h, kinds, n, qs, cs, meas, external, ints=False, identities=False):
    c = h.circuit.Circuit()
    layout(h, c, qs, cs)
    nq, nb = sum(qs), sum(cs)
    gates, ms = [], []
    with c.context as regs:
        for i in range(n):
            if identities and h.flag(f"id{i}"):
                h.ops.Identity(regs.q[h.index(f"idq{i}", nq)])
            kind = h.choice(f"g{i}", kinds)
            npar, w, _, _ = GATES[kind]
            pos = h.perm(f"q{i}.", range(nq), w)
            pars = [h.int(f"p{i}{j}", -9, 9) if ints and h.flag(f"p{i}{j}.int") else h.real(f"p{i}{j}", -9, 9) for j in range(npar)]
            place(h, kind, [regs.q[k] for k in pos], pars)
            gates.append((kind, pars, pos))
        for i, k in enumerate(meas):
            pos = h.perm(f"mq{i}.", range(nq), k)
            bits = h.perm(f"mb{i}.", range(nb), k)
            h.ops.Measurement(tuple(regs.q[p] for p in pos)) | [regs.c[b] for b in bits]
            ms += list(zip(pos, bits))
            if identities and h.flag(f"mid{i}"):
                h.ops.Identity(regs.q[0])
    old = list(c.circuit)
    if any(g[0] in EXTERNAL for g in gates) and not external:
        h.check_raises("gates outside of the base profile", c.to_qir, exc=NotImplementedError)
        return
    agree(h, c, program(h, c, external, h.flag("bitcode")), gates, ms)
    h.check_same(list(c.circuit), old, "the circuit is not changed")
    if identities:
        agree(h, c, program(h, c, external, False), gates, ms)


def large(h, qs, cs):
    """More than ten qubits and bits."""
    c = h.circuit.Circuit()
    layout(h, c, qs, cs)
    gates, ms = [], []
    with c.context as regs:
        for i in range(2):
            kind = h.choice("g", ("X", "CCX")) if i else "CRX"
            npar, w, _, _ = GATES[kind]
            pos = h.choice(f"q{i}", [[9, 10, 1], [10, 12, 11], [11, 1, 10], [2, 11, 12]])[:w]
            pars = [h.real(f"p{i}{j}", -9, 9) for j in range(npar)]
            place(h, kind, [regs.q[k] for k in pos], pars)
            gates.append((kind, pars, pos))
        pos = h.choice("mq", [[10, 1], [1, 12]])
        bits = h.choice("mb", [[10, 11], [11, 1]])
        h.ops.Measurement(tuple(regs.q[p] for p in pos)) | [regs.c[b] for b in bits]
        ms = list(zip(pos, bits))
    agree(h, c, program(h, c, True, h.flag("bitcode")), gates, ms)


def again(h, kind):
    """Operation objects recorded several times are called as often."""
    npar, nq, _, _ = GATES[kind]
    c = h.circuit.Circuit()
    layout(h, c, (2, 1), (2,))
    q, bits = list(c.qubits), list(c.bits)
    pos = h.perm("q", range(3), nq)
    pars = [h.real(f"p{j}", -9, 9) for j in range(npar)]
    a = place(h, kind, [q[k] for k in pos], pars)
    b = h.ops.Y(q[pos[-1]])
    gates, ms = [], []
    for s in h.choice("pattern", PATTERNS):
        c.append(a if s == "a" else b)
        gates.append((kind, pars, pos) if s == "a" else ("Y", [], pos[-1:]))
    k = h.index("mq", 3)
    m = h.ops.Measurement((q[k], q[k - 1])) | bits
    for _ in range(h.choice("measurements", (0, 1, 2))):
        c.append(m)
        ms += [(k, 0), ((k - 1) % 3, 1)]
    agree(h, c, program(h, c, True, h.flag("bitcode")), gates, ms)


def refused(h, what):
    if what == "custom":
        inner = h.circuit.Circuit(1)
        with inner.context as r:
            h.ops.X(r.q[0])
        op = h.base.create_operation(inner, name=h.choice("name", ("Mine", "x", "rot")))
    c = h.circuit.Circuit(2, 2)
    with c.context as regs:
        q, b = regs.q, regs.c
        if h.flag("before"):
            h.ops.X(q[0])
        if what == "conditional":
            h.ops.X(q[1]).conditional(b[h.index("bit", 2)])
        elif what == "conditional rotation":
            h.ops.RX(h.real("p", -1, 1), q[1]).conditional(tuple(b))
        elif what == "conditional external":
            h.ops.CY(q[1], q[0]).conditional(b[0])
        elif what == "gate after measurement":
            h.ops.Measurement(q[0]) | b[h.index("bit", 2)]
            kind = h.choice("gate", ("X", "RZ", "CX", "SWAP"))
            place(h, kind, [q[1], q[0]][: GATES[kind][1]], [0.5])
        elif what == "measurement without bits":
            h.ops.Measurement(q)
        elif what == "barrier":
            h.ops.Barrier(q)
        elif what == "user gate":
            h.user_gate(h.array([[0, 1], [1, 0]]))(q[0])
        elif what == "user controlled":
            h.user_controlled(h.array([[0, 1], [1, 0]]), 1)(q[0], q[1])
        elif what == "custom":
            op(q[0])
        if what not in ("gate after measurement", "measurement without bits") and h.flag("after"):
            h.ops.Y(q[1])
    if h.flag("values"):
        for x in c.bits:
            x.set(h.index("value", 2))
    kw = {}
    if h.flag("external"):
        kw["add_external"] = True
    if h.flag("bitcode"):
        kw["bitcode"] = True
    h.check_raises(what, c.to_qir, exc=Exception, **kw)


def parametric(h, kind):
    """Unset parameters are refused, evaluated circuits are exported."""
    npar, nq, _, _ = GATES[kind]
    c = h.circuit.ParametricCircuit()
    layout(h, c, (1, 2), (1,))
    pos = h.perm("q", range(3), nq)
    with c.context as regs:
        place(h, kind, [regs.q[k] for k in pos], [regs.p[j] for j in range(npar)])
    h.check_raises("unset parameters", c.to_qir, exc=Exception, add_external=True)
    pars = [h.real(f"p{j}", -9, 9) for j in range(npar)]
    e = c.eval([pars])
    agree(h, e, program(h, e, True, h.flag("bitcode")), [(kind, pars, pos)], [])


def harnesses(tier):
    deep = tier != "quick"
    cov = ["dwave/gate/qir/compiler.py: " + f for f in ("qir_module", "BaseModule._compile", "BaseModule.compile", "BaseModule.add_external_function")] + [
        "dwave/gate/qir/instructions.py: Instruction.execute",
        "dwave/gate/circuit.py: Circuit.to_qir",
    ]
    out = []

    def add(name, **k):
        out.append(Harness(name, circuit, covers=cov, **k))

    for kind in GATES:
        if kind == "Identity":
            continue
        for ext in (False, True):
            add(f"gate-{kind}-{ext}", kinds=(kind,), n=1, qs=(2, 1), cs=(1,), meas=(), external=ext, ints=True, identities=True)
        add(f"twice-{kind}", kinds=(kind,), n=2, qs=(1, 2), cs=(1, 1), meas=(1,) if GATES[kind][1] < 2 else (), external=True)
    add("identities", kinds=("X",), n=1, qs=(1, 1), cs=(2,), meas=(1, 1), external=False, identities=True)
    add("measured", kinds=("Y",), n=1, qs=(2, 1), cs=(1, 2), meas=(2,), external=False)
    add("measured-3", kinds=("RZ",), n=1, qs=(1, 2), cs=(2, 1), meas=(1, 1), external=True)
    add("measured-only", kinds=("X",), n=0, qs=(1, 1, 1), cs=(1, 1, 1), meas=(2, 1) if not deep else (3, 1), external=False)
    add("measured-again", kinds=("X",), n=0, qs=(1, 1), cs=(1, 2), meas=(1, 1, 1), external=False)
    add("measured-again-2", kinds=("X",), n=0, qs=(2,), cs=(3,), meas=(2, 2), external=False)
    add("empty", kinds=("X",), n=0, qs=(2,), cs=(1,), meas=(), external=True)
    for ks in (("RX", "CX"), ("Rotation", "T"), ("CRZ", "CRX"), ("SWAP", "H"), ("CSWAP", "CCX"), ("CRotation", "CY"), ("CHadamard", "CZ"), ("CRY", "S")):
        ks = tuple("Hadamard" if k == "H" else k for k in ks)
        add(f"pair-{'-'.join(ks)}", kinds=ks, n=2, qs=(2, 1), cs=(1,), meas=(), external=True)
    add("sequence", kinds=("X", "RY", "CRZ"), n=4 if deep else 3, qs=(1, 1), cs=(1,), meas=(1,), external=True)
    add("mixture", kinds=tuple(k for k in GATES if k != "Identity" and GATES[k][1] == 2), n=3 if deep else 2, qs=(1, 1), cs=(1,), meas=(1,), external=True)
    for qs, cs in (((13,), (12,)), ((1, 10, 2), (11, 1))):
        out.append(Harness(f"large-{len(qs)}", large, covers=cov, qs=qs, cs=cs))
    for kind in ("X", "CRX", "CSWAP"):
        out.append(Harness(f"again-{kind}", again, covers=cov, kind=kind))
    for w in (
        "conditional", "conditional rotation", "conditional external", "gate after measurement", "measurement without bits", "barrier",
        "user gate", "user controlled", "custom",
    ):
        out.append(Harness("refused-" + w.replace(" ", "-"), refused, covers=cov, what=w))
    for kind in GATES:
        if GATES[kind][0]:
            out.append(Harness(f"parametric-{kind}", parametric, covers=cov, kind=kind))
    return out
