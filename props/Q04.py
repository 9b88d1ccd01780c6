"""Loading exported QIR programs."""
from props.gates import GATES
from props.qir import EXTERNAL, layout, place, positions, stubs
from sx.api import Harness

PRELOAD = ("dwave.gate.qir.compiler", "dwave.gate.qir.loader", "dwave.gate.qir.instructions", "dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "circuits of up to 3 quantum and 3 classical registers with up to 4 qubits and bits in all, of up to 3 gates (4 in the thorough tier) on any distinct qubits "
    "with any real parameters and up to 3 measurements of any qubits into any bits, as text and as bitcode, with and without external "
    "functions, 13 qubits and 12 bits with 2 gates and a measurement at selected positions, loaded into new circuits and into circuits with up to 2 registers of each kind; PyQIR is represented by a stand-in "
    "with the same interface for symbolic parameters and by itself in every replay"
)
OUTSIDE = (
    "numbers of qubits and bits beyond the last one used, register layout and labels, and the grouping of measurements into operations, which QIR "
    "programs do not carry over; programs made by other tools beyond straight-line calls; PyQIR itself"
)


def flat(h, c):
    """[(gate, parameters, qubit positions)] and [(qubit, bit)] of a circuit, in order."""
    ops, qs, bs = [], list(c.qubits), list(c.bits)
    for op in c.circuit:
        if isinstance(op, h.base.Measurement):
            h.check(len(op.qubits) == len(op.bits), "one bit for every measured qubit")
            ops += [("m", q, b) for q, b in zip(positions(qs, op.qubits), positions(bs, op.bits))]
        else:
            ops.append((type(op), list(getattr(op, "parameters", [])), positions(qs, op.qubits)))
    return ops


def equal(h, got, want, what):
    h.check(len(got) == len(want), f"{what}: number of operations")
    for a, b in zip(got, want):
        if a[0] == "m" or b[0] == "m":
            h.check(a == b, f"{what}: measurement")
        else:
            h.check(a[0] is b[0], f"{what}: gate {b[0].__name__}")
            h.check(a[2] == b[2], f"{what}: qubits of {b[0].__name__}")
            h.check(len(a[1]) == len(b[1]) and h.all_of([h.eq(x, y) for x, y in zip(a[1], b[1])]), f"{what}: parameters of {b[0].__name__}")


def fill(h, c, kinds, n, meas, ids):
    nq, nb = c.num_qubits, c.num_bits
    want = []
    with c.context as regs:
        for i in range(n):
            if ids and h.flag(f"id{i}"):
                h.ops.Identity(regs.q[h.index(f"idq{i}", nq)])
            kind = h.choice(f"g{i}", kinds)
            npar, w, _, _ = GATES[kind]
            pos = h.perm(f"q{i}.", range(nq), w)
            pars = [h.real(f"p{i}{j}", -9, 9) for j in range(npar)]
            place(h, kind, [regs.q[k] for k in pos], pars)
            want.append((getattr(h.ops, kind), pars, pos))
        for i, k in enumerate(meas):
            pos = h.perm(f"mq{i}.", range(nq), k)
            bits = h.perm(f"mb{i}.", range(nb), k)
            h.ops.Measurement(tuple(regs.q[p] for p in pos)) | [regs.c[b] for b in bits]
            want += [("m", *x) for x in zip(pos, bits)]
    return want


def export(h, c, external, bitcode):
    kw = {}
    if external:
        kw["add_external"] = True
    if bitcode:
        kw["bitcode"] = True
    return c.to_qir(**kw)


def load(h, qir, bitcode, into=None):
    if into is None:
        return h.circuit.Circuit.from_qir(qir, bitcode=True) if bitcode else h.circuit.Circuit.from_qir(qir)
    m = h.lib("dwave.gate.qir.loader")
    return m.load_qir_bitcode(qir, into) if bitcode else m.load_qir_string(qir, into)


def roundtrip(h, kinds, n, qs, cs, meas, external, ids=False):
    c = h.circuit.Circuit()
    layout(h, c, qs, cs)
    want = fill(h, c, kinds, n, meas, ids)
    bitcode = h.flag("bitcode")
    r = load(h, export(h, c, external, bitcode), bitcode)
    h.check(r is not c and isinstance(r, h.circuit.Circuit), "a new circuit is made")
    equal(h, flat(h, r), want, "loaded circuit")
    used = [p for w in want for p in ([w[1]] if w[0] == "m" else w[2])]
    h.check(r.num_qubits >= max(used, default=-1) + 1 and r.num_qubits <= c.num_qubits, "number of qubits")
    h.check(r.num_bits <= c.num_bits, "number of bits")
    h.check(not r.parametric, "no parameters are left open")
    # once more
    s = load(h, export(h, r, external, False), False)
    equal(h, flat(h, s), want, "circuit loaded twice")


def append(h, kinds, n, qs, cs, meas, old, oldmeas, into_q, into_b, before):
    """Loading into a circuit appends."""
    c = h.circuit.Circuit()
    layout(h, c, qs, cs)
    want = fill(h, c, kinds, n, meas, False)
    bitcode = h.flag("bitcode")
    qir = export(h, c, True, bitcode)
    t = h.circuit.Circuit()
    layout(h, t, into_q, into_b)
    first = []
    if before:
        with t.context as regs:
            k = h.index("bq", t.num_qubits)
            p = h.real("bp", -9, 9)
            h.ops.RY(p, regs.q[k])
            first.append((h.ops.RY, [p], [k]))
            if oldmeas:
                h.ops.Measurement(regs.q[k]) | regs.c[0]
                first.append(("m", k, 0))
    qb, cb, ob = list(t.qubits), list(t.bits), list(t.circuit)
    r = load(h, qir, bitcode, t)
    h.check(r is t, "the given circuit is returned")
    h.check_same(list(t.circuit)[: len(ob)], ob, "former operations stay")
    h.check_same(list(t.qubits)[: len(qb)], qb, "former qubits keep their positions")
    h.check_same(list(t.bits)[: len(cb)], cb, "former bits keep their positions")
    equal(h, flat(h, t), first + want, "extended circuit")
    if h.flag("again"):
        load(h, qir, bitcode, t)
        equal(h, flat(h, t), first + want + want, "circuit extended twice")


def large(h, qs, cs):
    """More than ten qubits and bits."""
    c = h.circuit.Circuit()
    layout(h, c, qs, cs)
    want = []
    with c.context as regs:
        for i in range(2):
            kind = h.choice("g", ("X", "CCX")) if i else "CRX"
            npar, w, _, _ = GATES[kind]
            pos = h.choice(f"q{i}", [[9, 10, 1], [10, 12, 11], [11, 1, 10], [2, 11, 12]])[:w]
            pars = [h.real(f"p{i}{j}", -9, 9) for j in range(npar)]
            place(h, kind, [regs.q[k] for k in pos], pars)
            want.append((getattr(h.ops, kind), pars, pos))
        pos = h.choice("mq", [[10, 1], [1, 12]])
        bits = h.choice("mb", [[10, 11], [11, 1]])
        h.ops.Measurement(tuple(regs.q[p] for p in pos)) | [regs.c[b] for b in bits]
        want += [("m", *x) for x in zip(pos, bits)]
    bitcode = h.flag("bitcode")
    equal(h, flat(h, load(h, export(h, c, True, bitcode), bitcode)), want, "loaded circuit")


TEXT = '''%Qubit = type opaque
%Result = type opaque
define void @main() #0 {{
entry:
  call void @__quantum__rt__initialize(i8* null)
  br label %body
body:
{0}
  ret void
}}
declare void @__quantum__rt__initialize(i8*)
declare void @__quantum__qis__x__body(%Qubit*)
declare void @__quantum__qis__cnot__body(%Qubit*, %Qubit*)
declare void @__quantum__qis__rz__body(double, %Qubit*)
declare void @__quantum__qis__mz__body(%Qubit*, %Result* writeonly) #1
declare void @__quantum__qis__reset__body(%Qubit*)
declare void @__quantum__qis__s__adj(%Qubit*)
attributes #0 = {{ "entry_point" "num_required_qubits"="3" "num_required_results"="3" }}
attributes #1 = {{ "irreversible" }}
'''


def ref(kind, n):
    return f"%{kind}* " + ("null" if n == 0 else f"inttoptr (i64 {n} to %{kind}*)")


def foreign(h, n, kinds=("x", "cnot", "rz", "mz"), nq=3):
    """Straight-line programs of any order of gates and measurements."""
    lines, want = [], []
    for i in range(n):
        what = h.choice(f"op{i}", kinds)
        q = h.perm(f"q{i}.", range(nq), 2 if what == "cnot" else 1)
        if what == "mz":
            b = h.index(f"b{i}", 2)
            lines.append(f"  call void @__quantum__qis__mz__body({ref('Qubit', q[0])}, {ref('Result', b)})")
            want.append(("m", q[0], b))
        else:
            args = [ref("Qubit", k) for k in q]
            if what == "rz":
                args = ["double 1.500000e+00"] + args
            lines.append(f"  call void @__quantum__qis__{what}__body({', '.join(args)})")
            want.append(({"x": h.ops.X, "cnot": h.ops.CX, "rz": h.ops.RZ}[what], [1.5] if what == "rz" else [], q))
    c = load(h, TEXT.format("\n".join(lines)), False)
    got = flat(h, c)
    # operations on different qubits and bits may change places; measurements may be delayed
    h.check(len(got) == len(want), "number of operations")
    rest = list(got)
    for w in want:
        touch = {"q%d" % p for p in ([w[1]] if w[0] == "m" else w[2])} | ({"b%d" % w[2]} if w[0] == "m" else set())
        k = None
        for i, g in enumerate(rest):
            t = {"q%d" % p for p in ([g[1]] if g[0] == "m" else g[2])} | ({"b%d" % g[2]} if g[0] == "m" else set())
            if t & touch:
                k = i
                break
        h.check(k is not None, "no operation is lost")
        h.check(rest[k] == w, "operations on the same qubits and bits stay in order")
        del rest[k]


def unknown(h, line):
    before = "  call void @__quantum__qis__x__body(%Qubit* null)\n" if h.flag("before") else ""
    h.check_raises("unknown operations", load, h, TEXT.format(before + "  " + line), False, exc=Exception)


def harnesses(tier):
    deep = tier != "quick"
    cov = ["dwave/gate/qir/compiler.py: " + f for f in ("qir_module", "BaseModule._compile", "BaseModule.compile")] + [
        "dwave/gate/qir/loader.py: " + f for f in ("load_qir_string", "load_qir_bitcode", "_module_to_circuit", "_add_measurements", "_deconstruct_call_instruction")
    ] + ["dwave/gate/circuit.py: Circuit.from_qir", "dwave/gate/circuit.py: Circuit.to_qir"]
    out = []

    def add(name, fn=roundtrip, **k):
        out.append(Harness(name, fn, covers=cov, **k))

    for kind in GATES:
        if kind == "Identity":
            continue
        one = GATES[kind][1] == 1
        add(f"gate-{kind}", kinds=(kind,), n=1, qs=(2, 1), cs=(1,), meas=(1,) if one else (), external=kind in EXTERNAL, ids=True)
        add(f"twice-{kind}", kinds=(kind,), n=2, qs=(1, 2), cs=(1, 1), meas=(), external=True)
        add(f"append-{kind}", append, kinds=(kind,), n=1, qs=(3,), cs=(1,), meas=(), old=1, oldmeas=False, into_q=(1, 1), into_b=(), before=True)
    add("measured-only", kinds=("X",), n=0, qs=(1, 1, 1), cs=(2, 1), meas=(2, 1) if not deep else (3, 1), external=False)
    add("measured", kinds=("Y", "CX"), n=1, qs=(2, 1), cs=(1, 1), meas=(1, 1), external=False)
    add("measured-ids", kinds=("RX",), n=1, qs=(2,), cs=(1, 1), meas=(2,), external=True, ids=True)
    add("sequence", kinds=("X", "RY", "CRZ"), n=4 if deep else 3, qs=(1, 1), cs=(1,), meas=(1,), external=True)
    add("mixture", kinds=tuple(k for k in GATES if k != "Identity" and GATES[k][1] == 2), n=3 if deep else 2, qs=(1, 1), cs=(1,), meas=(), external=True)
    add("three", kinds=("Rotation", "CCX", "CSWAP", "CRotation"), n=2, qs=(1, 2), cs=(1,), meas=(), external=True)
    for iq, ib in (((), ()), ((1,), (1,)), ((1, 1), (1, 1)), ((2, 1), (1,)), ((1, 2), ())):
        add(f"append-into-{len(iq)}{sum(iq)}-{len(ib)}{sum(ib)}", append, kinds=("X", "CX"), n=1, qs=(3,), cs=(2,), meas=(1,),
            old=1, oldmeas=bool(ib), into_q=iq, into_b=ib, before=bool(iq))
    add("append-measured", append, kinds=("X",), n=0, qs=(2, 1), cs=(1, 2), meas=(1, 1), old=1, oldmeas=True, into_q=(1, 1), into_b=(1, 1), before=True)
    add("append-more", append, kinds=("RZ",), n=2, qs=(3,), cs=(1,), meas=(), old=0, oldmeas=False, into_q=(1, 1), into_b=(), before=False)
    for qs, cs in (((13,), (12,)), ((1, 10, 2), (11, 1))):
        add(f"large-{len(qs)}", large, qs=qs, cs=cs)
    add("other-programs", foreign, n=3 if deep else 2)
    add("other-orders", foreign, n=4 if deep else 3, kinds=("x", "mz"), nq=2)
    for i, line in enumerate((
        "call void @__quantum__qis__reset__body(%Qubit* null)",
        "call void @__quantum__qis__s__adj(%Qubit* null)",
        "call void @__quantum__qis__reset__body(%Qubit* inttoptr (i64 1 to %Qubit*))",
    )):
        add(f"unknown-{i}", unknown, line=line)
    return out
