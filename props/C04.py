"""Which operations a circuit records, and in which order."""
from props.gates import GATES
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations", "dwave.gate.tools.unitary")
BOUNDS = (
    "programs of up to 4 steps (5 in the thorough tier) within the context of a circuit of 3 qubits, parametric or not: constructing "
    "any built-in gate, measurement, barrier, custom, controlled or user-defined operation, applying an operation again, "
    "applying a circuit, freezing (nested, by one or several managers, from the class or the context) and its end, normal or by "
    "an exception, failing operations, reading matrices and other attributes; operations before and after the context"
)
OUTSIDE = "longer programs; several threads"
SOME = ("X", "RX", "CX", "CRotation", "Measurement", "Barrier", "custom", "control")


def classes(h):
    sub = h.circuit.Circuit(2)
    with sub.context as regs:
        h.ops.X(regs.q[1])
        h.ops.CX(regs.q[1], regs.q[0])
    return {"custom": h.ops.create_operation(sub), "control": h.user_controlled(h.array([[1, 0], [0, -1]]), 2), "sub": sub}


def construct(h, kind, q, made, tag, any_qubit=True):
    """A new operation of the kind on some of the qubits."""
    if kind in GATES:
        npar, nq, nc, _ = GATES[kind]
        a = [[h.real(f"{tag}.p{i}", -10, 10) for i in range(npar)]] if npar else []
        cls = getattr(h.ops, kind)
        i = h.index(tag + ".q", 2) if any_qubit else 1
        qs = [q[(i + j) % 3] for j in range(nq)]
        if nc:
            return cls(*a, qs[:nc], qs[nc:]), qs
        return cls(*a, qs if nq > 1 else qs[0]), qs
    i = h.index(tag + ".q", 2)
    if kind == "custom":
        qs = [q[i], q[2]]
        return made["custom"](qs), qs
    if kind == "control":
        qs = [q[i], q[2], q[1 - i]]
        return made["control"](qs[:2], qs[2]), qs
    qs = [q[2], q[i]]
    return getattr(h.ops, kind)(qs), qs


class Stop(Exception):
    pass


def program(h, cls, first, kinds, n, gates):
    made = classes(h)
    c = getattr(h.circuit, cls)(3, 3)
    ctx = h.circuit.CircuitContext
    outside, _ = construct(h, gates[0], list(h.circuit.Circuit(3).qubits), made, "outside", n < 4)
    bare = h.ops.Z()
    want = []
    with c.context as regs:
        q = list(regs.q)
        managers = []
        depth = []
        last = None

        def record(op, qs, kind):
            if not depth:
                want.append((op, qs, kind))

        for s in range(n):
            tag = f"s{s}"
            k = first if s == 0 else h.choice(tag, [x for x in kinds if (x not in ("end", "fail end") or depth) and (x != "again" or last)])
            if k == "op":
                kind = h.choice(tag + ".gate", gates)
                op, qs = construct(h, kind, q, made, tag, n < 4)
                h.check(len(op.qubits) == len(qs) and all(x is y for x, y in zip(op.qubits, qs)), "qubits of the operation")
                record(op, qs, kind)
                last = op
            elif k == "again":
                op = last()
                h.check(op is not last and type(op) is type(last), "an operation applied again is a new one")
                record(op, list(last.qubits), None)
            elif k == "bare":
                op = bare(q[1])
                h.check(op is not bare and bare.qubits is None, "an operation is applied as a copy")
                record(op, [q[1]], None)
            elif k == "freeze":
                how = h.choice(tag + ".how", ("context", "class", "same") if managers else ("context", "class"))
                f = managers[-1] if how == "same" else (c.context if how == "context" else ctx).freeze
                f.__enter__()
                managers.append(f)
                depth.append(f)
                h.check(c.context.frozen is True, "the context is frozen")
            elif k == "end":
                depth.pop().__exit__(None, None, None)
                h.check(c.context.frozen is bool(depth), "freezing ends with the outermost only")
            elif k == "fail end":
                e = Stop()
                h.check(not depth.pop().__exit__(Stop, e, None), "exceptions pass")
                h.check(c.context.frozen is bool(depth), "freezing ends with the outermost only")
            elif k == "bad":
                h.check_raises("a wrong number of qubits", h.ops.SWAP, q[0])
                if not depth:
                    h.check_raises("a foreign qubit", h.ops.X, h.prim.Qubit("0"))
                h.check_raises("no qubits", h.ops.X)
            elif k == "sub":
                i = h.index(tag + ".q", 2) if n < 4 else 0
                start = len(c.circuit)
                made["sub"]([q[i], q[2]])
                if not depth:
                    new = list(c.circuit)[start:]
                    h.check(len(new) == 2, "an applied circuit appends its operations")
                    record(new[0], [q[2]], "X")
                    record(new[1], [q[2], q[i]], "CX")
            else:
                # reading never records anything
                t = last or outside
                h.raises(lambda: t.matrix)
                h.raises(lambda: t.decomposition)
                repr(t), t.name, t.num_qubits
                h.raises(lambda: t.to_qasm())
                h.raises(lambda: h.ops.CRX([0.5]).matrix)
                made["custom"].matrix
                h.ops.CX.matrix
                t == bare
            h.check(len(c.circuit) == len(want), f"number of operations after step {s + 1}")
        while depth:
            depth.pop().__exit__(None, None, None)
    late = h.ops.Y(q[0])
    h.check(late.qubits[0] is q[0], "operations may be made outside of contexts")
    h.check_same(list(c.circuit), [w[0] for w in want], "operations in program order")
    for i, (op, qs, kind) in enumerate(want):
        h.check_same(op.qubits, qs, f"qubits of operation {i}")
        if kind in GATES:
            h.check(type(op) is getattr(h.ops, kind), f"kind of operation {i}")
    h.check(c.is_locked(), "the circuit is locked at the end")
    # further programs continue after unlocking
    h.check_raises("entering a locked circuit", c.context.__enter__, exc=h.circuit.CircuitError)
    c.unlock()
    with c.context:
        more = h.ops.Z(q[0])
    h.check_same(list(c.circuit), [w[0] for w in want] + [more], "operations of the second context follow")
    c.unlock()
    x, y = h.ops.X(q[1]), h.ops.SWAP([q[2], q[0]])
    if h.flag("extend"):
        c.extend([x, y])
    else:
        c.append(x)
        c.append(y)
    h.check_same(list(c.circuit), [w[0] for w in want] + [more, x, y], "appended operations follow")
    # every time an operation is appended counts
    c.append(y)
    c.append(x)
    c.extend([x, y])
    h.check_same(list(c.circuit), [w[0] for w in want] + [more, x, y, y, x, x, y], "operations appended several times")


def own(h, n):
    """Extending a circuit with its own operations appends each of them once."""
    c = h.circuit.Circuit(3)
    with c.context as regs:
        for i in range(n):
            h.ops.X(regs.q[h.choice(f"q{i}", range(3))])
    have = list(c.circuit)
    c.unlock()
    append = c.append

    def bounded(op):
        if len(c.circuit) > 3 * n + 3:
            raise RuntimeError("keeps appending")
        return append(op)

    c.append = bounded
    which = h.choice("which", ("all", "reversed", "slice", "generator", "other"))
    if which == "all":
        e, more = h.raises(c.extend, c.circuit), have
    elif which == "reversed":
        e, more = h.raises(c.extend, reversed(c.circuit)), have[::-1]
    elif which == "slice":
        e, more = h.raises(c.extend, c.circuit[:-1]), have[:-1]
    elif which == "generator":
        e, more = h.raises(c.extend, (op for op in c.circuit)), have
    else:
        d = h.circuit.Circuit()
        d.add_qregister(3, "a")
        e, more = h.raises(c.extend, d.circuit), []
    h.check(e is None, f"extending failed: {e!r}")
    h.check_same(list(c.circuit), have + more, "operations after extending")


def each(h, gate, cls):
    """Every kind of operation is recorded once, however it is made."""
    made = classes(h)
    c = getattr(h.circuit, cls)(3, 3)
    o = h.circuit.Circuit(3)
    early, _ = construct(h, gate, list(c.qubits), made, "early")
    h.check(not c.circuit and not o.circuit, "operations outside of contexts are not recorded")
    with c.context as regs:
        q = list(regs.q)
        a, qa = construct(h, gate, q, made, "a")
        b = early()
        with c.context.freeze:
            d, _ = construct(h, gate, q, made, "d")
        e, qe = construct(h, gate, q, made, "e")
    h.check_same(list(c.circuit), [a, b, e], "operations in program order")
    h.check_same(a.qubits, qa, "qubits")
    h.check_same(b.qubits, early.qubits, "qubits of an operation applied again")
    h.check_same(e.qubits, qe, "qubits")
    c.unlock()
    c.append(d)
    h.check_same(list(c.circuit), [a, b, e, d], "an operation made while frozen can be appended")
    h.check(not o.circuit, "other circuits record nothing")


def harnesses(tier):
    out = []
    for n in (0, 1, 2, 3):
        out.append(Harness(f"own-{n}", own, n=n))
    for cls in ("Circuit", "ParametricCircuit"):
        for g in list(GATES) + ["Measurement", "Barrier", "custom", "control"]:
            out.append(Harness(f"each-{g}-{cls}", each, gate=g, cls=cls))
    kinds = ("op", "again", "bare", "freeze", "end", "fail end", "bad", "sub", "read")
    n = 4 if tier == "quick" else 5
    for k in ("op", "bare", "freeze", "sub", "bad", "read"):
        for j in (2, n):
            if tier == "quick" and j == n and k in ("bad", "read", "bare"):
                continue
            g = SOME if j == 2 else ("X",) if tier == "quick" else ("X", "CRotation")
            out.append(Harness(f"program-{k}-{j}", program, cls="Circuit", first=k, kinds=kinds, n=j, gates=g))
        out.append(Harness(f"program-{k}-parametric", program, cls="ParametricCircuit", first=k, kinds=kinds, n=2, gates=SOME))
    return out
