"""Matrices of operations created from circuits."""
from props.circ import PATTERNS, general2
from props.gates import GATES
from sx.api import Harness

PRELOAD = ("dwave.gate.operations", "dwave.gate.tools.unitary")
BOUNDS = (
    "circuits of 1 to 3 qubits (4 in the thorough tier) in one or two registers with up to 3 operations (single-qubit, "
    "controlled, user-defined, custom), also the same object several times, on any qubits, any parameter values; parametric circuits with up to 3 parameters in "
    "any slots, repeated, unused or requested in any order"
)
OUTSIDE = "circuits with multi-qubit gates that are not controlled operations (the library raises for them); longer circuits"

SINGLE = ("X", "Y", "Hadamard", "T", "RX", "RZ", "Rotation", "user", "custom")
CONTROLLED = ("CX", "CY", "CHadamard", "CRY", "CRotation", "cuser")


def arity(kind):
    return {"user": 1, "custom": 1, "cuser": 2}.get(kind) or GATES[kind][1]


def place(h, kind, tag, q, pars=None):
    """Apply one operation of the kind; -> its matrix."""
    if kind == "user":
        m = general2(h, tag)
        h.user_gate(h.array(m))(q[0])
        return m
    if kind == "cuser":
        m = general2(h, tag)
        h.user_controlled(h.array(m), 1)(q[0], q[1])
        return [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0] + m[0], [0, 0] + m[1]]
    if kind == "custom":
        raise AssertionError
    npar, nq, nc, matrix = GATES[kind]
    p = [h.angle(f"{tag}.{i}") for i in range(npar)] if pars is None else pars
    a = [p[0] if npar == 1 else list(p)] if npar else []
    cls = getattr(h.ops, kind)
    cls(*a, q[0], q[1]) if nc else cls(*a, q[0])
    return matrix(h, *p) if pars is None else None


def inner(h, tag):
    """A custom single-qubit operation and its matrix."""
    c = h.circuit.Circuit(1)
    with c.context:
        a = place(h, "RX", tag + "a", c.qubits)
        b = place(h, "RZ", tag + "b", c.qubits)
    return h.ops.create_operation(c, name=tag.upper()), h.product([(a, [0]), (b, [0])], 1)


def registers(h, n, two):
    if not two:
        return h.circuit.Circuit(n)
    c = h.circuit.Circuit()
    c.add_qregister(1, "b")
    c.add_qregister(n - 1, "a")
    return c


def fixed(h, n, kinds, two):
    c = registers(h, n, two)
    steps = []
    made = {i: inner(h, f"in{i}") for i, k in enumerate(kinds) if k == "custom"}
    with c.context:
        for i, kind in enumerate(kinds):
            pos = h.perm(f"q{i}.", range(n), arity(kind))
            q = [c.qubits[j] for j in pos]
            if kind == "custom":
                made[i][0](q[0])
                steps.append((made[i][1], pos))
            else:
                steps.append((place(h, kind, f"g{i}", q), pos))
    want = h.product(steps, n)
    ops = list(c.circuit)
    cls = h.ops.create_operation(c, name="Mine")
    h.check(cls.num_qubits == n and issubclass(cls, h.ops.Operation), "number of qubits of the operation")
    h.check(cls.__name__ == "Mine" and cls.name == "Mine", "name")
    h.check_matrix(cls.matrix, want, "matrix of the class")
    h.check_matrix(cls().matrix, want, "matrix of an instance")
    outer = h.circuit.Circuit(n)
    with outer.context:
        op = cls(tuple(list(outer.qubits)[::-1]))
    h.check_matrix(op.matrix, want, "matrix of an applied instance")
    h.check_matrix(h.unitary.build_unitary(c), want, "unitary of the circuit")
    outer = h.circuit.Circuit(n)
    with outer.context:
        h.check_matrix(h.unitary.build_unitary(c), want, "unitary of the circuit, within another's context")
        h.check_matrix(cls.matrix, want, "matrix of the class, within a context")
    h.check(not outer.circuit, "reading applies nothing")
    h.check_same(c.circuit, ops, "operations of the circuit")
    e = h.raises(cls, tuple(h.prim.Qubit(str(i)) for i in range(n + 1)))
    h.check(isinstance(e, ValueError), "wrong number of qubits is refused")


def single_as_gate(h, n):
    """A custom single-qubit operation is simulated like its circuit."""
    cls, m = inner(h, "sub")
    c = h.circuit.Circuit(n)
    k = h.index("k", n)
    with c.context:
        cls(c.qubits[k])
    h.check_matrix(h.unitary.build_unitary(c), h.product([(m, [k])], n), "unitary with a custom operation")


def parametric(h, n, kinds, npars, asc):
    """Each parameter slot holds a constant or any of the circuit's parameters."""
    c = h.circuit.ParametricCircuit(n)
    values = [h.angle(f"v{i}") for i in range(npars)]
    steps = []
    with c.context as reg:
        p = reg.p
        if not asc:
            p[npars - 1]  # request the last one first
        for i, kind in enumerate(kinds):
            pos = h.perm(f"q{i}.", range(n), arity(kind))
            q = [c.qubits[j] for j in pos]
            if kind in ("user", "cuser"):
                steps.append((place(h, kind, f"g{i}", q), pos))
                continue
            cnt = GATES[kind][0]
            slots, vals = [], []
            for j in range(cnt):
                s = h.index(f"slot{i}.{j}", npars + 1)
                if s == npars:
                    x = h.angle(f"const{i}.{j}")
                    slots.append(x)
                    vals.append(x)
                else:
                    slots.append(p[s])
                    vals.append(values[s])
            place(h, kind, f"g{i}", q, slots)
            steps.append((GATES[kind][3](h, *vals), pos))
        p[npars - 1]
    before = [list(op.parameters) if hasattr(op, "parameters") else None for op in c.circuit]
    cls = h.ops.create_operation(c, name="Mine")
    h.check(cls.num_qubits == n, "number of qubits")
    h.check(cls.num_parameters == npars == c.num_parameters, "number of parameters")
    h.check(issubclass(cls, h.base.ParametricOperation), "parametric operation")
    want = h.product(steps, n)
    op = cls(list(values) if npars > 1 or h.flag("list") else values[0])
    h.check_matrix(op.matrix, want, "matrix for the given parameters")
    h.check_matrix(op.matrix, want, "matrix, read again")
    after = [list(op.parameters) if hasattr(op, "parameters") else None for op in c.circuit]
    h.check(all((a is None and b is None) or all(x is y for x, y in zip(a, b)) for a, b in zip(before, after)), "parameters of the circuit")
    h.check_raises("too many parameters", lambda: cls(list(values) + [values[0]]), exc=ValueError)
    h.check_raises("too few parameters", lambda: cls(list(values)[1:]), exc=ValueError)


def twice(h):
    """Instances with different parameters have different matrices."""
    c = h.circuit.ParametricCircuit(2)
    with c.context as reg:
        h.ops.RX(reg.p[0], c.qubits[1])
        h.ops.CRZ(reg.p[1], c.qubits[1], c.qubits[0])
        h.ops.RY(reg.p[0], c.qubits[0])
    cls = h.ops.create_operation(c)
    vals = [[h.angle(f"{x}{i}") for i in range(2)] for x in "ab"]
    ops = [cls(v) for v in vals]
    for i in (0, 1, 0):
        a, b = vals[i]
        rx, ry, rz = (GATES[g][3] for g in ("RX", "RY", "CRZ"))
        want = h.product([(rx(h, a), [1]), (rz(h, b), [1, 0]), (ry(h, a), [0])], 2)
        h.check_matrix(ops[i].matrix, want, f"matrix of instance {i}")


def again(h, kind, parametric):
    """Operation objects recorded several times count as often."""
    c = (h.circuit.ParametricCircuit if parametric else h.circuit.Circuit)(2)
    q = c.qubits
    pos = h.perm("q", range(2), arity(kind))
    v, x, y = h.angle("v"), h.angle("x"), h.angle("y")
    def make(kind, p, slot):
        cls = getattr(h.ops, kind)
        return cls([slot], qubits=[q[i] for i in p])

    if parametric:
        with c.context as reg:
            slot = reg.p[0]
        c.unlock()
    else:
        slot = v
    a, b = make(kind, pos, slot), make("RY", pos[-1:], y)
    ma, mb = (GATES[kind][3](h, v), pos), (GATES["RY"][3](h, y), pos[-1:])
    steps = []
    for s in h.choice("pattern", PATTERNS):
        c.append(a if s == "a" else b)
        steps.append(ma if s == "a" else mb)
    want = h.product(steps, 2)
    cls = h.ops.create_operation(c)
    if parametric:
        h.check_matrix(cls([x]).matrix, h.product([(GATES[kind][3](h, x), pos) if s is ma else s for s in steps], 2), "matrix for other values")
        h.check_matrix(cls([v]).matrix, want, "matrix for the given values")
    else:
        h.check_matrix(cls.matrix, want, "matrix of the class")
        h.check_matrix(h.unitary.build_unitary(c), want, "unitary of the circuit")


def empty(h, n):
    c = h.circuit.Circuit(n)
    cls = h.ops.create_operation(c)
    d = 1 << n
    h.check_matrix(cls.matrix, [[1 if i == j else 0 for j in range(d)] for i in range(d)], "matrix of the empty circuit")


def harnesses(tier):
    deep = tier == "thorough"
    out = []

    def add(n, kinds, two=False):
        out.append(Harness(f"fixed-{n}-{'-'.join(kinds)}-{two}", fixed, n=n, kinds=kinds, two=two))

    for k in SINGLE:
        add(1, (k, "RY"))
        add(3, (k,), two=True)
    for k in CONTROLLED:
        add(2, (k, "Rotation"))
        add(3, (k,), two=True)
        add(2, ("user", k))
    add(2, ("RX", "CRY", "T"))
    add(3, ("CX", "user"))
    add(3, ("user", "Hadamard"))
    add(3, ("T", "CX"), two=True)
    add(2, ("cuser", "custom"))
    if deep:
        for k in CONTROLLED:
            add(4, (k,), two=True)
            add(3, (k, "CY"))
            for j in ("RX", "Hadamard"):
                add(2, (j, k, "user"), two=True)
        add(3, ("user", "custom", "CRotation"))
    for n in (1, 2, 3):
        out.append(Harness(f"single-{n}", single_as_gate, n=n))
        out.append(Harness(f"empty-{n}", empty, n=n))

    def par(n, kinds, npars, asc=True):
        out.append(Harness(f"par-{n}-{'-'.join(kinds)}-{npars}-{asc}", parametric, n=n, kinds=kinds, npars=npars, asc=asc))

    par(1, ("RX",), 1)
    par(1, ("Rotation",), 2)
    par(1, ("RZ", "RY"), 2, False)
    par(2, ("CRX",), 1)
    par(2, ("CRY", "RX"), 2)
    par(2, ("CRotation",), 2, False)
    par(2, ("user", "RZ"), 2)
    par(2, ("cuser", "CRZ"), 1)
    if deep:
        par(1, ("Rotation", "RX"), 2, False)
        par(1, ("Rotation",), 3)
        par(2, ("CRotation", "RY"), 2)
        par(3, ("CRX", "CRZ"), 2, False)
        par(2, ("RX", "CRY", "RZ"), 2)
    out.append(Harness("twice", twice))
    for k in ("RX", "CRX"):
        for p in (False, True):
            out.append(Harness(f"again-{k}-{p}", again, kind=k, parametric=p))
    return out
