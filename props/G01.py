"""Built-in gate matrices."""
from props.gates import ALIASES, GATES
from sx.api import Harness

PRELOAD = ("dwave.gate.operations",)
BOUNDS = (
    "every built-in gate, all real parameter values (symbolic, unbounded up to 20 rad), read on the class, on an instance "
    "without qubits and on an instance applied in a circuit, outside and within contexts; up to two reads with the first result overwritten in between"
)
OUTSIDE = "parameters that are not real numbers; matrices of controlled operations read while a context is active in which their qubits come in another order (they then refer to the circuit's order)"


def check_gate(h, m, want, msg):
    m = h.tolist(m)
    h.check_matrix(m, want, msg)
    n = len(m)
    for i in range(n):  # unitary
        for j in range(n):
            acc = 0
            for k in range(n):
                if h.is_zero(m[i][k]) or h.is_zero(m[j][k]):
                    continue
                acc = acc + m[i][k] * h.conj(m[j][k])
            h.check_close(acc, 1 if i == j else 0, f"{msg}: unitary ({i},{j})")


def make(h, cls, name, pars, q=None):
    npar, nq, nc, _ = GATES[name]
    a = [pars[0] if npar == 1 else pars] if npar else []
    if q is None:
        return cls(*a)
    if nc:
        return cls(*a, q[0], q[1])
    return cls(*a, q[0] if nq == 1 else tuple(q))


def values(h, gate, where):
    name = gate
    npar, nq, nc, matrix = GATES[name]
    cls = getattr(h.ops, name)
    pars = [h.angle(f"p{i}") for i in range(npar)]
    want = matrix(h, *pars)
    c = h.circuit.Circuit(nq)
    if where == "class":
        read = lambda: cls.matrix  # noqa: E731
    elif where == "instance":
        op = make(h, cls, name, pars)
        read = lambda: op.matrix  # noqa: E731
    else:
        with c.context:
            op = make(h, cls, name, pars, list(c.qubits)[::-1])
        read = lambda: op.matrix  # noqa: E731
    m = read()
    h.check(tuple(m.shape) == (1 << nq, 1 << nq), "shape")
    check_gate(h, m, want, f"{name}.matrix")
    try:  # a caller may do what it likes with the result
        m[:, :] = 7
    except ValueError:
        pass
    h.check_matrix(read(), want, f"{name}.matrix after a caller changed its copy")
    if nc:  # neither does it affect the target gate, and the other way round
        t = getattr(h.ops, name[1:])
        tm = GATES[name[1:]][3](h, *pars)
        top = make(h, t, name[1:], pars)
        b = top.matrix
        h.check_matrix(b, tm, "matrix of the target gate")
        try:
            b[:, :] = 5
        except ValueError:
            pass
        h.check_matrix(read(), want, f"{name}.matrix after a caller changed a copy of the target's")
    if where == "applied":
        h.check_matrix(make(h, cls, name, pars).matrix, want, f"{name}.matrix on another instance")


def fresh(h, gate):
    """Different instances of a parametric gate have their own matrices."""
    name = gate
    npar, nq, nc, matrix = GATES[name]
    cls = getattr(h.ops, name)
    p = [h.angle(f"p{i}") for i in range(npar)]
    r = [h.angle(f"r{i}") for i in range(npar)]
    a, b = make(h, cls, name, p), make(h, cls, name, r)
    first = h.flag("first")
    if first:
        ma = a.matrix
    mb = b.matrix
    if not first:
        ma = a.matrix
    h.check_matrix(ma, matrix(h, *p), "first instance")
    h.check_matrix(mb, matrix(h, *r), "second instance")
    h.check_matrix(a.matrix, matrix(h, *p), "first instance, read again")
    e = a.eval()
    h.check_matrix(e.matrix, matrix(h, *p), "evaluated copy")
    i = h.index("i", npar)  # evaluated variables give the same matrix
    x = [h.prim.Variable(f"v{j}") if j == i else y for j, y in enumerate(p)]
    v = make(h, cls, name, x)
    h.check_matrix(v.eval(p).matrix, matrix(h, *p), "evaluated variable")


def within(h, gate):
    """Reading a matrix while a circuit's context is active, the operation on qubits in the circuit's order or none."""
    npar, nq, nc, matrix = GATES[gate]
    cls = getattr(h.ops, gate)
    pars = [h.angle(f"p{i}") for i in range(npar)]
    want = matrix(h, *pars)
    bare = make(h, cls, gate, pars)
    other = h.circuit.Circuit(nq)
    foreign = make(h, cls, gate, pars, list(other.qubits))
    c = h.circuit.Circuit(4 if nq < 3 else 3)
    top = len(c.qubits)
    at = h.perm("q", range(top), nq)
    h.assume(all(a < b for a, b in zip(at, at[1:])))
    with c.context:
        op = make(h, cls, gate, pars, [c.qubits[i] for i in at])
        check_gate(h, op.matrix, want, "within the context")
        with c.context.freeze:
            h.check_matrix(op.matrix, want, "within the frozen context")
        h.check_matrix(bare.matrix, want, "without qubits, within a context")
        h.check_matrix(foreign.matrix, want, "of another circuit, within a context")
        if not npar:
            h.check_matrix(cls.matrix, want, "of the class, within a context")
        h.check(h.circuit.CircuitContext.active_context is c.context, "the context stays active")
    h.check_same(c.circuit, [op], "reading applies nothing")
    h.check_matrix(op.matrix, want, "after the context")


def names(h):
    """All gates and aliases are there."""
    mod = h.lib("dwave.gate.operations.operations")
    for g in GATES:
        h.check(hasattr(h.ops, g) and hasattr(mod, g), f"gate {g}")
        cls = getattr(h.ops, g)
        h.check(cls.num_qubits == GATES[g][1], f"number of qubits of {g}")
        if GATES[g][0]:
            h.check(cls.num_parameters == GATES[g][0], f"number of parameters of {g}")
            h.check(cls.matrix is None, f"{g} has no matrix without parameters")
    for a, g in ALIASES.items():
        h.check(getattr(h.ops, a) is getattr(h.ops, g), f"{a} is {g}")


def harnesses(tier):
    out = [Harness("names", names)]
    for g in GATES:
        for where in ("instance", "applied") + (() if GATES[g][0] else ("class",)):
            out.append(Harness(f"{g}-{where}", values, gate=g, where=where))
        out.append(Harness(f"{g}-within", within, gate=g))
        if GATES[g][0]:
            out.append(Harness(f"{g}-fresh", fresh, gate=g))
    return out
