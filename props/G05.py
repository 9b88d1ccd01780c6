"""Declared decompositions and OpenQASM definitions of gates."""
from props import qasm
from props.gates import GATES
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "every built-in gate: the decomposition it declares and the statement and definition it is exported with, applied to "
    "its qubits in any order, for all real parameter values in [-20, 20]"
)
OUTSIDE = "definitions of user-defined operations (the user supplies them)"


def same_gate(h, a, b, msg):
    """Equal up to a global phase: for unitary matrices |<a, b>| is the dimension exactly then."""
    a, b = h.tolist(a), h.tolist(b)
    n = len(b)
    h.check(len(a) == n and all(len(r) == n for r in a), f"{msg}: dimension")
    acc = 0
    for i in range(n):
        for j in range(n):
            if not (h.is_zero(a[i][j]) or h.is_zero(b[i][j])):
                acc = acc + h.conj(a[i][j]) * b[i][j]
    h.check_close(h.abs2(acc), n * n, f"{msg}: the gate up to a global phase")
    for i in range(n):
        for j in range(i, n):
            acc = 0
            for k in range(n):
                if not (h.is_zero(a[i][k]) or h.is_zero(a[j][k])):
                    acc = acc + a[i][k] * h.conj(a[j][k])
            h.check_close(acc, 1 if i == j else 0, f"{msg}: unitary ({i},{j})")


def declared(h, cls):
    try:
        return cls.decomposition
    except NotImplementedError:
        return None


def decomposition(h, gate):
    """The gates of the declared decomposition, given the parameters in order."""
    name = gate
    cls = getattr(h.ops, name)
    npar, nq, nc, matrix = GATES[name]
    labels = declared(h, cls)
    if labels is None:
        h.check(True, "no decomposition declared")
        return
    pars = [h.angle(f"p{i}") for i in range(npar)]
    rest = list(pars)
    cols = [[1 if i == j else 0 for i in range(1 << nq)] for j in range(1 << nq)]
    for g in list(labels):
        k, q, _, _ = GATES[g]
        h.check(q == nq and k <= len(rest), "gates of the same width that share out the parameters")
        op = getattr(h.ops, g)
        if k:
            m = op(rest[:k] if k > 1 else rest[0]).matrix
            rest = rest[k:]
        else:
            m = op.matrix
        cols = [h.apply(m, list(range(nq)), c, nq) for c in cols]
    h.check(not rest, "every parameter is used")
    got = [[cols[j][i] for j in range(1 << nq)] for i in range(1 << nq)]
    same_gate(h, got, matrix(h, *pars), f"decomposition of {name}")
    a = [pars[0] if npar == 1 else pars] if npar else []
    h.check(list(cls(*a).decomposition) == list(labels), "the same decomposition on instances")


def exported(h, name, lenient):
    cls = getattr(h.ops, name)
    npar, nq, nc, matrix = GATES[name]
    pars = [h.angle(f"p{i}") for i in range(npar)]
    c = h.circuit.Circuit(nq)
    order = h.perm("q", range(nq), nq)
    q = [c.qubits[i] for i in order]
    a = [pars[0] if npar == 1 else pars] if npar else []
    with c.context:
        if nc:
            cls(*a, q[0], q[1])
        else:
            cls(*a, q[0] if nq == 1 else tuple(q))
    text = c.to_qasm(gate_definitions=True)
    try:
        return qasm.Reader(h, text, lenient), order, pars
    except qasm.BadText as e:
        h.check(False, f"definition of {name} is not OpenQASM: {e}")


def definition(h, gate):
    """Statement and definition together mean the gate."""
    p, order, pars = exported(h, gate, True)
    calls = [x for x in p.items if x[0] == "apply"]
    h.check(len(calls) == 1, "one statement")
    _, name, values, args = calls[0]
    nq = GATES[gate][1]
    h.check([k for _, k in args] == order, "qubits of the statement")
    try:
        m = p.matrix(name, values)
    except qasm.BadText as e:
        h.check(False, f"export of {gate}: {e}")
    h.check(len(m) == 1 << nq, "width of the gate")
    same_gate(h, m, GATES[gate][3](h, *pars), f"OpenQASM {name}")


def syntax(h, gate):
    """Definitions are valid OpenQASM: they name only their formal qubits."""
    exported(h, gate, False)
    h.check(True, "valid definition")


def harnesses(tier):
    out = []
    for g in GATES:
        out.append(Harness(f"decomposition-{g}", decomposition, gate=g))
        out.append(Harness(f"definition-{g}", definition, gate=g))
        out.append(Harness(f"syntax-{g}", syntax, gate=g))
    return out
