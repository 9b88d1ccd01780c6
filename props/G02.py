"""Controlled-unitary construction."""
from sx.api import Harness

PRELOAD = ("dwave.gate.operations", "dwave.gate.tools.unitary")
BOUNDS = (
    "any 2x2 complex matrix; 2 to 5 (thorough: 6) qubits; any number of controls; all distinct control and target positions in "
    "any order, given as integer or sequence, with or without the number of qubits; rejected positions from -3 to 7; "
    "controlled operations of up to 3 (thorough: 4) controls"
)
OUTSIDE = "more qubits; several targets, which are refused; repeated controls"


def matrix(h, name="m"):
    return [[h.cplx(f"{name}{i}{j}") for j in range(2)] for i in range(2)]


def expect(m, controls, target, n):
    """Entry by entry from the definition."""
    d = 1 << n
    bit = lambda x, q: (x >> (n - 1 - q)) & 1  # noqa: E731
    out = []
    for r in range(d):
        row = []
        for c in range(d):
            if all(bit(c, q) for q in controls):
                mask = 1 << (n - 1 - target)
                row.append(m[bit(r, target)][bit(c, target)] if (r | mask) == (c | mask) else 0)
            else:
                row.append(1 if r == c else 0)
        out.append(row)
    return out


def layout(h, n, k):
    m = matrix(h)
    pos = h.perm("p", range(n), k + 1)
    cs, t = pos[:k], pos[k]
    forms = ["list", "tuple"] + (["int"] if k == 1 else [])
    form = h.choice("control", forms)
    control = cs[0] if form == "int" else (tuple(cs) if form == "tuple" else list(cs))
    target = t if h.flag("target") else [t]
    u = h.array(m)
    how = h.choice("size", ["given", "keyword"] + (["none"] if n == max(pos) + 1 else []))
    if how == "given":
        r = h.unitary.build_controlled_unitary(control, target, u, n)
    elif how == "keyword":
        r = h.unitary.build_controlled_unitary(control=control, target=target, unitary=u, num_qubits=n)
    else:
        r = h.unitary.build_controlled_unitary(control, target, u)
    h.check(tuple(r.shape) == (1 << n, 1 << n), "shape")
    h.check_matrix(r, expect(m, cs, t, n), "controlled unitary")
    h.check_matrix(u, m, "the given matrix")
    if form == "list":
        h.check(control == list(cs), "the given controls")


def rejected(h, what):
    m = h.array(matrix(h))
    f = h.unitary.build_controlled_unitary
    n = h.choice("n", [None, 1, 2, 3])
    a = h.int("a", -3, 7)
    b = h.int("b", -3, 7)
    if what == "overlap":
        h.assume(a == b)
        args = h.choice("form", ["ii", "li", "il", "ll"])
        c = [b] if h.choice("more", [0, 1]) == 0 else [1, b]
        if args[0] == "i":
            c = b
        h.check_raises("overlapping control and target", lambda: f(c, a if args[1] == "i" else [a], m, n), exc=ValueError)
    else:
        h.assume(h.not_(a == b))
        top = 10 if n is None else n
        h.assume(h.any_of([a < 0, b < 0, a >= top, b >= top]))
        c = h.choice("form", [0, 1, 2])
        control = [b, [b], [8, b] if n is None else [0, b]][c]
        if c == 2:
            h.assume(h.not_(a == (8 if n is None else 0)))
        h.check_raises("positions outside the qubit count", lambda: f(control, a, m, n), exc=ValueError)


def operations(h, k):
    """Matrices of user-defined controlled operations with k controls."""
    m = matrix(h)
    n = k + 1
    cls = h.user_controlled(h.array(m), k)
    want = expect(m, list(range(k)), k, n)
    where = h.choice("where", ["class", "instance", "applied"])
    if where == "class":
        op = cls
    elif where == "instance":
        op = cls()
    else:
        c = h.circuit.Circuit(n)
        order = h.perm("q", range(n), n)
        qs = [c.qubits[i] for i in order]
        with c.context:
            op = cls(qs[:k], qs[k]) if h.flag("split") else cls(qubits=tuple(qs))
    h.check_matrix(op.matrix, want, "matrix of a controlled operation")
    h.check_matrix(op.matrix, want, "matrix of a controlled operation, read again")


def harnesses(tier):
    deep = tier == "thorough"
    out = []
    for n in range(2, 7 if deep else 6):
        for k in range(1, n):
            if n < 5 or k in (1, 2, 4) and n < 6 or k in (1, 3):
                out.append(Harness(f"layout-{n}-{k}", layout, n=n, k=k))
    for what in ("overlap", "outside"):
        out.append(Harness(f"rejected-{what}", rejected, what=what))
    for k in range(1, 5 if deep else 4):
        out.append(Harness(f"operation-{k}", operations, k=k))
    return out
