"""Circuits for the simulation harnesses."""
from props.gates import GATES

# one gate per code path of the simulator, preferring matrices without symmetries
KINDS = ("Y", "Rotation", "CY", "CRY", "SWAP", "CSWAP", "CCX", "user", "cuser", "ccuser")


def unitary2(h, name, phases=True):
    """A single-qubit unitary whose first column is any state up to a global phase."""
    t = h.angle(name + ".t")
    c, s = h.cos(t), h.sin(t)
    if not phases:
        return [[c, -1 * s], [s, c]]
    e = h.expi(h.angle(name + ".f"))
    return [[c, -1 * s], [e * s, e * c]]


def general2(h, name):
    """Every 2x2 unitary matrix."""
    t = h.angle(name + ".t")
    c, s = h.cos(t), h.sin(t)
    a, b, g = (h.expi(h.angle(name + "." + x)) for x in "abg")
    return [[a * c, b * s], [-1 * g * s, b * g * a.conjugate() * c]]


def prefix(h, q, n, phases=True):
    """User-defined gates that bring the qubits from |0..0> into an arbitrary product state.

    Product states span the state space, so a linear operation that is right on these is right on
    all states.  Returns the [(matrix, positions)] applied.
    """
    out = []
    for i in range(n):
        m = unitary2(h, f"p{i}", phases)
        h.user_gate(h.array(m))(q[i])
        out.append((m, [i]))
    return out


def parameters(h, name, tag):
    return [h.angle(f"{tag}.{i}") for i in range(GATES[name][0])]


def width(kind):
    return {"user": 1, "cuser": 2, "ccuser": 3}.get(kind) or GATES[kind][1]


def build(h, kind, tag="g"):
    """-> function applying one operation of the kind to given qubits (as a user writes it)."""
    if kind == "user":
        m = h.array(unitary2(h, tag))
        return lambda q: h.user_gate(m)(q[0])
    if kind == "cuser":
        m = h.array(unitary2(h, tag))
        return lambda q: h.user_controlled(m, 1)(q[0], q[1])
    if kind == "ccuser":
        m = h.array(unitary2(h, tag))
        return lambda q: h.user_controlled(m, 2)(control=(q[0], q[1]), target=q[2])
    npar, nq, nc, _ = GATES[kind]
    cls = getattr(h.ops, kind)
    pars = parameters(h, kind, tag)
    a = [pars[0] if npar == 1 else pars] if npar else []
    if nc:
        return lambda q: cls(*a, q[0], q[1])
    return lambda q: cls(*a, q[0] if nq == 1 else tuple(q))


def reference(h, steps, n):
    """State vector after the [(matrix, positions)] from the all-zero state."""
    v = [0] * (1 << n)
    v[0] = 1
    for m, q in steps:
        v = h.apply(m, q, v, n)
    return v


def circuit(h, n, kinds, phases=True, qubits=None):
    """-> circuit of the prefix and one operation per kind on any distinct qubits, and the steps."""
    c = h.circuit.Circuit(n)
    q = c.qubits
    steps, made = [], []
    with c.context:
        steps += prefix(h, q, n, phases)
        for i, kind in enumerate(kinds):
            pos = qubits[i] if qubits else h.perm(f"g{i}.q", range(n), width(kind))
            op = build(h, kind, f"g{i}")([q[p] for p in pos])
            made.append((op, pos))
    steps += [(op.matrix, pos) for op, pos in made]
    return c, steps


def wide(h, n, kind):
    """-> larger circuit of one operation on selected qubits in any product state, among others in 0 or 1."""
    c = h.circuit.Circuit(n)
    q = c.qubits
    pos = list(h.choice("q", [(n - 1, 0, 2), (1, n - 1, 0), (n - 2, n - 3, n - 1), (0, n - 2, 1)])[: width(kind)])
    steps = []
    ones = h.choice("ones", (0, 1))
    with c.context:
        for i in range(n):
            if i in pos:
                m = unitary2(h, f"p{i}", False)
                h.user_gate(h.array(m))(q[i])
                steps.append((m, [i]))
            elif i % 2 == ones:
                h.ops.X(q[i])
                steps.append(([[0, 1], [1, 0]], [i]))
        op = build(h, kind)([q[i] for i in pos])
    return c, steps + [(op.matrix, pos)]


PATTERNS = ("aa", "aba", "abab", "aab")


def repeated(h, n, kind, phases=False, other="RX"):
    """-> circuit in which one operation object is recorded several times, and the steps."""
    c = h.circuit.Circuit(n)
    q = c.qubits
    with c.context:
        steps = prefix(h, q, n, phases)
    c.unlock()
    pos = h.perm("q", range(n), width(kind))
    a = build(h, kind, "a")([q[p] for p in pos])
    b = build(h, other, "b")([q[pos[-1]]])
    append = h.flag("append")
    for x in h.choice("pattern", PATTERNS):
        op, p = (a, pos) if x == "a" else (b, pos[-1:])
        c.append(op) if append else c.extend([op])
        steps.append((op.matrix, p))
    return c, steps


def outer(h, v):
    return [[a * h.conj(b) if not (h.is_zero(a) or h.is_zero(b)) else 0 for b in v] for a in v]


def reversed_bits(i, n):
    return int(format(i, f"0{n}b")[::-1], 2)


class Tree:
    """An arbitrary state of the qubits q[order], all others 0, prepared by user-defined gates.

    The amplitudes are products along a binary tree over the qubits in the given order: a node's
    children have the real weights (c, s) >= 0 and a phase on the 1-branch.  Every state has this
    form (up to a global phase) and the probabilities of measuring in this order are c^2 and s^2.
    """

    def __init__(self, h, q, order, phases=True):
        self.h, self.order, self.node = h, order, {}
        for d, pos in enumerate(order):
            for pat in self.patterns(d):
                tag = "s" + "".join(map(str, pat))
                t = h.angle(tag + ".t")
                c, s = h.cos(t / 2), h.sin(t / 2)
                h.assume(c >= 0)
                h.assume(s >= 0)
                e = h.expi(h.angle(tag + ".f")) if phases else 1
                self.node[pat] = (c, s, e)
                m = h.array([[c, -1 * s], [e * s, e * c]])
                zeros = [q[order[j]] for j in range(d) if not pat[j]]
                for z in zeros:
                    h.ops.X(z)
                if d == 0:
                    h.user_gate(m)(q[pos])
                else:
                    h.user_controlled(m, d)(qubits=tuple([q[order[j]] for j in range(d)] + [q[pos]]))
                for z in zeros:
                    h.ops.X(z)

    @staticmethod
    def patterns(d):
        return [tuple((i >> (d - 1 - j)) & 1 for j in range(d)) for i in range(1 << d)]

    def p0(self, outcomes):
        """Probability of measuring 0 next, after these outcomes."""
        return self.node[tuple(outcomes)][0] ** 2

    def vector(self, n, outcomes=()):
        """Big-endian state of n qubits after the first qubits of the order gave these outcomes."""
        v = [0] * (1 << n)
        for pat in self.patterns(len(self.order)):
            if pat[: len(outcomes)] != tuple(outcomes):
                continue
            a = 1
            for d, b in enumerate(pat):
                c, s, e = self.node[pat[:d]]
                w = 1 if d < len(outcomes) else (s if b else c)
                a = a * w * (e if b else 1)
            v[sum(b << (n - 1 - p) for b, p in zip(pat, self.order))] = a
        return v

    def check_draw(self, outcomes, i, u, msg):
        """Born rule for the i-th outcome, drawn with u."""
        low = u < self.p0(outcomes[:i])
        self.h.check(low if outcomes[i] == 0 else self.h.not_(low), msg)
