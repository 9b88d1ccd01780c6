"""Resetting circuits and removing operations."""
from props.circmodel import Model, agree
from props.gates import GATES
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "circuits of 2 qubits and bits in any number of registers up to 2 each, with up to 4 operations, equal or not, on any qubits "
    "and with any parameters; one removal of any operation, present or not, one reset of either kind, with any lock, state and "
    "values of bits and variables; uses afterwards"
)
OUTSIDE = "resetting the circuit whose context is active; longer circuits"


def make(h, kind, q, pars):
    npar, nq, nc, _ = GATES[kind]
    a = [list(pars)] if npar else []
    return getattr(h.ops, kind)(*a, qubits=tuple(q))


def removal(h, kinds, n, cls):
    """The first equal operation is removed, nothing else."""
    c = getattr(h.circuit, cls)(2)
    q = list(c.qubits)
    ops, keys = [], []

    def new(tag):
        k = h.choice(tag, kinds)
        npar, nq = GATES[k][:2]
        pos = h.perm(tag + ".q", range(2), nq)
        pars = [h.real(f"{tag}.p{i}", -2, 2) for i in range(npar)]
        return (k, pos, pars)

    for i in range(n):
        key = new(f"g{i}")
        keys.append(key)
        op = make(h, key[0], [q[j] for j in key[1]], key[2])
        c.append(op)
        ops.append(op)
    if h.flag("locked"):
        c.lock()
    locked = c.is_locked()
    how = h.choice("how", ("member", "equal"))
    if how == "member":
        i = h.index("which", n)
        x, key = ops[i], keys[i]
    else:
        key = new("x")
        x = make(h, key[0], [q[j] for j in key[1]], key[2])

    def equal(a, b):
        if a[0] != b[0] or a[1] != b[1]:
            return False
        return bool(h.all_of([h.eq(s, t) for s, t in zip(a[2], b[2])]))

    hit = [i for i, k in enumerate(keys) if equal(k, key)]
    if hit:
        c.remove(x)
        h.check_same(c.circuit, ops[: hit[0]] + ops[hit[0] + 1 :], "operations after a removal")
    else:
        h.check_raises("removing an absent operation", c.remove, x, exc=ValueError)
        h.check_same(c.circuit, ops, "operations after a refused removal")
    h.check(c.is_locked() == locked, "lock")
    h.check_same(c.qubits, q, "qubits")


def reset(h, cls, keep, nq, nc):
    m = Model()
    c = getattr(h.circuit, cls)()
    for kind, k in (("q", nq), ("c", nc)):
        for r in range(k):
            l = h.atom(f"{kind}{r}")
            for o in m.labels(kind):
                h.assume(h.not_(h.eq(l, o)))
            (c.add_qregister if kind == "q" else c.add_cregister)(1, l)
            getattr(m, kind).append((l, list((c.qregisters if kind == "q" else c.cregisters)[l])))
    parametric = cls != "Circuit"
    qs, bs = m.items("q"), m.items("c")
    vs = []
    if qs:
        with c.context as regs:
            h.ops.X(regs.q[0])
            if parametric:
                vs.append(regs.p[0])
                h.ops.RX(regs.p[0], regs.q[0])
            if bs:
                h.ops.Measurement(regs.q[0]) | regs.c[0]
        if vs and h.flag("set"):
            vs[0].set(h.real("v", -5, 5))
    for i, b in enumerate(bs):
        v = h.choice(f"b{i}", (None, 0, 1))
        if v is not None:
            b.set(v)
    s = h.choice("state", ("none", "pure", "mixed"))
    d = 1 << len(qs)
    if s == "pure":
        c.set_state(h.array([1] + [0] * (d - 1)))
    elif s == "mixed":
        c.set_state(h.array([[1 if i == j == 0 else 0 for j in range(d)] for i in range(d)]))
    last = h.choice("last", ("none", "qubits", "bits", "both")) if s == "none" else "none"
    if last != "none":
        # only some are listed since the last change
        c.add_qubit()
        c.add_bit()
        if last != "bits":
            qs = list(c.qubits)
        if last != "qubits":
            bs = list(c.bits)
        for kind, regs in (("q", c.qregisters), ("c", c.cregisters)):
            rest = getattr(m, kind)
            rest[:] = [(l, list(r)) for l, r in regs.items()]
    if h.flag("locked") or not qs:
        c.lock()
    else:
        c.unlock()
    old_q, old_b = list(qs), list(bs)
    c.reset(keep_registers=keep)
    if not keep:
        m.q, m.c = [], []
    agree(h, c, m, "after a reset")
    h.check(c.state is None and c.density_matrix is None, "no state")
    h.check(h.circuit.CircuitContext.active_context is None, "no context is active")
    for b in old_b:
        h.check(b.value is None or not keep, "bits are unset")
    if parametric:
        h.check(c.num_parameters == (len(vs) if keep else 0), "number of parameters")
        for v in vs:
            h.check(v.value is None or not keep, "variables are unset")
    # used like a new circuit
    c.add_qubit()
    if not m.q:
        m.q.append((list(c.qregisters)[0], []))
    x = list(c.qregisters[m.q[0][0]])[-1]
    h.check(all(x is not y for y in old_q), "a new qubit")
    m.q[0][1].append(x)
    c.add_bit()
    if not m.c:
        m.c.append((list(c.cregisters)[0], []))
    y = list(c.cregisters[m.c[0][0]])[-1]
    h.check(all(y is not b for b in old_b), "a new bit")
    m.c[0][1].append(y)
    agree(h, c, m, "after adding to a reset circuit")
    with c.context as regs:
        h.check_same(regs.q, m.items("q"), "qubits of the context")
        h.check_same(regs.c, m.items("c"), "bits of the context")
        m.ops.append(h.ops.Y(regs.q[len(m.items("q")) - 1]))
        if parametric:
            v = regs.p[0]
            h.check((v in vs) if keep and vs else all(v is not w for w in vs), "parameters of the context")
            m.ops.append(h.ops.RY(v, regs.q[0]))
        if old_q and not keep:
            h.check_raises("qubits of removed registers", h.ops.X, old_q[0], exc=ValueError)
    m.locked = True
    agree(h, c, m, "used after a reset")
    d = 1 << len(m.items("q"))
    c.set_state(h.array([0] * (d - 1) + [1]))
    h.check(c.state is not None, "a state can be set")
    h.check_raises("setting another state", c.set_state, h.array([1] + [0] * (d - 1)), exc=h.circuit.CircuitError)


def repeated(h, cls):
    """Several resets in a row."""
    c = getattr(h.circuit, cls)(2, 1)
    m = Model()
    m.q.append((list(c.qregisters)[0], list(c.qubits)))
    m.c.append((list(c.cregisters)[0], list(c.bits)))
    for i in range(3):
        if h.flag(f"op{i}") and m.items("q"):
            with c.context as regs:
                h.ops.X(regs.q[0])
                if len(regs.c):
                    regs.c[0].set(1, True)
        keep = h.flag(f"keep{i}")
        c.reset(keep) if h.flag(f"positional{i}") else c.reset(keep_registers=keep)
        if not keep:
            m.q, m.c = [], []
        agree(h, c, m, f"after reset {i + 1}")


def harnesses(tier):
    big = tier != "quick"
    out = []
    for cls in ("Circuit", "ParametricCircuit"):
        for kinds in (("X", "Z"), ("CX", "SWAP"), ("RX", "X"), ("CRX",)):
            for n in (1, 2, 3) if len(kinds) == 1 or big else (1, 2):
                if cls == "Circuit" or big or n == 2:
                    out.append(Harness(f"remove-{'-'.join(kinds)}-{n}-{cls}", removal, kinds=kinds, n=n, cls=cls))
        out.append(Harness(f"remove-X-3-{cls}", removal, kinds=("X",), n=3, cls=cls))
        out.append(Harness(f"remove-X-4-{cls}", removal, kinds=("X",), n=4, cls=cls))
        for keep in (True, False):
            for nq in (0, 1, 2):
                for nc in (0, 1, 2):
                    out.append(Harness(f"reset-{nq}{nc}-{keep}-{cls}", reset, cls=cls, keep=keep, nq=nq, nc=nc))
        out.append(Harness(f"repeated-{cls}", repeated, cls=cls))
    return out
