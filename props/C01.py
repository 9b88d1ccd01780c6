"""The qubits and bits of a circuit after any history of additions and resets."""
from props.circmodel import Model, add_register, agree, fresh, step
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "histories of up to 3 changes (4 in the thorough tier) from {add a qubit or bit, given or not, with or without a value, to a "
    "register that exists, any other or none; add a register of 0 to 2 items with any label, also one such as the circuit "
    "chooses; reset keeping or dropping the registers; apply an operation}, after any initial sizes up to 2, parametric or not; the changes that end the longest histories are limited to new or absent labels and items"
)
OUTSIDE = "longer histories; registers changed directly instead of through the circuit"
QUANTUM = ("qubit", "qreg", "keep", "drop", "op")
CLASSICAL = ("bit", "creg", "keep", "drop")


def create(h, m, kind, sizes=(None, 0, 1, 2), bits=(None, 0, 1, 2)):
    cls = h.circuit.ParametricCircuit if kind == "parametric" else h.circuit.Circuit
    nq, nb = h.choice("qubits", sizes), h.choice("bits", bits)
    c = cls(nq, nb)
    for k, n, regs in (("q", nq, c.qregisters), ("c", nb, c.cregisters)):
        if n is not None:
            h.check(len(regs) == 1, "one register at the start")
            (label,) = list(regs)
            items = list(regs[label])
            h.check(len(items) == n, "size of the first register")
            for x in items:
                fresh(h, m, x, "first register")
            getattr(m, k).append((label, items))
        else:
            h.check(len(regs) == 0, "no registers at the start")
    agree(h, c, m, "at the start")
    return c


def history(h, kind, first, kinds, n, light):
    m = Model()
    c = create(h, m, kind, (None, 2), (None,)) if "qubit" in kinds else create(h, m, kind, (None,), (None, 2))
    for i in range(n):
        step(h, c, m, f"step{i}", kinds if i else (first,), 2 if i == 0 else 1, light=i >= light)
        if i < n - 1:
            # shorter histories are checked on their own; here, what is remembered is only read
            h.check(c.num_qubits == len(m.items("q")) and c.num_bits == len(m.items("c")), f"numbers after change {i + 1}")
    agree(h, c, m, "at the end")


def mixed(h, kind):
    """Quantum and classical registers are independent, even with equal labels."""
    m = Model()
    c = create(h, m, kind)
    same = h.atom("same")
    for i in range(2):
        k = h.choice(f"step{i}", ("qreg", "creg"))
        n = h.choice(f"size{i}", (0, 1))
        label = same if not any(l is same for l in m.labels(k[0])) else h.atom(f"other{i}")
        if any(bool(h.eq(l, label)) for l in m.labels(k[0])):
            return
        (c.add_qregister if k[0] == "q" else c.add_cregister)(n, label)
        items = list((c.qregisters if k[0] == "q" else c.cregisters)[label])
        h.check(len(items) == n, "size")
        for x in items:
            fresh(h, m, x, "register")
        getattr(m, k[0]).append((label, items))
        agree(h, c, m, f"after register {i + 1}")
    step(h, c, m, "last", ("qubit", "bit", "keep", "drop"))
    agree(h, c, m, "at the end")


def others(h):
    """Two circuits share nothing but what both are given."""
    m, o = Model(), Model()
    c, d = h.circuit.Circuit(), h.circuit.Circuit()
    x, b = h.prim.Qubit("a"), h.prim.Bit("a")
    for i in range(3):
        first = h.flag(f"first{i}")
        t, u = (c, m) if first else (d, o)
        k = h.choice(f"step{i}", ("qubit", "bit", "qreg"))
        if k == "qreg":
            add_register(h, t, u, "q", f"step{i}", ("none",), 1)
        elif k == "qubit" and x not in t.qubits:
            t.add_qubit(x)
            if not u.q:
                u.q.append((list(t.qregisters)[0], []))
            u.q[0][1].append(x)
        elif k == "bit" and b not in t.bits:
            t.add_bit(b)
            if not u.c:
                u.c.append((list(t.cregisters)[0], []))
            u.c[0][1].append(b)
        agree(h, c, m, f"first circuit after change {i + 1}")
        agree(h, d, o, f"second circuit after change {i + 1}")


def harnesses(tier):
    n = 3 if tier == "quick" else 4
    out = []
    for kinds in (QUANTUM, CLASSICAL):
        for k in kinds:
            for p in ("plain", "parametric") if k in ("keep", "drop") else ("plain",):
                for j in range(1, n + 1):
                    out.append(Harness(f"history-{k}-{kinds[1]}-{p}-{j}", history, kind=p, first=k, kinds=kinds, n=j, light=2 if j < n else 1))
    out.append(Harness("mixed-plain", mixed, kind="plain"))
    out.append(Harness("mixed-parametric", mixed, kind="parametric"))
    out.append(Harness("circuits", others))
    return out
