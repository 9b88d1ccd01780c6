"""Applying a circuit inside another replays it on the mapped qubits and bits."""
import warnings

from props.gates import GATES
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "circuits of 2 or 3 qubits and bits in one or two registers, with distinct or equal labels, with up to 3 operations of any kind (every built-in gate, custom "
    "and user-defined operations, measurements with or without bits, barriers, conditions on any bits with any values), applied to "
    "any qubits and bits of a larger circuit given as any kind of sequence, once or twice, also nested; operation objects recorded several times; wrong numbers of either"
)
OUTSIDE = "longer circuits; qubits that are given twice"


def classes(h):
    sub = h.circuit.Circuit(2)
    with sub.context as regs:
        h.ops.X(regs.q[1])
    return {"custom": h.ops.create_operation(sub), "user": h.user_gate(None), "control": h.user_controlled(None, 2)}


def width(kind):
    return GATES[kind][1] if kind in GATES else {"custom": 2, "user": 1, "control": 3, "Measurement": 2, "Barrier": 2, "M1": 1, "M-": 1}[kind]


def place(h, c, kind, tag, made, n, b, conds=True):
    """One operation of the kind on any of the circuit's qubits."""
    pos = h.perm(tag + ".q", range(n), width(kind))
    q = [c.qubits[i] for i in pos]
    pars = []
    bits = None
    if kind in GATES:
        npar = GATES[kind][0]
        pars = [h.real(f"{tag}.p{i}", -10, 10) for i in range(npar)]
        op = getattr(h.ops, kind)(*([pars] if npar else []), qubits=q)
    elif kind in made:
        op = made[kind](qubits=q)
    elif kind == "Barrier":
        op = h.ops.Barrier(q)
    else:
        op = h.ops.Measurement(q)
        if kind != "M-":
            bits = h.perm(tag + ".b", range(b), len(q))
            op = op | [c.bits[i] for i in bits]
    cond = None
    if conds and h.flag(tag + ".cond"):
        k = h.choice(tag + ".conds", (1, 2))
        i = h.index(tag + ".c", b)
        cond = [i] if k == 1 else [i, (i + 1) % b]
        op.conditional(c.bits[i] if k == 1 else tuple(c.bits[j] for j in cond))
    return type(op), pos, pars, bits, cond


def snapshot(c):
    return [
        (op, op.qubits, tuple(op.qubits), list(getattr(op, "parameters", [])), getattr(op, "bits", None), tuple(op._cond) if op._cond else None)
        for op in c.circuit
    ], [x.value for x in c.bits], c.is_locked(), list(c.qubits), list(c.bits)


def unchanged(h, c, old):
    new = snapshot(c)
    for a, b in zip(new[0], old[0]):
        h.check(a[0] is b[0] and len(a[2]) == len(b[2]) and all(x is y for x, y in zip(a[2], b[2])), "qubits of the applied circuit")
        h.check(len(a[3]) == len(b[3]) and all(x is y for x, y in zip(a[3], b[3])), "parameters of the applied circuit")
        h.check((a[4] is None) == (b[4] is None) and (a[4] is None or all(x is y for x, y in zip(a[4], b[4]))), "bits of the applied circuit")
        h.check((a[5] is None) == (b[5] is None) and (a[5] is None or all(x is y for x, y in zip(a[5], b[5]))), "conditions of the applied circuit")
    h.check(len(new[0]) == len(old[0]) and new[1] == old[1] and new[2] == old[2], "the applied circuit")
    h.check_same(new[3] + new[4], old[3] + old[4], "registers of the applied circuit")


def compare(h, ops, steps, qubits, bits, msg):
    """The operations are those of the steps on the given qubits and bits."""
    h.check(len(ops) == len(steps), f"{msg}: number of operations")
    for i, (op, (cls, pos, pars, mb, cond)) in enumerate(zip(ops, steps)):
        t = f"{msg}: operation {i}"
        h.check(type(op) is cls, f"{t}: kind")
        h.check_same(op.qubits, [qubits[p] for p in pos], f"{t}: qubits")
        if hasattr(op, "control"):
            nc = cls._num_control
            h.check_same(op.control, [qubits[p] for p in pos[:nc]], f"{t}: control qubits")
            h.check_same(op.target, [qubits[p] for p in pos[nc:]], f"{t}: target qubits")
        got = list(getattr(op, "parameters", []))
        h.check(len(got) == len(pars), f"{t}: number of parameters")
        for j, (a, b) in enumerate(zip(got, pars)):
            h.check(h.eq(a, b), f"{t}: parameter {j}")
        if cls.__name__ == "Measurement":
            if mb is None or bits is None:
                h.check(op.bits is None, f"{t}: no bits")
            else:
                h.check(op.bits is not None, f"{t}: bits")
                h.check_same(op.bits, [bits[p] for p in mb], f"{t}: bits")
        if cond is None:
            h.check(not op._cond, f"{t}: unconditional")
        else:
            h.check(bool(op._cond), f"{t}: conditional")
            h.check_same(list(op._cond), [bits[p] for p in cond], f"{t}: conditions")


def registers(h, n, b, two):
    c = h.circuit.Circuit()
    if two:
        # items in different registers may have equal labels
        for x, reg in enumerate(["b"] + ["a"] * (n - 1)):
            c.add_qubit(h.prim.Qubit("x"), reg)
        for x, reg in enumerate(["b"] + ["a"] * (b - 1)):
            c.add_bit(h.prim.Bit("x"), reg)
    else:
        c.add_qregister(n)
        c.add_cregister(b)
    return c


def given(h, how, items, circuit_items):
    """The sequence in which qubits or bits are passed."""
    if how == "tuple":
        return tuple(items)
    if how == "register":
        cls = type(circuit_items)
        return cls(items)
    return list(items)


def replay(h, kinds, n, two, vary=""):
    """vary: c - conditions, v - values of bits, s - kinds of sequences."""
    made = classes(h)
    b = 2
    sub = registers(h, n, b, two)
    steps = []
    with sub.context:
        for i, k in enumerate(kinds):
            steps.append(place(h, sub, k, f"g{i}", made, n, b, "c" in vary))
    # values of bits must not matter
    v = h.choice("value", (None, 0, 1)) if "v" in vary else 0
    if v is not None:
        sub.bits[0].set(v)
    old = snapshot(sub)
    outer = h.circuit.Circuit(n + 1, b + 1)
    qpos = h.perm("to", range(n + 1), n)
    bpos = h.perm("tob", range(b + 1), b) if any(s[3] or s[4] for s in steps) else [2, 0]
    q = [outer.qubits[i] for i in qpos]
    bs = [outer.bits[i] for i in bpos]
    w = (h.choice("outer value", (None, 0)) if v is None else 1) if "v" in vary else 0
    if w is not None:
        bs[0].set(w)
    seq = h.choice("sequence", ("list", "tuple", "register")) if "s" in vary else "tuple"
    with_bits = h.flag("bits")
    needs = any(s[4] for s in steps)
    with outer.context as regs:
        first = h.ops.Z(regs.q[0])
        if not with_bits:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if needs:
                    h.check_raises("conditions without bits", sub, given(h, seq, q, outer.qubits), exc=ValueError)
                else:
                    sub(given(h, seq, q, outer.qubits))
        else:
            sub(given(h, seq, q, outer.qubits), given(h, seq, bs, outer.bits))
        last = h.ops.Y(regs.q[1])
    ops = list(outer.circuit)
    h.check(ops[0] is first and ops[-1] is last, "operations before and after")
    applied = [] if not with_bits and needs else steps
    compare(h, ops[1:-1], applied, q, bs if with_bits else None, "applied")
    unchanged(h, sub, old)
    for a in ops[1:-1]:
        h.check(all(a is not o[0] for o in old[0]), "operations are new ones")


def again(h, kinds):
    """Operation objects recorded several times are replayed as often."""
    made = classes(h)
    n, b = max(2, max(map(width, kinds))), 2
    sub = registers(h, n, b, False)
    with sub.context:
        steps = [place(h, sub, k, f"g{i}", made, n, b, i == 0) for i, k in enumerate(kinds)]
    sub.unlock()
    ops = list(sub.circuit)
    for x in h.choice("pattern", ("a", "ba", "ab", "aa")):
        i = 0 if x == "a" else 1
        sub.append(ops[i])
        steps.append(steps[i])
    old = snapshot(sub)
    outer = h.circuit.Circuit(n + 1, b + 1)
    q = [outer.qubits[i] for i in h.perm("to", range(n + 1), n)]
    bs = [outer.bits[i] for i in (2, 0)]
    with outer.context:
        sub(q, bs)
    compare(h, outer.circuit, steps, q, bs, "applied")
    unchanged(h, sub, old)
    for a in outer.circuit:
        h.check(all(a is not o[0] for o in old[0]), "operations are new ones")


def wrong(h, n, b):
    """Wrong numbers of qubits or bits, single items, wrong places."""
    sub = h.circuit.Circuit(n, b)
    with sub.context as regs:
        h.ops.X(regs.q[0])
        h.ops.Measurement(regs.q[0]) | regs.c[0]
    old = snapshot(sub)
    outer = h.circuit.Circuit(4, 4)
    h.check_raises("outside of contexts", sub, list(outer.qubits)[:n], exc=h.circuit.CircuitError)
    k = h.choice("k", range(5))
    j = h.choice("j", range(5))
    with outer.context as regs:
        q, c = list(regs.q)[:k], list(regs.c)[:j]
        if k == 1 and h.flag("single"):
            q = q[0]
        if j == 1 and h.flag("single bit"):
            c = c[0]
        if k == n and j == b:
            sub(q, c)
            want = 2
        else:
            h.check_raises("wrong numbers", sub, q, c, exc=ValueError)
            want = 0
        h.check(len(outer.circuit) == want, "operations")
        if k != n:
            h.check_raises("wrong numbers, without bits", sub, q, exc=ValueError)
        h.check(len(outer.circuit) == want, "operations")
    unchanged(h, sub, old)
    sub.unlock()
    with sub.context as regs:
        h.check_raises("a circuit in its own context", sub, regs.q, regs.c, exc=TypeError)
        h.check(len(sub.circuit) == 2, "operations")


def nested(h, kinds, conds=False):
    """A circuit within a circuit within a circuit, and applied twice."""
    made = classes(h)
    a = h.circuit.Circuit(2, 2)
    steps = []
    with a.context:
        for i, k in enumerate(kinds):
            steps.append(place(h, a, k, f"g{i}", made, 2, 2, conds))
    b = h.circuit.Circuit(2, 2)
    s, t = h.perm("ab", range(2), 2), h.perm("abb", range(2), 2)
    with b.context as r:
        a([r.q[i] for i in s], [r.c[i] for i in t])
    c = h.circuit.Circuit(3, 2)
    u, v = h.perm("bc", range(3), 2), h.perm("bcb", range(2), 2)
    with c.context as r:
        for k in range(2):
            b([r.q[u[(i + k) % 2]] for i in range(2)], [r.c[v[i]] for i in range(2)])
    for k in range(2):
        q = [c.qubits[u[(s[i] + k) % 2]] for i in range(2)]
        bs = [c.bits[v[t[i]]] for i in range(2)]
        compare(h, list(c.circuit)[k * len(steps):(k + 1) * len(steps)], steps, q, bs, f"nested {k}")
    h.check(len(c.circuit) == 2 * len(steps), "number of operations")
    compare(h, list(a.circuit), steps, list(a.qubits), list(a.bits), "innermost")
    # changing one leaves the others
    if hasattr(c.circuit[0], "parameters"):
        c.circuit[0].parameters[0] = 7
        h.check(h.eq(b.circuit[0].parameters[0], steps[0][2][0]), "parameters are copies")
        h.check(h.eq(c.circuit[len(steps)].parameters[0], steps[0][2][0]), "parameters are copies")


def frozen(h, kind):
    """Within a frozen context nothing is applied."""
    made = classes(h)
    a = h.circuit.Circuit(3, 2)
    with a.context:
        place(h, a, kind, "g", made, 3, 2, False)
    c = h.circuit.Circuit(3, 2)
    with c.context as r:
        with c.context.freeze:
            a(r.q, r.c)
        h.check(not c.circuit, "nothing is applied while frozen")
        a(r.q, r.c)
        h.check(len(c.circuit) == 1, "applied afterwards")


def harnesses(tier):
    big = tier != "quick"
    out = []
    every = list(GATES) + ["custom", "user", "control", "Measurement", "M1", "M-", "Barrier"]
    for k in every:
        n = max(2, width(k))
        out.append(Harness(f"replay-{k}", replay, kinds=(k,), n=n, two=False))
        if width(k) > 1 or big:
            out.append(Harness(f"replay-{k}-registers", replay, kinds=(k,), n=max(n, 2), two=True))
        if k in ("X", "RX", "CX", "CRotation", "custom", "M1", "Barrier") or big:
            out.append(Harness(f"conditions-{k}", replay, kinds=(k,), n=n, two=False, vary="c"))
        if k in ("RX", "CX", "M1", "Measurement") or big:
            out.append(Harness(f"sequences-{k}", replay, kinds=(k,), n=n, two=False, vary="s"))
        if k in ("X", "M1"):
            out.append(Harness(f"values-{k}", replay, kinds=(k,), n=n, two=False, vary="cv"))
        out.append(Harness(f"frozen-{k}", frozen, kind=k))
    pairs = [("M1", "X"), ("RX", "M1"), ("CRX", "Measurement")]
    if big:
        pairs += [("Measurement", "Measurement"), ("Rotation", "custom", "M1"), ("CX", "M1", "SWAP")]
    for p in pairs:
        out.append(Harness(f"replay-{'-'.join(p)}", replay, kinds=p, n=2, two=False))
        out.append(Harness(f"nested-{'-'.join(p)}", nested, kinds=p))
    out.append(Harness("nested-conditions", nested, kinds=("X",), conds=True))
    for k in ("CRotation", "Rotation", "custom", "Barrier"):
        out.append(Harness(f"nested-{k}", nested, kinds=(k,)))
    for p in (("RX", "X"), ("M1", "Y"), ("custom", "Z"), ("Barrier", "M1")):
        out.append(Harness(f"again-{'-'.join(p)}", again, kinds=p))
    for n in (1, 2, 3):
        for b in (1, 2):
            out.append(Harness(f"wrong-{n}-{b}", wrong, n=n, b=b))
    return out
