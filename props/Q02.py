"""Gate definitions in exported OpenQASM."""
from props import qasm
from props.gates import GATES
from props.Q01 import name_of, place
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "every sequence of two gates of the library and of up to four of those that need definitions, on any distinct qubits of 3 qubits in one or "
    "two registers with any real parameters (qubits and registers in fixed order for sequences); both label options; repeated exports"
)
OUTSIDE = "custom operations, which the user defines; the meaning of the definitions, which G05 decides"


def read(h, text):
    try:
        return qasm.Reader(h, text, True)
    except qasm.BadText as e:
        h.check(False, f"the export is not OpenQASM: {e}")


def definitions(h, kinds, n, qs, orders):
    """Definitions are there for exactly the gates that need them, before their use."""
    c = h.circuit.Circuit()
    for k in qs:
        c.add_qregister(k)
    used = []
    with c.context as regs:
        for i in range(n):
            kind = h.choice(f"g{i}", kinds[i % len(kinds)] if isinstance(kinds[0], tuple) else kinds)
            npar, nq, _, _ = GATES[kind]
            pos = h.perm(f"q{i}.", range(sum(qs)), nq) if orders else [(i + k) % sum(qs) for k in range(nq)]
            pars = [h.real(f"p{i}{j}", -9, 9) for j in range(npar)]
            place(h, kind, [regs.q[k] for k in pos], pars)
            used.append(name_of(kind))
    kw = {}
    if orders and h.flag("reg_labels"):
        kw["reg_labels"] = True
    plain = read(h, c.to_qasm(**kw))
    if orders and h.flag("explicit"):
        plain = read(h, c.to_qasm(gate_definitions=False, **kw))
    full = read(h, c.to_qasm(gate_definitions=True, **kw))
    if orders and h.flag("again"):
        full = read(h, c.to_qasm(gate_definitions=True, **kw))
    h.check(not plain.defined, "definitions only on request")
    h.check(full.includes == plain.includes and full.version == plain.version, "header")
    need = {u for u in used if u not in qasm.STANDARD}
    h.check(len(full.defined) == len(set(full.defined)), "no gate is defined twice")
    h.check(set(full.defined) == need, "exactly the gates that need a definition are defined")
    known = set(qasm.STANDARD)
    for x in full.items:
        if x[0] == "gate":
            for g, _, _ in full.gates[x[1]][2]:
                h.check(g in known, f"the definition of {x[1]} uses gates defined before")
            known.add(x[1])
        elif x[0] == "apply":
            h.check(x[1] in known, f"{x[1]} is defined before it is used")
            h.check(full.width(x[1]) == len(x[3]), f"{x[1]} is applied to as many qubits as its definition has")
    a = [x for x in full.items if x[0] != "gate"]
    b = plain.items
    h.check(len(a) == len(b), "the same number of statements")
    for x, y in zip(a, b):
        h.check(x[:2] == y[:2], "the same statements")
        if x[0] == "apply":
            h.check(len(x[2]) == len(y[2]) and h.all_of([h.eq(s, t) for s, t in zip(x[2], y[2])]), "the same parameters")
            h.check(x[3] == y[3], "the same qubits")
        else:
            h.check(x[2:] == y[2:], "the same sizes")


DEFINED = ("Rotation", "CRX", "CRY", "CRotation", "SWAP", "CSWAP")


def harnesses(tier):
    deep = tier != "quick"
    cov = ["dwave/gate/circuit.py: Circuit.to_qasm"]
    out = [Harness("none", definitions, covers=cov, kinds=("X",), n=0, qs=(2,), orders=True)]
    for k in GATES:
        out.append(Harness(f"one-{k}", definitions, covers=cov, kinds=(k,), n=1, qs=(2, 1), orders=True))
        out.append(Harness(f"pair-{k}", definitions, covers=cov, kinds=((k,), tuple(GATES)), n=2, qs=(3,), orders=False))
    for k in DEFINED:
        out.append(Harness(f"triple-{k}", definitions, covers=cov, kinds=((k,), DEFINED + ("X", "CRZ"), DEFINED + ("X", "CRZ")), n=3, qs=(2, 1), orders=False))
        if deep:
            out.append(Harness(f"four-{k}", definitions, covers=cov, kinds=((k,), DEFINED + ("X",), DEFINED, DEFINED), n=4, qs=(2, 1), orders=False))
    out.append(Harness("other-first", definitions, covers=cov, kinds=(("X", "CRZ", "CCX"), DEFINED, DEFINED), n=3, qs=(2, 1), orders=False))
    return out
