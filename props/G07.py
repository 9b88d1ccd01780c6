"""Equality, re-application, search and removal of operations."""
from props.gates import GATES
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "all pairs of 33 kinds of operations (every built-in gate, measurements, barriers, user-defined and custom operations, "
    "parametric or not, equally named or not), on any ordered choices of 3 qubits or none, with any real parameters, shared "
    "or different, or parameter variables with or without values; circuits of up to 3 operations for searching and removal"
)
OUTSIDE = "parameters that are not numbers or variables; user-defined equality"

OTHERS = ("Measurement", "Barrier", "user", "namesake", "custom", "custom2", "custom p", "ucontrol")


def kinds(h):
    """name -> (parameters, qubits, controls, class); a fresh table per path."""
    t = {g: (a, b, c, getattr(h.ops, g)) for g, (a, b, c, _) in GATES.items()}
    t["Measurement"] = (0, 2, 0, h.ops.Measurement)
    t["Barrier"] = (0, 2, 0, h.ops.Barrier)

    class Mine(h.ops.Operation):
        _num_qubits = 1
        matrix = None

    t["user"] = (0, 1, 0, Mine)
    t["namesake"] = (0, 1, 0, type("X", (h.ops.Operation,), {"_num_qubits": 1, "matrix": None}))
    made = []
    for i, cls in enumerate((h.circuit.Circuit, h.circuit.Circuit, h.circuit.ParametricCircuit)):
        c = cls(1)
        with c.context as regs:
            if i == 2:
                h.ops.RX(regs.p[0], regs.q[0])
            else:
                (h.ops.X, h.ops.Y)[i](regs.q[0])
        made.append(h.ops.create_operation(c))
    t["custom"], t["custom2"], t["custom p"] = ((0, 1, 0, made[0]), (0, 1, 0, made[1]), (1, 1, 0, made[2]))
    t["ucontrol"] = (0, 2, 1, h.user_controlled(None, 1))
    return t


def create(entry, pars, qubits):
    npar, nq, nc, cls = entry
    a = [pars] if npar else []
    if qubits is None:
        return cls(*a)
    if nc:
        return cls(*a, tuple(qubits[:nc]), tuple(qubits[nc:]))
    return cls(*a, tuple(qubits))


def arguments(h, entry, q, tag, other=None, values=("number",)):
    """Any qubits (or none) and parameters for the kind; parameters may repeat those of `other`."""
    npar, nq, nc, _ = entry
    qubits = None if h.flag(tag + ".bare") else [q[i] for i in h.perm(tag + ".q", range(3), nq)]
    pars = []
    for i in range(npar):
        how = h.choice(f"{tag}.p{i}.kind", values)
        if how == "shared" and other is not None and i < len(other):
            pars.append(other[i])
        elif how == "variable":
            pars.append(h.prim.Variable(h.choice(f"{tag}.p{i}.name", ("a", "b"))))
        elif how == "set":
            v = h.prim.Variable("a")
            v.set(h.real(f"{tag}.p{i}.value", -4, 4))
            pars.append(v)
        else:
            pars.append(h.real(f"{tag}.p{i}", -4, 4))
    return qubits, pars


def same(h, a, b):
    """Whether the lists of parameters are equal, decided on this path."""
    return len(a) == len(b) and all(bool(h.eq(x, y)) for x, y in zip(a, b))


def expect(h, ea, qa, pa, eb, qb, pb):
    if ea[3] is not eb[3]:
        return False
    if (qa is None) != (qb is None) or (qa is not None and [id(x) for x in qa] != [id(x) for x in qb]):
        return False
    return same(h, pa, pb)


def pair(h, first, second):
    t = kinds(h)
    q = h.circuit.Circuit(3).qubits
    ea, eb = t[first], t[second]
    qa, pa = arguments(h, ea, q, "a")
    qb, pb = arguments(h, eb, q, "b", pa, ("number",) if eb[0] > 1 else ("number", "shared"))
    a, b = create(ea, pa, qa), create(eb, pb, qb)
    want = expect(h, ea, qa, pa, eb, qb, pb)
    h.check(bool(a == b) == want, f"{first} == {second} is {want}")
    h.check(bool(b == a) == want, f"{second} == {first} is {want}")
    h.check(bool(a != b) == (not want), f"{first} != {second} is {not want}")
    h.check(bool(a == a), "an operation equals itself")


def everything(h, first):
    """Against one operation of every kind, and against other objects."""
    t = kinds(h)
    q = h.circuit.Circuit(3).qubits
    ea = t[first]
    qa, pa = arguments(h, ea, q, "a")
    a = create(ea, pa, qa)
    if h.flag("conditional"):
        a.conditional(h.prim.Bit("c"))
    for name, eb in t.items():
        if name == first:
            continue
        pb = [h.real("b", -4, 4)] * eb[0]
        b = create(eb, pb, q[: eb[1]])
        h.check(bool(a == b) is False and bool(b == a) is False and bool(a != b), f"{first} and {name} are different gates")
        b = create(eb, pb, None)
        h.check(bool(a == b) is False and bool(b == a) is False, f"{first} and an unapplied {name} are different gates")
    for x in (None, 1, "X", first, (), ea[3], q[0]):
        h.check(bool(a == x) is False, f"{first} is not {x!r}")


def variables(h, gate):
    t = kinds(h)
    q = h.circuit.Circuit(3).qubits
    e = t[gate]
    qs = [q[i] for i in range(e[1])]
    pars = []
    for tag in "xy":
        pars.append([])
        for i in range(e[0]):
            pars[-1] += arguments(h, (1, 0, 0, None), q, f"{tag}{i}", None, ("number", "variable", "set"))[1]
    a, b = create(e, pars[0], qs), create(e, pars[1], qs)

    def equal(x, y):
        V = h.prim.Variable
        if isinstance(x, V) and isinstance(y, V):
            if x.name == y.name:
                return True
            return x.value is not None and y.value is not None and bool(h.eq(x.value, y.value))
        if isinstance(x, V):
            return x.value is not None and bool(h.eq(x.value, y))
        if isinstance(y, V):
            return equal(y, x)
        return bool(h.eq(x, y))

    want = all(equal(x, y) for x, y in zip(*pars))
    h.check(bool(a == b) == want, f"equality with parameters is {want}")
    h.check(bool(b == a) == want, f"equality with parameters, swapped, is {want}")


def again(h, kind):
    """Re-applying, on the same or on other qubits."""
    t = kinds(h)
    e = t[kind]
    npar, nq, nc, cls = e
    c, d = h.circuit.Circuit(3), h.circuit.Circuit(3)
    pos = h.perm("q", range(3), nq)
    pars = [h.real(f"p{i}", -4, 4) for i in range(npar)]
    bare = h.flag("bare")
    if bare:
        op = create(e, pars, None)
    else:
        with c.context:
            op = create(e, pars, [c.qubits[i] for i in pos])
    new = bare or h.flag("new")
    home = d if new else c
    c.unlock()
    n = len(home.circuit)
    before = list(op.parameters) if npar else None
    want = [home.qubits[i] for i in (h.perm("n", range(3), nq) if new else pos)]
    with home.context:
        if not new:
            r = op()
        elif nc:
            r = op(tuple(want[:nc]), tuple(want[nc:])) if h.flag("keywords") else op(control=tuple(want[:nc]), target=tuple(want[nc:]))
        else:
            r = op(tuple(want)) if nq > 1 or h.flag("tuple") else op(want[0])
    h.check(r is not op, "a new operation")
    h.check(len(home.circuit) == n + 1 and home.circuit[-1] is r, "appended once")
    h.check(r.__class__ is cls, "of the same gate")
    h.check_same(r.qubits, want, "on the given qubits")
    if npar:
        h.check(same(h, list(r.parameters), pars), "with the same parameters")
    h.check(bool(r == create(e, pars, want)), "equal to the operation applied there")
    if not new:
        h.check(bool(r == op) and bool(op == r), "equal to the original")
    if npar:
        r.parameters[0] = 17
        h.check(same(h, list(op.parameters), before), "the original keeps its parameters")


def partly(h, kind):
    """Controlled operations re-applied with only controls or only targets keep the others."""
    e = kinds(h)[kind]
    npar, nq, nc, cls = e
    c = h.circuit.Circuit(nq + 2)
    pos = h.perm("q", range(nq + 2), nq)
    pars = [h.real(f"p{i}", -4, 4) for i in range(npar)]
    with c.context:
        op = create(e, pars, [c.qubits[i] for i in pos])
        rest = [i for i in range(nq + 2) if i not in pos]
        control = h.flag("control")
        k = nc if control else nq - nc
        new = [c.qubits[i] for i in h.perm("n", rest, k)]
        x = new[0] if k == 1 and h.flag("single") else tuple(new)
        if control:
            r = op(x) if h.flag("position") else op(control=x)
            want = new + [c.qubits[i] for i in pos[nc:]]
        else:
            r = op(target=x)
            want = [c.qubits[i] for i in pos[:nc]] + new
    h.check_same(r.qubits, want, "the other qubits are kept")
    h.check(r.__class__ is cls and len(c.circuit) == 2 and c.circuit[1] is r, "applied")
    if npar:
        h.check(same(h, list(r.parameters), pars), "with the same parameters")


def search(h, k, pool):
    """index, count, in and remove follow the equality."""
    t = kinds(h)
    c = h.circuit.Circuit(3)
    q = c.qubits
    made, specs = [], []
    with c.context:
        for i in range(k):
            e = t[h.choice(f"kind{i}", pool)]
            qs = [q[j] for j in h.perm(f"q{i}", range(2), e[1])]
            ps = [h.real(f"p{i}", -4, 4) for _ in range(e[0])]
            made.append(create(e, ps, qs))
            specs.append((e, qs, ps))
    e = t[h.choice("kind", pool)]
    qs = [q[j] for j in h.perm("q", range(2), e[1])]
    ps = [h.real("p", -4, 4) for _ in range(e[0])]
    x = create(e, ps, qs)
    hits = [i for i, s in enumerate(specs) if expect(h, *s, e, qs, ps)]
    h.check(c.circuit.count(x) == len(hits), "number of equal operations")
    h.check((x in c.circuit) == bool(hits), "membership")
    if hits:
        h.check(c.circuit.index(x) == hits[0], "position of the first equal operation")
        c.remove(x)
        h.check_same(c.circuit, made[: hits[0]] + made[hits[0] + 1 :], "the first equal operation is removed")
    else:
        h.check_raises("removing an absent operation", c.remove, x, exc=ValueError)
        h.check_same(c.circuit, made, "nothing is removed")


def harnesses(tier):
    deep = tier == "thorough"
    out = []
    names = list(GATES) + list(OTHERS)
    for g in names:
        out.append(Harness(f"pair-{g}", pair, first=g, second=g))
        out.append(Harness(f"all-{g}", everything, first=g))
        out.append(Harness(f"again-{g}", again, kind=g))
        if g in ("CX", "CHadamard", "CRX", "CRotation") or g == "ucontrol":
            out.append(Harness(f"partly-{g}", partly, kind=g))
    mixed = [("X", "namesake"), ("custom", "custom2"), ("RX", "RY"), ("CX", "CZ"), ("CX", "ucontrol"), ("CRX", "CRZ"), ("SWAP", "CX"), ("Measurement", "Barrier"), ("custom p", "RX")]
    for a, b in mixed:
        out.append(Harness(f"pair-{a}-{b}", pair, first=a, second=b))
    for g in ("RX", "CRX", "custom p") + (("Rotation",) if deep else ()):
        out.append(Harness(f"variables-{g}", variables, gate=g))
    out.append(Harness("search-2", search, k=2, pool=("X", "RX", "CX", "namesake", "custom", "custom2")))
    out.append(Harness("search-3", search, k=3, pool=("RX", "X")))
    if deep:
        out.append(Harness("search-3-all", search, k=3, pool=("X", "RX", "CX", "CRX", "namesake")))
    return out
