"""Numbers of qubits and parameters of built-in gates."""
from props.gates import ALIASES, GATES
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "every built-in gate and alias with 0 to 2 qubits and 0 to 2 parameters more or fewer than it takes, any parameter "
    "values, every way of passing qubits (single, tuple, list, register, control/target, qubits=), inside or outside of a "
    "circuit context, on fresh classes or after one or two (three in the thorough tier) other uses of any gate class"
)
OUTSIDE = (
    "the same qubit given twice; control without target outside of a context (an incomplete operation to be completed by "
    "calling it); parameters given as numpy arrays"
)

EARLIER = (
    "class num_qubits", "base num_qubits", "matrix", "control", "wrong", "unapplied", "applied", "equality", "subclass", "name",
)


def params(h, npar, tag):
    return [h.angle(f"{tag}{i}") for i in range(npar)]


def arguments(h, npar, form):
    """Parameters as a user passes them."""
    p = params(h, npar, "p")
    if form == "single":
        return p[0]
    return tuple(p) if form == "tuple" else p


def make(h, name, pars, qubits, form):
    """Constructs the gate with the given qubits in one of the accepted forms."""
    cls = getattr(h.ops, name)
    npar, nq, nc, _ = GATES[ALIASES.get(name, name)]
    a = [pars] if npar else []
    if form == "qubits":
        return cls(*a, qubits=tuple(qubits))
    if form == "list":
        return cls(*a, qubits=list(qubits))
    if form == "register":
        return cls(*a, qubits=h.regs.QuantumRegister(qubits))
    if form == "controls":  # all but the last are controls
        return cls(*a, tuple(qubits[:-1]), tuple(qubits[-1:]))
    if form == "targets":
        return cls(*a, control=qubits[0], target=list(qubits[1:]))
    if form == "pair":
        return cls(*a, qubits[0], qubits[1])
    if form == "positional":
        return cls(*a, tuple(qubits))
    if form == "one":
        return cls(*a, qubits[0])
    raise AssertionError(form)


def earlier(h, what, name, q):
    """Some other use of a gate class; may fail, must not matter."""
    cls = getattr(h.ops, name)
    npar, nq, nc, _ = GATES[name]
    p = [[0.5] * npar] if npar else []

    def run():
        if what == "class num_qubits":
            cls.num_qubits
        elif what == "base num_qubits":
            for b in (h.base.Operation, h.base.ControlledOperation, h.base.ParametricOperation, h.base.ParametricControlledOperation):
                h.raises(lambda: b.num_qubits)
                h.raises(lambda: b.num_control)
                h.raises(lambda: b.matrix)
        elif what == "matrix":
            h.raises(lambda: cls.matrix)
            cls(*p).matrix
        elif what == "control":
            cls.num_control, cls.num_target
        elif what == "wrong":
            h.raises(lambda: cls(*p, qubits=tuple(q[: nq + 1])))
            h.raises(lambda: cls(*p, qubits=tuple(q[: nq - 1])))
        elif what == "unapplied":
            op = cls(*p)
            h.raises(lambda: op.num_qubits)
            h.raises(lambda: op.num_control)
        elif what == "applied":
            c = h.circuit.Circuit(nq)
            with c.context:
                op = cls(*p, qubits=tuple(c.qubits))
                op.num_qubits
            op.matrix
        elif what == "equality":
            cls(*p) == cls(*p)
        elif what == "subclass":
            sub = type("Sub", (cls,), {})
            h.raises(lambda: sub.num_qubits)
            h.raises(lambda: sub(*p, qubits=tuple(q[:nq])).num_qubits)
        elif what == "name":
            cls.name, cls(*p).name, repr(cls(*p))

    h.raises(run)


def count(h, gate, inside, uses):
    npar, nq, nc, _ = GATES[ALIASES.get(gate, gate)]
    c = h.circuit.Circuit(nq + 3)
    q = list(c.qubits)
    for u in range(uses):
        others = (gate if gate in GATES else ALIASES[gate], "CX", "CRX", "SWAP", "X", "Rotation")
        other = h.choice(f"other{u}", others[:1] if uses == 2 and u else others[:4:3] if uses == 2 else others)
        earlier(h, h.choice(f"use{u}", EARLIER), other, q)
    if inside and uses < 2 and h.flag("used"):
        with c.context:
            h.ops.X(q[0])
        c.unlock()
    before = list(c.circuit)
    k = h.choice("qubits", range(1, nq + 3))
    forms = ["qubits", "list", "register"]
    if nc:
        if k > 1:
            forms += ["controls", "targets"]
        if k == 2:
            forms += ["pair"]
    else:
        forms += ["positional"] + (["one"] if k == 1 else [])
    if uses:
        forms = ["controls", "qubits"] if nc and k > 1 else ["qubits"]
    form = h.choice("form", forms)
    pars, m = None, npar
    if npar:
        m = h.choice("parameters", range(0, npar + 3) if not uses else (npar, npar + 1))
        pars = arguments(h, m, h.choice("pform", ("list",) if uses else ("list", "tuple", "single") if m == 1 else ("list", "tuple")))
    good = k == nq and m == npar
    made, err = None, None
    try:
        if inside:
            with c.context:
                made = make(h, gate, pars, q[:k], form)
        else:
            made = make(h, gate, pars, q[:k], form)
    except Exception as e:
        err = e
    if good:
        h.check(err is None, f"{gate} with the right numbers: {type(err).__name__} {err}")
        h.check_same(made.qubits, q[:k], "qubits of the gate, in order")
        h.check(made.num_qubits == nq, "number of qubits of the gate")
        if npar:
            want = [pars] if not isinstance(pars, (list, tuple)) else pars
            h.check(len(made.parameters) == npar and all(h.eq(a, b) for a, b in zip(made.parameters, want)), "parameters of the gate, in order")
        h.check_same(c.circuit, before + ([made] if inside else []), "appended once")
    else:
        h.check(isinstance(err, (ValueError, TypeError)), f"{gate} with {k} qubits and {m} parameters is refused")
        h.check_same(c.circuit, before, "nothing appended")


def nothing(h, gate):
    """No qubits inside of a context; control without target."""
    npar, nq, nc, _ = GATES[gate]
    cls = getattr(h.ops, gate)
    c = h.circuit.Circuit(nq + 1)
    a = [params(h, npar, "p")] if npar else []
    how = h.choice("how", ("none", "empty", "control", "target") if nc else ("none", "empty"))

    def run():
        if how == "none":
            cls(*a)
        elif how == "empty":
            cls(*a, qubits=())
        elif how == "control":
            cls(*a, control=c.qubits[0])
        else:
            cls(*a, target=c.qubits[0])

    with c.context:
        h.check_raises("a gate without its qubits in a context", run, exc=(ValueError, TypeError))
    h.check(len(c.circuit) == 0, "nothing appended")
    if how == "none":
        op = cls(*a)
        h.check(op.qubits is None, "a gate without qubits outside of a context")


def numbers(h, gate):
    """num_qubits, num_parameters of classes and instances."""
    npar, nq, nc, _ = GATES[gate]
    cls = getattr(h.ops, gate)
    c = h.circuit.Circuit(nq)
    first = h.choice("first", ("class", "instance", "applied"))
    a = [params(h, npar, "p")] if npar else []
    for what in (first, "class", "applied", first):
        if what == "class":
            h.check(cls.num_qubits == nq, "number of qubits of the class")
        elif what == "instance":
            h.raises(lambda: cls(*a).num_qubits)
        else:
            h.check(cls(*a, qubits=tuple(c.qubits)).num_qubits == nq, "number of qubits of an instance")
    if npar:
        h.check(cls.num_parameters == npar and cls(*a).num_parameters == npar, "number of parameters")


def assign(h, gate):
    """Qubits assigned to an existing operation are counted in the same way."""
    npar, nq, nc, _ = GATES[gate]
    q = [h.prim.Qubit(f"q{i}") for i in range(2 * nq + 2)]
    a = [params(h, npar, "p")] if npar else []
    had = q[:nq] if h.flag("applied") else None
    cls = getattr(h.ops, gate)
    op = cls(*a, qubits=tuple(had)) if had else cls(*a)
    k = h.choice("qubits", range(1, nq + 3))
    new = q[nq : nq + k]
    form = h.choice("form", ("tuple", "list", "register") + (("one",) if k == 1 else ()))
    value = {"tuple": tuple, "list": list, "register": h.regs.QuantumRegister, "one": lambda x: x[0]}[form](new)
    e = h.raises(setattr, op, "qubits", value)
    if k == nq:
        h.check(e is None, f"assigning as many qubits as {gate} takes: {e!r}")
        h.check_same(op.qubits, new, "assigned qubits, in order")
        if nc:
            h.check_same(op.control, new[:nc], "controls of the assigned qubits")
            h.check_same(op.target, new[nc:], "target of the assigned qubits")
    else:
        h.check(isinstance(e, (ValueError, TypeError)), f"assigning {k} qubits to {gate} is refused")
        if had is None:
            h.check(op.qubits is None, "still without qubits")
        else:
            h.check_same(op.qubits, had, "qubits after a refused assignment")


def harnesses(tier):
    deep = tier == "thorough"
    out = []
    for g in list(GATES) + list(ALIASES):
        for inside in (False, True):
            out.append(Harness(f"count-{g}-{inside}", count, gate=g, inside=inside, uses=0))
    for g in ("CX", "CRX", "SWAP", "CSWAP", "Rotation", "X") if not deep else [x for x in GATES]:
        out.append(Harness(f"after-{g}", count, gate=g, inside=True, uses=1))
    if deep:
        for g in ("CX", "CRX"):
            out.append(Harness(f"after2-{g}", count, gate=g, inside=True, uses=2))
    for g in GATES:
        out.append(Harness(f"nothing-{g}", nothing, gate=g))
        out.append(Harness(f"numbers-{g}", numbers, gate=g))
        out.append(Harness(f"assign-{g}", assign, gate=g))
    return out
