"""Binding parameters."""
from props.gates import GATES
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "every parametric gate, custom and user-defined parametric operations, with any mixture of numbers and variables (repeated "
    "ones, with or without a value) in its parameters; circuits of up to 2 parametric operations and others, also the same operation recorded twice; conditions on up to 2 bits; any real values, "
    "0 and complex numbers included, evaluated on a copy or in place, outside or within contexts, or applied with"
)
OUTSIDE = "lists of another length than the operation's parameters, apart from missing values; values that are no numbers"
KINDS = ("RX", "RY", "RZ", "Rotation", "CRX", "CRY", "CRZ", "CRotation", "custom", "user")


def classes(h):
    sub = h.circuit.ParametricCircuit(1)
    with sub.context as regs:
        h.ops.RX(regs.p[1], regs.q[0])
        h.ops.RZ(regs.p[0], regs.q[0])

    class Mine(h.base.ParametricOperation):
        _num_qubits = 1
        _num_params = 2

    return {"custom": (2, 1, h.ops.create_operation(sub)), "user": (2, 1, Mine)}


def entry(h, kind, made):
    if kind in made:
        return made[kind]
    return GATES[kind][0], GATES[kind][1], getattr(h.ops, kind)


def value(h, tag, plain=False):
    k = "real" if plain else h.choice(tag + ".value", ("real", 0, 0.0, 1j))
    return h.real(tag, -10, 10) if k == "real" else k


def parameters(h, tag, n, new=None):
    """Any mixture of numbers and variables; -> parameters, values of variables."""
    new = new or (lambda i: h.prim.Variable(f"v{i}"))
    pars = []
    for i in range(n):
        k = h.choice(f"{tag}{i}", ("number", "variable", "repeated") if any(isinstance(p, h.prim.Variable) for p in pars) else ("number", "variable"))
        if k == "number":
            pars.append(h.real(f"{tag}{i}.x", -10, 10))
        elif k == "variable":
            pars.append(new(i))
        else:
            pars.append([p for p in pars if isinstance(p, h.prim.Variable)][0])
    return pars


def is_var(h, p):
    return isinstance(p, h.prim.Variable)


def same(h, a, b):
    """The very variable or an equal number."""
    if is_var(h, b) or is_var(h, a):
        return a is b
    return h.eq(a, b)


def check(h, op, want, msg):
    got = list(op.parameters)
    h.check(len(got) == len(want), f"{msg}: number of parameters")
    for i, (a, b) in enumerate(zip(got, want)):
        h.check(not is_var(h, a) or is_var(h, b), f"{msg}: parameter {i} is still a variable")
        h.check(same(h, a, b), f"{msg}: parameter {i}")


def operation(h, kind, how):
    """Evaluating one operation."""
    npar, nq, cls = entry(h, kind, classes(h))
    pars = parameters(h, "p", npar)
    qs = [h.prim.Qubit(str(i)) for i in range(nq)]
    op = cls(list(pars), qubits=qs) if h.flag("qubits") else cls(list(pars))
    qubits = op.qubits
    bits = [h.prim.Bit(str(i)) for i in range(h.choice("conditions", (0, 2)))]
    if bits:
        bits[0].set(1)
        op.conditional(bits)
    variables = []
    for p in pars:
        if is_var(h, p) and not any(p is v for v in variables):
            variables.append(p)
    inplace = how.endswith("inplace")
    if how.startswith("values"):
        # given values win over those of the variables
        if variables and h.flag("set"):
            variables[0].set(h.real("other", -10, 10))
        before = [v.value for v in variables]
        vals = [value(h, f"x{i}", npar > 1) for i in range(npar)]
        want = [vals[i] if is_var(h, p) else p for i, p in enumerate(pars)]
        new = op.eval(list(vals), inplace=True) if inplace else op.eval(list(vals))
    else:
        before = []
        for i, v in enumerate(variables):
            x = value(h, f"x{i}", npar > 1) if h.flag(f"set{i}") else None
            if x is not None:
                v.set(x)
            before.append(x)
        if any(x is None for x in before):
            if h.flag("short"):
                # too few values
                first = [i for i, p in enumerate(pars) if is_var(h, p)][-1]
                h.check_raises("too few values", op.eval, [0.5] * first, inplace=inplace)
            else:
                h.check_raises("a variable without value", op.eval, inplace=inplace, exc=ValueError)
            check(h, op, pars, "refused evaluation")
            return
        val = lambda p: [x for v, x in zip(variables, before) if v is p][0]
        want = [val(p) if is_var(h, p) else p for p in pars]
        new = op.eval(inplace=True) if inplace else op.eval()
    check(h, new, want, "evaluated operation")
    h.check(type(new) is type(op), "kind of the evaluated operation")
    for v, x in zip(variables, before):
        h.check(v.value is None if x is None else h.eq(v.value, x), "variables keep their values")
    if inplace:
        h.check(new is op, "in place")
    else:
        h.check(new is not op, "a copy")
        check(h, op, pars, "original operation")
        h.check((new.qubits is None) == (qubits is None) and (qubits is None or new.qubits == qubits), "qubits of the evaluated operation")
    h.check(op.qubits is qubits, "qubits")
    h.check_same(op._cond or [], bits, "conditions")
    h.check_same(new._cond or [], bits, "conditions of the evaluated operation")
    # once evaluated, further values change nothing
    again = new.eval([7] * npar)
    check(h, again, want, "evaluated again")
    for v in variables:
        v.set(3)
    check(h, new, want, "after the variables change")


def circuit(h, kinds, how):
    """Evaluating a circuit."""
    made = classes(h)
    c = h.circuit.ParametricCircuit(2, 2)
    specs, conds = [], []

    def condition(op, i):
        k = h.choice(f"cond{i}", ((), (1,), (1, 0)) if i == last else ((), (0,)))
        if k:
            op.conditional([c.bits[j] for j in k])
        conds.append(list(k))

    last = len(kinds) - 1
    with c.context as regs:
        for i, k in enumerate(kinds):
            if k == "X":
                condition(h.ops.X(regs.q[0]), i)
                specs.append(None)
            elif k == "M":
                h.ops.Measurement(regs.q[0]) | regs.c[1]
                conds.append([])
                specs.append(None)
            else:
                npar, nq, cls = entry(h, k, made)
                used = []

                def new(j):
                    used.append(j)
                    return regs.p[h.choice(f"p{i}{j}.which", (0, 1))]

                pars = parameters(h, f"p{i}", npar, new)
                condition(cls(list(pars), qubits=list(regs.q)[:nq]), i)
                specs.append(pars)
    vs = list(c._parameter_register)
    ops = list(c.circuit)
    inplace = how.endswith("inplace")
    if how.startswith("values"):
        vals = [[h.real(f"x{i}{j}", -10, 10) for j in range(len(s or []))] for i, s in enumerate(specs)]
        if vs and h.flag("set"):
            vs[0].set(h.real("other", -10, 10))
        want = [None if s is None else [vals[i][j] if is_var(h, p) else p for j, p in enumerate(s)] for i, s in enumerate(specs)]
        e = c.eval(vals, inplace=True) if inplace else c.eval(vals)
    else:
        xs = []
        for i, v in enumerate(vs):
            x = None if not h.flag(f"set{i}") else 0 if h.flag(f"zero{i}") else h.real(f"x{i}", -10, 10)
            if x is not None:
                v.set(x)
            xs.append(x)
        val = lambda p: [x for v, x in zip(vs, xs) if v is p][0]
        want = [None if s is None else [val(p) if is_var(h, p) else p for p in s] for s in specs]
        if any(x is None for s in want if s for x in s):
            h.check_raises("a variable without value", c.eval, exc=ValueError)
            h.check_same(c.circuit, ops, "operations after a refused evaluation")
            for op, s in zip(ops, specs):
                if s is not None:
                    check(h, op, s, "after a refused evaluation")
            return
        e = c.eval(inplace=True) if inplace else c.eval()
    h.check((e is c) == inplace, "in place or a copy")
    h.check(type(e) is type(c) and len(e.circuit) == len(specs), "kind and length of the circuit")
    for i, (op, w) in enumerate(zip(e.circuit, want)):
        h.check(type(op) is type(ops[i]), f"kind of operation {i}")
        h.check(op.qubits == ops[i].qubits, f"qubits of operation {i}")
        h.check(all(a is b for a, b in zip(op.qubits, [e.qubits[c.qubits.index(q)] for q in ops[i].qubits])), f"operation {i} acts on the qubits of its circuit")
        h.check_same(op._cond or [], [e.bits[j] for j in conds[i]], f"operation {i} depends on the bits of its circuit")
        if kinds[i] == "M":
            h.check_same(op.bits, [e.bits[1]], f"operation {i} measures into the bits of its circuit")
        if w is not None:
            check(h, op, w, f"operation {i}")
    if not inplace:
        h.check_same(c.circuit, ops, "original operations")
        for op, s in zip(ops, specs):
            if s is not None:
                check(h, op, s, "original circuit")
        h.check(all(a is not b for a, b in zip(e.circuit, ops)), "operations of the copy are others")


def again(h, kind, how):
    """The same operation recorded twice is evaluated with its own values each time."""
    npar, nq, cls = entry(h, kind, classes(h))
    c = h.circuit.ParametricCircuit(2)
    with c.context as regs:
        pars = parameters(h, "p", npar, lambda j: regs.p[h.choice(f"p{j}.which", (0, 1))])
        op = cls(list(pars), qubits=list(regs.q)[:nq])
        between = h.flag("between")
        if between:
            h.ops.X(regs.q[1])
    c.unlock()
    c.append(op)
    ops = list(c.circuit)
    vs = list(c._parameter_register)
    if how == "values":
        vals = [[h.real(f"x{i}{j}", -10, 10) for j in range(npar)] for i in range(2)]
        want = [[x if is_var(h, p) else p for x, p in zip(v, pars)] for v in vals]
        e = c.eval([vals[0]] + ([[]] if between else []) + [vals[1]])
    else:
        xs = [h.real(f"x{i}", -10, 10) for i in range(len(vs))]
        for v, x in zip(vs, xs):
            v.set(x)
        want = [[[x for v, x in zip(vs, xs) if v is p][0] if is_var(h, p) else p for p in pars]] * 2
        e = c.eval()
    got = list(e.circuit)
    h.check(len(got) == len(ops), "number of operations")
    for o, w in zip((got[0], got[-1]), want):
        check(h, o, w, "an operation recorded twice")
        h.check_same(o.qubits, list(e.qubits)[:nq], "qubits of an operation recorded twice")
    h.check_same(c.circuit, ops, "original operations")
    check(h, op, pars, "original operation")


def apply(h, kinds, outer):
    """Applying a parametric circuit with a list of values."""
    made = classes(h)
    c = h.circuit.ParametricCircuit(2)
    specs = []
    with c.context as regs:
        for i, k in enumerate(kinds):
            npar, nq, cls = entry(h, k, made)
            pars = parameters(h, f"p{i}", npar, lambda j: regs.p[h.choice(f"p{i}{j}.which", (0, 1))])
            cls(list(pars), qubits=list(regs.q)[:nq])
            specs.append(pars)
    vs = list(c._parameter_register)
    o = getattr(h.circuit, outer)(2)
    xs = [value(h, f"x{i}", i > 0) for i in range(len(vs))]
    with o.context as regs:
        if vs:
            h.check_raises("a wrong number of values", c, xs[1:], regs.q, exc=ValueError)
        h.check_raises("a wrong number of values", c, xs + [1], regs.q, exc=ValueError)
        h.check(not o.circuit, "nothing applied")
        c(h.choice("sequence", (list, tuple))(xs), regs.q)
    val = lambda p: [x for v, x in zip(vs, xs) if v is p][0]
    h.check(len(o.circuit) == len(specs), "number of operations")
    for i, (op, s) in enumerate(zip(o.circuit, specs)):
        check(h, op, [val(p) if is_var(h, p) else p for p in s], f"applied operation {i}")
        check(h, c.circuit[i], s, f"operation {i} of the applied circuit")
        h.check_same(op.qubits, list(o.qubits)[: len(op.qubits)], f"qubits of operation {i}")


def plain(h, kind, how):
    """Circuits without parameters take operations with variables only by their values."""
    npar, nq, cls = entry(h, kind, classes(h))
    pars = parameters(h, "p", npar)
    variables = []
    for p in pars:
        if is_var(h, p) and not any(p is v for v in variables):
            variables.append(p)
    xs = []
    for i, v in enumerate(variables):
        x = value(h, f"x{i}", npar > 1) if h.flag(f"set{i}") else None
        if x is not None:
            v.set(x)
        xs.append(x)
    c = h.circuit.Circuit(2)
    val = lambda p: [x for v, x in zip(variables, xs) if v is p][0]
    want = [val(p) if is_var(h, p) else p for p in pars]
    q = list(c.qubits)[:nq]
    if how == "append":
        op = cls(list(pars), qubits=q)
        call = lambda: c.append(op)
        missing = any(x is None for x in want)
        if missing:
            h.check_raises("a variable without value", call, exc=ValueError)
        else:
            call()
    else:
        missing = any(x is None for x in want)
        with c.context:
            call = lambda: cls(list(pars), qubits=q)
            if missing:
                h.check_raises("a variable without value", call, exc=ValueError)
            else:
                call()
    h.check(len(c.circuit) == (0 if missing else 1), "number of operations")
    if not missing:
        check(h, c.circuit[0], want, "recorded operation")
        for v in variables:
            v.set(5)
        check(h, c.circuit[0], want, "after the variables change")


def harnesses(tier):
    big = tier != "quick"
    out = []
    for k in KINDS:
        for how in ("values", "values-inplace", "variables", "variables-inplace"):
            out.append(Harness(f"op-{k}-{how}", operation, kind=k, how=how))
        for how in ("values", "variables"):
            out.append(Harness(f"again-{k}-{how}", again, kind=k, how=how))
        for how in ("append", "context"):
            out.append(Harness(f"plain-{k}-{how}", plain, kind=k, how=how))
        for o in ("Circuit", "ParametricCircuit"):
            out.append(Harness(f"apply-{k}-{o}", apply, kinds=(k,), outer=o))
    for ks in (("RX", "CRY"), ("RZ", "custom")) + ((("Rotation", "RX"), ("user", "CRotation")) if big else ()):
        out.append(Harness(f"apply-{'-'.join(ks)}", apply, kinds=ks, outer="Circuit"))
    for ks in (("X", "RX", "M", "CRZ"), ("CRotation", "X"), ("custom", "RX"), ("Rotation",), ("X",), ()):
        for how in ("values", "values-inplace", "variables", "variables-inplace"):
            out.append(Harness(f"circuit-{'-'.join(ks)}-{how}", circuit, kinds=ks, how=how))
    return out
