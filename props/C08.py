"""The parameter variables of parametric circuits."""
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations", "dwave.gate.registers.registers")
BOUNDS = (
    "up to 4 requests (5 in the thorough tier) of any index from 0 to 3 (4; for one request 4) or of present ones counted from the end, over one or two contexts, left normally or by an error, with slices and "
    "readings in between; applications with any values, once or repeatedly, within contexts that are left normally or by an error; resets"
)
OUTSIDE = "larger indices; registers changed directly"


def agree(h, c, reg, vs, msg):
    n = len(vs)
    h.check(len(reg) == n and c.num_parameters == n, f"{msg}: number of parameters")
    h.check(bool(c.parametric) == (n > 0), f"{msg}: parametric")
    h.check_same(list(reg), vs, f"{msg}: variables in order")
    for i, v in enumerate(vs):
        h.check(isinstance(v, h.prim.Variable), f"{msg}: kind of parameter {i}")
        h.check(all(v is not w and v != w for w in vs[:i]), f"{msg}: parameter {i} is another")
    h.check_same(reg[:], vs, f"{msg}: slice of all")


def unset(h, vs, msg):
    for i, v in enumerate(vs):
        h.check(v.value is None, f"{msg}: variable {i} is unset")


def request(h, reg, vs, tag, top, after_end=True):
    """Request any index; creates exactly the missing variables."""
    n = len(vs)
    i = h.int(tag, -n - 1, top if after_end else max(n - 1, 0))
    k = 0
    if bool(i < -n):
        h.check_raises(f"{tag}: before the first parameter", lambda: reg[i], exc=IndexError)
        h.check(len(reg) == n, f"{tag}: refused requests create nothing")
        return
    v = reg[i]
    if bool(i < 0):
        want = [j for j in range(-n, 0) if bool(i == j)][0]
        h.check(v is vs[want], f"{tag}: parameter {want}")
        return
    for k in range(top + 1):
        if bool(i == k):
            break
    if k < n:
        h.check(v is vs[k], f"{tag}: parameter {k} again")
        return
    h.check(len(reg) == k + 1, f"{tag}: exactly the missing variables")
    new = list(reg)[n:]
    h.check(new[-1] is v, f"{tag}: the last one is returned")
    vs.extend(new)


class Left(Exception):
    pass


def leave(h, c, how, body):
    """Runs the body in the context of the circuit, and leaves it normally or by an error."""
    if not how:
        with c.context as regs:
            body(regs)
        return regs
    try:
        with c.context as regs:
            body(regs)
            raise Left()
    except Left:
        pass
    return regs


def requests(h, n, top, between, error=False):
    c = h.circuit.ParametricCircuit(1)
    vs = []
    for ctx in range(2):
        def body(regs):
            for s in range(n if ctx == 0 else 1):
                request(h, regs.p, vs, f"i{ctx}{s}", top)
                if between:
                    agree(h, c, regs.p, vs, f"after request {s}")
            if vs:
                j = h.index("use", len(vs)) if ctx == 0 and n < 3 else len(vs) - 1
                op = h.ops.RZ(regs.p[j], regs.q[0])
                h.check(op.parameters[0] is vs[j], "the operation has the variable")

        p = leave(h, c, error, body).p
        agree(h, c, p, vs, "after the context")
        unset(h, vs, "after the context")
        # the number is fixed
        k = h.choice("beyond", (len(vs), len(vs) + 1, -len(vs) - 1)) if ctx == 0 and n < 3 else len(vs)
        h.check_raises("a parameter beyond the last, after the context", lambda: p[k], exc=IndexError)
        agree(h, c, p, vs, "after a refused request")
        for i in range(len(vs)):
            h.check(p[i] is vs[i] and p[i - len(vs)] is vs[i], "parameters stay available")
        c.unlock()
    agree(h, c, p, vs, "after unlocking")


def applications(h, k, fail, times):
    """Variables are unset after the circuit was applied."""
    c = h.circuit.ParametricCircuit(1)
    with c.context as regs:
        vs = [regs.p[i] for i in range(k)]
        for i in range(k):
            h.ops.RX(vs[i], regs.q[0])
        h.ops.RY(vs[0], regs.q[0])
    p = regs.p
    values = []
    outer = h.circuit.ParametricCircuit(2) if h.flag("parametric") else h.circuit.Circuit(2)

    class Stop(Exception):
        pass

    stopped = False
    try:
        with outer.context as r:
            for t in range(times):
                x = [0 if h.flag(f"zero{t}{i}") else h.real(f"x{t}{i}", -10, 10) for i in range(k)]
                if h.flag(f"wrong{t}"):
                    bad = x[1:] if h.flag("fewer") else x + [1]
                    h.check_raises("wrong number of values", c, bad, r.q[0], exc=ValueError)
                c(x, r.q[t % 2])
                values.append(x)
                if fail == "raise":
                    raise Stop()
                if fail == "refused":
                    h.check_raises("foreign qubit", c, x, h.prim.Qubit("f"), exc=ValueError)
    except Stop:
        stopped = True
    h.check(stopped == (fail == "raise"), "exceptions propagate")
    unset(h, vs, "after the application")
    agree(h, c, p, vs, "after the application")
    ops = list(outer.circuit)
    h.check(len(ops) == (k + 1) * len(values), "operations of the applications")
    for t, x in enumerate(values):
        for i, w in enumerate(x + [x[0]]):
            h.check(h.eq(ops[t * (k + 1) + i].parameters[0], w), f"value {i} of application {t}")
    for i, op in enumerate(list(c.circuit)):
        h.check(op.parameters[0] is (vs + [vs[0]])[i], "the circuit keeps its variables")


def outside(h):
    """Applications outside of contexts are refused and set nothing."""
    c = h.circuit.ParametricCircuit(1)
    with c.context as regs:
        h.ops.RX(regs.p[1], regs.q[0])
        v = list(regs.p)
    q = h.circuit.Circuit(1).qubits
    x = [h.real("a", -10, 10), h.real("b", -10, 10)]
    h.check_raises("outside of contexts", c, x, q, exc=h.circuit.CircuitError)
    unset(h, v, "after a refused application")
    agree(h, c, regs.p, v, "after a refused application")
    # nor is anything left to be done when some other context ends
    if h.flag("set later"):
        y = h.real("y", -10, 10)
        v[h.choice("k", (0, 1))].set(y)
        have = [w.value for w in v]
        o = h.circuit.Circuit(1) if h.flag("plain") else h.circuit.ParametricCircuit(1)
        with o.context as r:
            h.ops.X(r.q[0])
        for w, t in zip(v, have):
            h.check(w.value is None if t is None else w.value is not None and h.eq(w.value, t), "variables after another context")


def resets(h):
    """Resets keep or drop the parameters."""
    c = h.circuit.ParametricCircuit(1)
    with c.context as regs:
        k = h.choice("k", (1, 2, 3))
        vs = [regs.p[i] for i in range(k)]
    if h.flag("set"):
        vs[0].set(h.real("x", -5, 5))
    keep = h.flag("keep")
    c.reset(keep_registers=keep)
    h.check(not c.is_locked(), "unlocked")
    if keep:
        with c.context as regs:
            agree(h, c, regs.p, vs, "after a reset")
            unset(h, vs, "after a reset")
            i = h.int("i", 0, 3)
            request(h, regs.p, vs, "i2", 3)
            agree(h, c, regs.p, vs, "after a reset and a request")
    else:
        h.check(c.num_parameters == 0 and not c.parametric, "no parameters")
        c.add_qubit()
        with c.context as regs:
            h.check(len(regs.p) == 0, "no parameters")
            new = []
            request(h, regs.p, new, "i2", 3)
            agree(h, c, regs.p, new, "after a reset and a request")
            h.check(all(a is not b for a in new for b in vs), "new variables")


def two(h):
    """Circuits do not share parameters, and may be applied within each other."""
    a, b = h.circuit.ParametricCircuit(1), h.circuit.ParametricCircuit(1)
    with a.context as ra:
        h.ops.RX(ra.p[0], ra.q[0])
        h.ops.RX(ra.p[1], ra.q[0])
    va = list(ra.p)
    with b.context as rb:
        i, j = h.choice("i", (0, 1, 2)), h.choice("j", (0, 1, 2))
        x = rb.p[i]
        y = rb.p[j] if h.flag("variable") else h.real("y", -5, 5)
        a([x, y], rb.q)
        n = len(rb.p)
    vb = list(rb.p)
    h.check(all(v is not w for v in va for w in vb), "own variables")
    agree(h, a, ra.p, va, "applied circuit")
    agree(h, b, rb.p, vb, "outer circuit")
    h.check(b.num_parameters == n, "number of parameters of the outer circuit")
    unset(h, va + vb, "after the contexts")
    h.check(b.circuit[0].parameters[0] is x, "first parameter of the outer circuit")
    h.check(b.circuit[1].parameters[0] is y or h.eq(b.circuit[1].parameters[0], y), "second parameter of the outer circuit")
    c = h.circuit.Circuit(1)
    vals = [h.real(f"v{t}", -5, 5) for t in range(len(vb))]
    with c.context as rc:
        b(vals, rc.q)
    unset(h, va + vb, "after the outermost context")
    h.check(h.eq(c.circuit[0].parameters[0], vals[i]), "value of the first parameter")
    w = vals[j] if y in vb else y
    h.check(h.eq(c.circuit[1].parameters[0], w), "value of the second parameter")


def several(h, n):
    """Several circuits applied in one context, each any number of times and in any order."""
    cs, vs = [], []
    for t in range(2):
        c = h.circuit.ParametricCircuit(1)
        with c.context as regs:
            vs.append([regs.p[i] for i in range(t + 1)])
            for v in vs[t]:
                h.ops.RX(v, regs.q[0])
        cs.append(c)
    shared = h.prim.Variable("own") if h.flag("set before") else None
    if shared is not None:
        shared.set(h.real("own value", -5, 5))
    for ctx in range(2):
        outer = h.circuit.ParametricCircuit(1) if h.flag(f"parametric{ctx}") else h.circuit.Circuit(1)
        values, stop = [], h.flag(f"left by an error{ctx}")
        try:
            with outer.context as r:
                for s in range(n if ctx == 0 else 1):
                    t = h.choice(f"circuit{ctx}{s}", (0, 1))
                    x = [h.real(f"x{ctx}{s}{i}", -10, 10) for i in range(t + 1)]
                    cs[t](x, r.q)
                    values += x
                if stop:
                    raise Left()
        except Left:
            pass
        for t in range(2):
            unset(h, vs[t], f"circuit {t} after context {ctx}")
        h.check(len(outer.circuit) == len(values), f"operations of context {ctx}")
        for i, (op, x) in enumerate(zip(outer.circuit, values)):
            h.check(h.eq(op.parameters[0], x), f"value {i} of context {ctx}")
        h.check(outer.num_parameters == 0, "parameters of the outer circuit")
    if shared is not None:
        h.check(shared.value is not None, "variables of no circuit keep their values")


def harnesses(tier):
    big = tier != "quick"
    out = []
    for n in (1, 2, 3) + ((4,) if big else ()):
        for b in (False, True) if n < 3 or big else (False,):
            out.append(Harness(f"requests-{n}-{b}", requests, n=n, top=4 if n < 2 or n < 3 and big else 3, between=b))
        if n < 3 or big:
            out.append(Harness(f"requests-{n}-left", requests, n=n, top=4 if n < 2 or big else 2, between=False, error=True))
    for k in (1, 2, 3):
        for fail in ("", "raise", "refused"):
            for t in (1, 2) if k < 3 or big else (1,):
                out.append(Harness(f"applied-{k}-{fail}-{t}", applications, k=k, fail=fail, times=t))
    out += [Harness("outside", outside), Harness("resets", resets), Harness("two", two)]
    out += [Harness(f"several-{n}", several, n=n) for n in (2, 3) + ((4,) if big else ())]
    return out
