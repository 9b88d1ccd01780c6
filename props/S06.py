"""Sampling and expectation values of simulated measurements."""
from props.circ import Tree
from sx.api import Harness

KERNELS = True
PRELOAD = ("dwave.gate.simulator.simulator", "dwave.gate.operations")
BOUNDS = (
    "any state of 1 or 2 qubits (any state with real amplitudes or any product state of 3), any random draws in [0, 1); "
    "1 to 3 requested qubits in any order (repeated ones included), 1 or 2 samples (3 in the thorough tier); gates and "
    "further measurements after the measurement; both simulation methods"
)
OUTSIDE = "larger circuits and more samples; the quality of the random generator"


def snap(h, c, ms, mixed):
    return (
        h.tolist(c.density_matrix if mixed else c.state),
        [x.value for x in c.bits],
        list(c.circuit),
        [list(op.qubits) for op in c.circuit],
        [list(m.bits) if m.bits else None for m in ms],
        [h.tolist(m.state) for m in ms],
    )


def unchanged(h, c, ms, mixed, old, msg):
    new = snap(h, c, ms, mixed)
    h.check_matrix(new[0], old[0], f"{msg}: stored state")
    h.check(new[1] == old[1], f"{msg}: bits")
    h.check_same(new[2], old[2], f"{msg}: operations")
    for i in (3, 4):
        h.check(all((a is b) or (len(a) == len(b) and all(x is y for x, y in zip(a, b))) for a, b in zip(new[i], old[i])), f"{msg}: qubits and bits")
    for a, b in zip(new[5], old[5]):
        h.check_matrix(a, b, f"{msg}: measured state")


def drawn(h, p0, samples, draws, start, k, msg):
    """samples are the outcomes of the draws, each run starting afresh."""
    i = start
    for s in samples:
        for j in range(k):
            low = draws[i] < p0(s, j)
            h.check(low if s[j] == 0 else h.not_(low), f"{msg} follow the Born rule")
            i += 1
    h.check(len(draws) == i, f"{msg}: one draw per qubit and sample")


def entangled(h, n, k, ask, times, mixed, phases, how):
    """Sample a measurement of k of n qubits; `ask` requested qubits (None: the default)."""
    draws = h.script_rng()
    order = h.perm("order", range(n), n)
    c = h.circuit.Circuit(n, k)
    q = c.qubits
    with c.context:
        t = Tree(h, q, order, phases)
        m = h.ops.Measurement(tuple(q[i] for i in order[:k])) | c.bits
        h.ops.Y(q[order[0]])
    h.check_raises("sampling before simulation", lambda: m.sample(), exc=h.circuit.CircuitError)
    h.check_raises("expectation before simulation", lambda: m.expval(), exc=h.circuit.CircuitError)
    h.sim.simulate(c, mixed_state=mixed)
    if h.flag("again"):
        h.sim.simulate(c, mixed_state=mixed)
    start = len(draws)
    old = snap(h, c, [m], mixed)
    qubits = None if ask is None else order[:ask]
    kk = k if ask is None else ask
    if how == "expval":
        e = m.expval(qubits, num_samples=times) if ask else m.expval(num_samples=times)
        samples = []
        i = start
        for _ in range(times):
            s = []
            for j in range(kk):
                s.append(0 if draws[i] < t.p0(s) else 1)
                i += 1
            samples.append(s)
        h.check(len(draws) == i, "one draw per qubit and sample")
        h.check(len(e) == kk, "one expectation value per qubit")
        for j in range(kk):
            h.check_close(e[j], sum(s[j] for s in samples) / times, f"expectation value of qubit {j}")
    else:
        text = how == "text"
        r = m.sample(qubits, times, text) if how != "default" else m.sample(qubits)
        times = times if how != "default" else 1
        h.check(isinstance(r, list) and len(r) == times, "number of samples")
        if text:
            h.check(all(isinstance(s, str) for s in r), "bitstrings")
            r = [[int(x) for x in s] for s in r]
        h.check(all(isinstance(s, list) and len(s) == kk for s in r), "one entry per requested qubit")
        h.check(all(isinstance(x, int) and x in (0, 1) for s in r for x in s), "samples are 0 or 1")
        drawn(h, lambda s, j: t.p0(s[:j]), r, draws, start, kk, "samples")
    unchanged(h, c, [m], mixed, old, "after sampling")


def product(h, n, mixed, k):
    """Any requested qubits, measured or not, in any order, with repetitions."""
    draws = h.script_rng()
    c = h.circuit.Circuit(n, 1)
    q = c.qubits
    p = []
    with c.context:
        for i in range(n):
            t = h.angle(f"t{i}") / 2
            h.assume(h.cos(t) >= 0)
            h.assume(h.sin(t) >= 0)
            p.append(h.cos(t) ** 2)
            h.user_gate(h.array([[h.cos(t), -1 * h.sin(t)], [h.sin(t), h.cos(t)]]))(q[i])
        m = h.ops.Measurement(q[h.index("m", n)]) | c.bits
    h.sim.simulate(c, mixed_state=mixed)
    start = len(draws)
    old = snap(h, c, [m], mixed)
    ask = [h.index(f"ask{i}", n) for i in range(k)]
    r = m.sample(ask)

    def p0(s, j):
        if ask[j] in ask[:j]:
            return 1 - s[ask.index(ask[j])]
        return p[ask[j]]

    h.check(len(r) == 1 and len(r[0]) == k, "one entry per requested qubit")
    drawn(h, p0, r, draws, start, k, "samples")
    unchanged(h, c, [m], mixed, old, "after sampling")


def two(h, mixed):
    """Two measurements of one circuit keep their own states."""
    draws = h.script_rng()
    c = h.circuit.Circuit(2, 2)
    q = c.qubits
    with c.context:
        t = Tree(h, q, [1, 0], False)
        a = h.ops.Measurement(q[1]) | c.bits[1]
        b = h.ops.Measurement(q[0]) | c.bits[0]
    h.sim.simulate(c, mixed_state=mixed)
    out = c.bits[1].value
    old = snap(h, c, [a, b], mixed)
    start = len(draws)
    if h.flag("order"):
        (r,), (s,) = a.sample(), b.sample()
        i, j = start, start + 1
    else:
        (s,), (r,) = b.sample(), a.sample()
        i, j = start + 1, start
    h.check(len(r) == 1 and len(s) == 1, "one entry per measured qubit")
    t.check_draw(r, 0, draws[i], "samples of the first measurement")
    t.check_draw([out, s[0]], 1, draws[j], "samples of the second measurement, after the first collapsed the state")
    unchanged(h, c, [a, b], mixed, old, "after sampling")


def same_op(h, mixed):
    """Repeated simulations: the shape is that of the measured qubits, the state the latest one."""
    draws = h.script_rng()
    c = h.circuit.Circuit(2, 2)
    q = c.qubits
    with c.context:
        t = Tree(h, q, [1, 0], False)
        m = h.ops.Measurement((q[1], q[0])) | c.bits
    for i in range(3):
        h.sim.simulate(c, mixed_state=mixed if i != 1 else not mixed)
    start = len(draws)
    r = m.sample(num_samples=1)
    h.check(len(r) == 1 and len(r[0]) == 2, "one entry per measured qubit after simulating again")
    drawn(h, lambda s, j: t.p0(s[:j]), r, draws, start, 2, "samples")


def changed(h, n, mixed, how):
    """Samples are drawn from the latest simulation after the circuit was changed."""
    draws = h.script_rng()
    c = h.circuit.Circuit(n, 1)
    q = c.qubits
    t, u = h.angle("t") / 2, h.angle("u") / 2
    for x in (t, u):
        h.assume(h.cos(x) >= 0)
        h.assume(h.sin(x) >= 0)
    gate = lambda x: h.user_gate(h.array([[h.cos(x), -1 * h.sin(x)], [h.sin(x), h.cos(x)]]))
    with c.context:
        gate(t)(q[0])
        m = h.ops.Measurement(q[0]) | c.bits
    h.sim.simulate(c, mixed_state=mixed)
    new = gate(u)(q[0])
    if how == "replace":
        c.circuit[0] = new
    elif how == "edit":
        m = h.ops.Measurement(q[0]) | c.bits
        c.remove(c.circuit[1])
        c.remove(c.circuit[0])
        c.unlock()
        c.extend([new, m])
    else:
        old = m
        c.unlock()
        c.reset()
        with c.context:
            gate(u)(q[0])
            c.append(old)
    h.sim.simulate(c, mixed_state=mixed)
    start = len(draws)
    drawn(h, lambda s, j: h.cos(u) ** 2, m.sample(num_samples=1), draws, start, 1, "samples after changing the circuit")


def refused(h, n, mixed):
    """Qubits outside the circuit cannot be sampled."""
    h.script_rng()
    c = h.circuit.Circuit(n, 1)
    with c.context:
        m = h.ops.Measurement(c.qubits[0]) | c.bits
    h.sim.simulate(c, mixed_state=mixed)
    bad = h.int("bad", -3 * n, 3 * n)
    h.assume(h.any_of([bad < 0, bad >= n]))
    ask = [bad] if h.flag("only") else [0, bad]
    old = snap(h, c, [m], mixed)
    h.check_raises("qubit outside the circuit", lambda: m.sample(ask), exc=ValueError)
    h.check_raises("qubit outside the circuit", lambda: m.expval(ask), exc=ValueError)
    unchanged(h, c, [m], mixed, old, "after a refused request")


def harnesses(tier):
    deep = tier == "thorough"
    out = []

    def add(n, k, ask, times, mixed, phases, how):
        name = f"{how}-{n}-{k}-{ask}-{times}-{mixed}"
        out.append(Harness(name, entangled, n=n, k=k, ask=ask, times=times, mixed=mixed, phases=phases, how=how))

    for mixed in (False, True):
        for how in ("list", "text", "expval", "default"):
            add(1, 1, None, 2, mixed, True, how)
        add(2, 1, 0, 2, mixed, False, "text" if mixed else "list")
        add(2, 2, None, 1, mixed, False, "list")
        add(2, 1, 2, 1, mixed, False, "text")
        add(2, 2, 1, 1, mixed, False, "expval")
        add(2, 1, None, 2, mixed, False, "expval")
        out.append(Harness(f"two-{mixed}", two, mixed=mixed))
        out.append(Harness(f"resimulate-{mixed}", same_op, mixed=mixed))
        for n in (1, 2):
            out.append(Harness(f"refused-{n}-{mixed}", refused, n=n, mixed=mixed))
        for k in (1, 2, 3) if deep else (1, 2):
            out.append(Harness(f"product-2-{k}-{mixed}", product, n=2, k=k, mixed=mixed))
    for how in ("replace", "edit", "reset"):
        out.append(Harness(f"changed-{how}", changed, n=1, mixed=False, how=how))
        if deep:
            out.append(Harness(f"changed-{how}-mixed", changed, n=2, mixed=True, how=how))
    if deep:
        for how in ("list", "text", "expval", "default"):
            for mixed in (False, True):
                add(2, 2, None, 2, mixed, False, how)
                add(1, 1, 1, 3, mixed, True, how)
        add(2, 2, None, 1, True, True, "list")
        add(3, 2, None, 1, False, False, "list")
        out.append(Harness("product-3-2", product, n=3, k=2, mixed=False))
    return out
