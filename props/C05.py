"""At most one context is active, and leaving it releases it."""
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "every sequence of up to 5 steps (6 in the thorough tier; up to 3 and 4 with all three circuits) from {enter the context of any of 3 circuits (plain, empty, parametric), leave normally or "
    "by an exception of any kind, lock, unlock, reset an inactive circuit, apply an operation or a failing one}; nested with statements; up to 3 exit functions that may fail"
)
OUTSIDE = "several threads; leaving a context that is not active; resetting the active circuit"


KINDS = ("enter", "leave", "error", "hard", "lock", "unlock", "reset", "op", "bad")


class Stop(Exception):
    pass


class Hard(BaseException):
    pass


def active(h):
    return h.circuit.CircuitContext.active_context


def world(h):
    cs = [h.circuit.Circuit(2, 1), h.circuit.Circuit(), h.circuit.ParametricCircuit(1)]
    h.check(active(h) is None, "no context is active at the start")
    return cs, [False] * 3


def enter(h, cs, locked, now, i, msg):
    """Enter circuit i while `now` is active (or None); -> what is active then."""
    c = cs[i]
    before = active(h)
    if locked[i] or now is not None:
        e = h.check_raises(f"{msg}: entering a locked circuit or a second context", c.context.__enter__, exc=(h.circuit.CircuitError, RuntimeError))
        if not locked[i]:
            h.check(isinstance(e, RuntimeError), f"{msg}: kind of error")
        if now is None:
            h.check(isinstance(e, h.circuit.CircuitError), f"{msg}: kind of error")
        h.check(active(h) is before, f"{msg}: the active context stays")
        return now
    regs = c.context.__enter__()
    h.check_same(regs.q, c.qubits, f"{msg}: qubits")
    h.check_same(regs.c, c.bits, f"{msg}: bits")
    if i == 2:
        h.check(regs.p is not None and len(regs.p) == c.num_parameters, f"{msg}: parameters")
    return i


def state(h, cs, locked, now, counts, msg):
    a = active(h)
    if now is None:
        h.check(a is None, f"{msg}: no context is active")
    else:
        h.check(a is cs[now].context and a.circuit is cs[now], f"{msg}: the active context")
        h.check(cs[now].context.active_context is a, f"{msg}: the active context, read on an instance")
    for i, c in enumerate(cs):
        h.check(bool(c.is_locked()) == locked[i], f"{msg}: lock of circuit {i}")
        h.check(len(c.circuit) == counts[i], f"{msg}: operations of circuit {i}")


def sequence(h, first, n, others=3, kinds=KINDS):
    cs, locked = world(h)
    counts = [0, 0, 0]
    now = None
    for s in range(n):
        k = first if s == 0 else h.choice(f"s{s}", [x for x in kinds if now is not None or x not in ("leave", "error", "hard", "op", "bad")])
        msg = f"step {s + 1} ({k})"
        if k == "enter":
            now = enter(h, cs, locked, now, h.index(f"s{s}.which", others), msg)
        elif k in ("leave", "error", "hard"):
            e = None if k == "leave" else Stop() if k == "error" else Hard()
            r = cs[now].context.__exit__(type(e) if e else None, e, None)
            h.check(not r, f"{msg}: exceptions pass")
            locked[now], now = True, None
        elif k in ("lock", "unlock"):
            i = h.index(f"s{s}.which", others)
            cs[i].lock() if k == "lock" else cs[i].unlock()
            locked[i] = k == "lock"
        elif k == "reset":
            i = h.index(f"s{s}.which", others)
            if i == now:
                continue
            cs[i].reset()
            locked[i], counts[i] = False, 0
        elif k == "op":
            qs = cs[now].qubits
            if len(qs):
                if locked[now]:
                    h.check_raises(f"{msg}: a locked circuit", h.ops.X, qs[0], exc=h.circuit.CircuitError)
                else:
                    h.ops.X(qs[0])
                    counts[now] += 1
        else:
            h.check_raises(f"{msg}: an operation without qubits", h.ops.X)
        state(h, cs, locked, now, counts, msg)
    if now is not None:
        cs[now].context.__exit__(None, None, None)
        locked[now] = True
    # any unlocked circuit can be entered again
    i = h.index("last", others)
    cs[i].unlock()
    locked[i] = False
    now = enter(h, cs, locked, None, i, "at the end")
    h.check(now == i, "entered at the end")
    cs[i].context.__exit__(None, None, None)


def nested(h, outer, inner, where):
    """with statements, nested and left by exceptions raised anywhere."""
    cs, locked = world(h)
    kind = h.choice("kind", (Stop, Hard, KeyboardInterrupt, GeneratorExit, ValueError))
    got = None
    done = []
    try:
        with cs[outer].context as regs:
            if where == "body":
                raise kind()
            if where == "operation":
                h.ops.X(h.prim.Qubit("0"))
            with cs[inner].context:
                done.append("inner")
            done.append("after")
    except BaseException as e:
        if type(e).__module__.startswith("sx."):
            raise
        got = e
    if where == "body":
        h.check(type(got) is kind, "the exception propagates")
    else:
        h.check(isinstance(got, RuntimeError if where != "operation" else ValueError), "the error propagates")
    h.check(not done, "nothing runs after the refused context")
    h.check(active(h) is None, "no context is active")
    for i, c in enumerate(cs):
        h.check(bool(c.is_locked()) == (i == outer), f"lock of circuit {i}")
    i = h.choice("again", [j for j in range(3) if j != outer])
    with cs[i].context:
        h.check(active(h) is cs[i].context, "another context can be entered")
        e = h.raises(cs[outer].context.__enter__)
        h.check(isinstance(e, (RuntimeError, h.circuit.CircuitError)), "a second context is refused")
        h.check(active(h) is cs[i].context, "the active context stays")
    h.check(active(h) is None and cs[i].is_locked(), "released and locked")
    cs[outer].unlock()
    with cs[outer].context as regs:
        if len(regs.q):
            h.ops.X(regs.q[0])
    h.check(active(h) is None and len(cs[outer].circuit) == (1 if len(cs[outer].qubits) else 0), "used again")


def applied(h, fail):
    """Leaving a context after a parametric circuit was applied within it."""
    sub = h.circuit.ParametricCircuit(1)
    with sub.context as regs:
        h.ops.RX(regs.p[0], regs.q[0])
    c = h.circuit.Circuit(1)
    x = h.real("x", -10, 10)
    e = None
    try:
        with c.context as regs:
            sub([x], regs.q)
            if fail:
                raise Stop()
    except Stop as s:
        e = s
    h.check((e is not None) == fail, "the exception propagates")
    h.check(active(h) is None and c.is_locked(), "released and locked")
    h.check(all(v.value is None for v in sub._parameter_register), "variables are unset")
    with h.circuit.Circuit(1).context as regs:
        h.check_raises("a wrong number of values", sub, [], regs.q, exc=ValueError)
        h.check(active(h) is not None, "the context stays active")
    h.check(active(h) is None, "released")


def exit_functions(h, body):
    """Functions registered to run on leaving the context, any of which may fail."""
    c = h.circuit.ParametricCircuit(1) if h.flag("parametric") else h.circuit.Circuit(1)
    n = h.index("functions", 4)
    fails = [h.flag(f"fails{i}") for i in range(n)]
    ran, errors = [], []

    def make(i):
        def fn():
            h.check(active(h) is None, "no context is active when exit functions run")
            ran.append(i)
            if fails[i]:
                errors.append(Hard() if h.flag(f"hard{i}") else ValueError("exit function"))
                raise errors[-1]
        return fn

    got = None
    stop = Stop()
    try:
        with c.context as regs:
            for i in range(n):
                h.circuit.CircuitContext.on_exit_functions.append(make(i))
            h.ops.X(regs.q[0])
            if body:
                raise stop
    except BaseException as e:
        if type(e).__module__.startswith("sx."):
            raise
        got = e
    first = fails.index(True) if True in fails else n - 1
    h.check(ran[: first + 1] == list(range(first + 1)), "exit functions run in order")
    h.check(got is (errors[0] if errors else stop if body else None), "the error propagates")
    h.check(active(h) is None, "no context is active")
    h.check(c.is_locked(), "the circuit is locked")
    h.check_raises("entering the locked circuit", c.context.__enter__, exc=h.circuit.CircuitError)
    c.unlock()
    before = list(ran)
    with c.context as regs:
        h.check(active(h) is c.context, "entered again")
        h.ops.X(regs.q[0])
    h.check(ran == before, "exit functions run once")
    h.check(active(h) is None and c.is_locked() and len(c.circuit) == 2, "used again")


def harnesses(tier):
    n = 5 if tier == "quick" else 6
    out = []
    for k in ("enter", "lock"):
        out.append(Harness(f"sequence-{k}-3", sequence, first=k, n=3))
        out.append(Harness(f"sequence-{k}-4", sequence, first=k, n=4, others=2 if tier == "quick" else 3))
    out.append(Harness("sequence-enter-two", sequence, first="enter", n=n, others=2, kinds=("enter", "error", "unlock", "op")))
    if tier != "quick":
        out.append(Harness("sequence-enter-all", sequence, first="enter", n=5, others=2))
    for o in range(3):
        for i in range(3):
            for where in ("body", "operation", "inner"):
                out.append(Harness(f"nested-{o}{i}-{where}", nested, outer=o, inner=i, where=where))
    for f in (False, True):
        out.append(Harness(f"applied-{f}", applied, fail=f))
    for body in (False, True):
        out.append(Harness(f"exit-functions-{body}", exit_functions, body=body))
    return out
