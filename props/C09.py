"""The states a circuit accepts and stores."""
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit",)
BOUNDS = (
    "circuits of 0 to 2 qubits (3 in the thorough tier) and any vector or matrix of the right shape with complex entries (three "
    "of them arbitrary for 2 qubits and more, the rest fixed non-zero numbers), or any array of up to three dimensions of a wrong "
    "shape; up to two settings, with or without force and normalization, and a reset in between"
)
OUTSIDE = (
    "norms and traces that differ from one by less than a thousandth without being one (up to rounding); entries that are "
    "infinite or not numbers; circuits whose qubits change after a state is set; positivity of density matrices, which is not required"
)


def data(h, tag, shape, free=3):
    """An array of that shape: `free` arbitrary entries (the diagonal of a square matrix first), the others fixed."""
    import itertools

    idx = list(itertools.product(*(range(s) for s in shape)))
    if len(shape) == 2:
        idx.sort(key=lambda t: (t[0] != t[1], t))
    val = {}
    for k, t in enumerate(idx):
        if k < free:
            val[t] = h.cplx(f"{tag}{k}", 3)
        else:
            val[t] = (0.25 if len(shape) == 2 and t[0] == t[1] else 0.125) * (1j if k % 2 and not (len(shape) == 2 and t[0] == t[1]) else 1)

    def build(pre):
        d = len(pre)
        if d == len(shape):
            return val[pre]
        return [build(pre + (i,)) for i in range(shape[d])]

    return build(())


def size2(h, rows):
    """Squared norm of a vector or trace of a matrix, with 0j for the unit test."""
    if rows and isinstance(rows[0], list):
        s = 0
        for i in range(len(rows)):
            s = s + rows[i][i]
        return s
    s = 0
    for x in rows:
        s = s + h.abs2(x)
    return s


def clear(h, rows):
    """The norm or trace is one or clearly different from it; and zero or clearly different from it."""
    s = size2(h, rows)
    if rows and isinstance(rows[0], list):
        d, z = h.abs2(s - 1), h.abs2(s)
        one = h.eq(s, 1)
    else:
        d, z = (s - 1) * (s - 1), s
        one = h.eq(s, 1)
    zero = h.eq(s, 0)
    h.assume(h.any_of([one, d >= 1e-6]))
    h.assume(h.any_of([zero, z >= 1e-4]))
    return one, zero


def read(h, c):
    """What the circuit gives back: nothing, a vector or a matrix."""
    if c.density_matrix is None:
        h.check(c.state is None, "no state")
        return None
    try:
        s = c.state
    except h.circuit.CircuitError:
        return ("mixed", h.tolist(c.density_matrix))
    h.check(s is not None, "a pure state is read back")
    return ("pure", h.tolist(s))


def same(h, c, want, msg):
    got = read(h, c)
    if want is None:
        return h.check(got is None, f"{msg}: no state is set")
    kind, rows = want
    h.check(got is not None and got[0] == kind, f"{msg}: kind of state")
    if kind == "pure":
        h.check_matrix([got[1]], [rows], f"{msg}: state")
        h.check_matrix(
            h.tolist(c.density_matrix), [[x * h.conj(y) for y in rows] for x in rows], f"{msg}: density matrix of a pure state"
        )
        h.check_matrix([h.tolist(c.state)], [rows], f"{msg}: state read again")
    else:
        h.check_matrix(got[1], rows, f"{msg}: density matrix")


def setting(h, c, rows, was, force, normalize, msg, free=3):
    """One setting of a state of the right shape; returns what is stored afterwards."""
    one, zero = clear(h, rows)
    kw = {}
    if force or h.flag(msg + ".explicit"):
        kw["force"] = force
    if normalize:
        kw["normalize"] = True
    arr = h.array(rows)
    if was is not None and not force:
        h.check_raises(f"{msg}: a second state", c.set_state, arr, exc=h.circuit.CircuitError, **kw)
        same(h, c, was, f"{msg}: refused")
        return was
    if normalize:
        ok = bool(h.not_(zero))
    else:
        ok = bool(one)
    if not ok:
        h.check_raises(f"{msg}: invalid state", c.set_state, arr, exc=(ValueError, ZeroDivisionError), **kw)
        same(h, c, was, f"{msg}: refused")
        return was
    c.set_state(arr, **kw)
    mixed = bool(rows) and isinstance(rows[0], list)
    if not normalize:
        new = ("mixed", rows) if mixed else ("pure", rows)
        same(h, c, new, msg)
        h.check_matrix(h.tolist(arr) if mixed else [h.tolist(arr)], rows if mixed else [rows], f"{msg}: the given array is not changed")
        return new
    got = read(h, c)
    h.check(got is not None and got[0] == ("mixed" if mixed else "pure"), f"{msg}: kind of state")
    s = size2(h, rows)
    if mixed:
        h.check_matrix([[x * s for x in r] for r in got[1]], rows, f"{msg}: state scaled to unit trace")
    else:
        # proportional with a positive factor and of unit norm
        h.check_close(size2(h, got[1]), 1, f"{msg}: unit norm")
        k = 0
        for a, b in zip(got[1], rows):
            k = k + h.conj(b) * a
        h.check_close(k * k, s, f"{msg}: scaled by the norm")
        h.check(h.as_real(k) > 0, f"{msg}: scaled by a positive number")
        h.check_matrix([[a * s for a in got[1]]], [[k * b for b in rows]], f"{msg}: same direction")
    return got


def once(h, cls, n, kind, free):
    c = getattr(h.circuit, cls)(n)
    d = 1 << n
    rows = data(h, "x", (d,) if kind == "pure" else (d, d), free)
    same(h, c, None, "before")
    setting(h, c, rows, None, h.flag("force"), h.flag("normalize"), "set")


def twice(h, n, first, second, free):
    c = h.circuit.Circuit(n)
    d = 1 << n
    sh = {"pure": (d,), "mixed": (d, d)}
    v = h.real("v", -1, 1)
    if first == "pure":
        t = h.angle("t")
        rows = [h.cos(t)] + [0] * (d - 2) + [1j * h.sin(t)]
    else:
        rows = [[0] * d for _ in range(d)]
        rows[0][0], rows[d - 1][d - 1], rows[0][d - 1] = v, 1 - v, v * 1j
    c.set_state(h.array(rows))
    was = (first, rows)
    if h.flag("read"):
        same(h, c, was, "first")
    if h.flag("reset"):
        c.reset()
        was = None
        same(h, c, None, "after a reset")
    setting(h, c, data(h, "y", sh[second], free), was, h.flag("force"), h.flag("normalize"), "second")


def shapes(h, n, shape):
    """Arrays of wrong shapes are refused and change nothing."""
    c = h.circuit.Circuit(n)
    d = 1 << n
    was = None
    if h.flag("set"):
        rows = [1j] + [0] * (d - 1)
        c.set_state(h.array(rows))
        was = ("pure", rows)
    x = h.real("x", -2, 2)
    tot = 1
    for s in shape:
        tot *= s

    def build(dim, first):
        if dim == len(shape):
            return x if first else 0
        return [build(dim + 1, first and i == 0) for i in range(shape[dim])]

    if h.flag("unit"):
        h.assume(h.eq(x * x, 1))
    h.assume(h.any_of([h.eq(x, 0), x * x >= 1e-4]))
    h.check_raises(
        "a state of a wrong shape",
        c.set_state,
        h.array(build(0, True)),
        exc=(ValueError, ZeroDivisionError),
        force=was is not None or h.flag("force"),
        normalize=h.flag("normalize"),
    )
    same(h, c, was, "refused")


FILE = "dwave/gate/circuit.py: "


def harnesses(tier):
    deep = tier != "quick"
    cov = [FILE + f for f in ("Circuit.set_state", "Circuit._assert_state", "Circuit.state", "Circuit.density_matrix", "Circuit.reset")]
    for n in (0, 1, 2) + ((3,) if deep else ()):
        for kind in ("pure", "mixed"):
            for cls in ("Circuit", "ParametricCircuit") if n == 1 else ("Circuit",):
                yield Harness(f"once-{cls}-{n}-{kind}", once, covers=cov, cls=cls, n=n, kind=kind, free=(1 << n if kind == "pure" else 4) if n < 2 else 3)
    for n in (1, 2):
        for a in ("pure", "mixed"):
            for b in ("pure", "mixed"):
                yield Harness(f"twice-{n}-{a}-{b}", twice, covers=cov, n=n, first=a, second=b, free=2 if not deep else 3)
    wrong = {
        0: [(0,), (2,), (2, 2), (2, 1), (1, 1, 1)],
        1: [(1,), (3,), (4,), (1, 1), (2, 1), (1, 2), (2, 4), (4, 4), (2, 2, 2)],
        2: [(2,), (3,), (8,), (2, 2), (4, 1), (1, 4), (4, 2), (2, 4), (8, 8), (4, 4, 4)],
    }
    for n, shs in wrong.items():
        for s in shs:
            yield Harness("shape-%d-%s" % (n, "x".join(map(str, s))), shapes, covers=cov, n=n, shape=s)
