"""Amplitude kernels for any number of qubits.

The kernels' LLVM IR is executed with symbolic 64-bit sizes and positions; the amplitude loop is
summarised by one arbitrary iteration k.  Small sizes are executed completely in addition.
"""
from sx.api import Harness

KERNELS = True
PRELOAD = ("dwave.gate.simulator.simulator", "dwave.gate.operations")
MAXN = 48
OPS = {  # name: (targets, controls)
    "gate": (1, 0), "cgate": (1, 1), "ccx": (1, 2), "ccgate": (1, 2), "swap": (2, 0), "cswap": (2, 1), "sample": (1, 0),
}
BOUNDS = (
    f"any number of qubits 1..{MAXN} (2^n amplitudes), any distinct positions, any 2x2 complex matrix; "
    "the loop over amplitudes by induction on one arbitrary iteration; complete runs for up to 3 qubits"
)
OUTSIDE = "states that do not fit into a 48-bit address space; the noise kernels, which nothing calls"

SWAP = [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]
X = [[0, 1], [1, 0]]


def operation(h, kind, m):
    """-> (operation object, reference matrix on the targets)"""
    if kind == "gate":
        return h.user_gate(h.array(m))(), m
    if kind == "cgate":
        return h.user_controlled(h.array(m), 1)(), m
    if kind == "ccgate":
        op = h.user_controlled(h.array(m), 2)()
        op._num_control = 2
        return op, m
    if kind == "ccx":
        return h.ops.CCX(), X
    if kind == "swap":
        return h.ops.SWAP(), SWAP
    if kind == "cswap":
        return h.ops.CSWAP(), SWAP
    raise AssertionError(kind)


def matrix(h):
    return [[h.cplx(f"m{i}{j}") for j in range(2)] for i in range(2)]


# ------------------------------------------------------------------ any size
def generic(h, kind, little):
    nt, nc = OPS[kind]
    n = h.big("n", nt + nc, MAXN)
    qs = []
    for i in range(nt + nc):
        q = h.big(f"q{i}", 0, MAXN)
        h.assume(q < n)
        for p in qs:
            h.assume(q != p)
        qs.append(q)
    controls, targets = qs[:nc], qs[nc:]
    op, m = operation(h, kind, matrix(h)) if kind != "sample" else (None, None)
    if not h.symbolic:
        from props import s04replay

        return s04replay.run(h, kind, little, n, controls, targets, op, m)
    from props import s04sym

    s04sym.run(h, kind, little, n, controls, targets, op, m)


# ------------------------------------------------------------------ complete runs
def complete(h, kind, little, n):
    nt, nc = OPS[kind]
    qs = h.perm("q", range(n), nt + nc)
    op, m = operation(h, kind, matrix(h))
    amps = [h.cplx(f"a{i}") for i in range(2**n)]
    state = h.array(amps)
    h.sim.apply_instruction(n, state, op, qs, little, None)
    full = []
    for r in range(1 << (nt + nc)):
        row = []
        for c in range(1 << (nt + nc)):
            hi_r, hi_c = r >> nt, c >> nt
            if hi_r != hi_c:
                row.append(0)
            elif hi_r == (1 << nc) - 1:
                row.append(m[r & ((1 << nt) - 1)][c & ((1 << nt) - 1)])
            else:
                row.append(1 if r == c else 0)
        full.append(row)
    pos = [n - 1 - q for q in qs] if little else qs
    h.check_matrix(state, h.apply(full, pos, amps, n), "state after the kernel")


def harnesses(tier):
    out = []
    for kind, (nt, nc) in OPS.items():
        for little in (False, True):
            e = "little" if little else "big"
            out.append(Harness(f"any-{kind}-{e}", generic, kind=kind, little=little, bounds=f"1 <= n <= {MAXN}", split=False))
            if kind != "sample":
                for n in range(nt + nc, (4 if tier == "thorough" else 3) + 1):
                    out.append(Harness(f"full-{kind}-{e}-{n}", complete, kind=kind, little=little, n=n, bounds=f"n = {n}"))
    return out
