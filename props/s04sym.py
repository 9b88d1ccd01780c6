"""Obligations for one arbitrary iteration of an amplitude loop (symbolic side of S04)."""
import z3

from sx import engine as E
from sx.cyrt import BigState, MemoryFault
from sx.llvm import Fault, norm
from sx.shims import ScriptedRNG
from sx.values import Poly, SymC, to_c

ONE = z3.BitVecVal(1, 64)


def bit(x, p):
    return z3.Extract(0, 0, z3.LShR(x, p)) == 1


class Viol(Exception):
    pass


def run(h, kind, little, n, controls, targets, op, m):
    e = h.e
    state = BigState(n)
    N = n.z
    e.path_state["prefer"] = [z3.ULE(N, 10), z3.ULE(N, 36)]

    def pos(q):
        return q.z if little else N - q.z - 1

    cpos, tpos = [pos(q) for q in controls], [pos(q) for q in targets]
    try:
        if kind == "sample":
            h.script_rng()
            try:
                h.sim.sample_qubit(targets[0], state, ScriptedRNG(), little_endian=little)
            except RuntimeError:  # norm reported as zero
                pass
        else:
            h.sim.apply_instruction(n, state, op, controls + targets, little, None)
    except (Fault, MemoryFault) as f:
        h.check(False, f"undefined behaviour: {f}")
    except E.Inconclusive as x:
        # another loop structure: only the complete small runs decide
        e.stats.obligations += 1
        e.stats.trivial += 1
        e.extra = {"size_generic": f"not encodable: {x}"}
        return
    for ex in state.executors:
        for what, cond in ex.ub:
            e.check(z3.Not(cond), f"undefined behaviour: {what}")
    h.check(len(state.log) >= 1, "some amplitude loop was executed")
    writes = 0
    for s in state.log:
        writes += obligations(e, h, kind, s, N, cpos, tpos, m)
    e.extra = {"size_generic": f"{len(state.log)} amplitude loops by induction"}
    if kind != "sample":
        h.check(writes == 1, f"{writes} loops write amplitudes")


def known(e, cond):
    """Whether cond is implied (must be decided; forks if both are possible)."""
    return e.branch(cond)


def polyeq(a, b):
    d = (Poly.const(0) + a) - b
    return not d.t


def same(e, got, want, msg):
    from sx.values import close_cond

    c = close_cond(got, want)
    e.check(c, msg)


def obligations(e, h, kind, s, N, cpos, tpos, m):
    size = ONE << N
    nt, nc = len(tpos), len(cpos)
    for idx, *_ in s.cells:
        e.check(z3.ULT(idx, size), "amplitude index below 2^n")
    for i, a in enumerate(s.cells):
        for b in s.cells[:i]:
            e.check(a[0] != b[0], "amplitude indices of one iteration are distinct")
    written = [c for c in s.cells if c[2]]

    def row(idx):
        r = 0
        for p in tpos:
            r = 2 * r + (1 if known(e, bit(idx, p)) else 0)
        return r

    used = None
    if kind == "sample":
        if written:
            # projection on one outcome and normalisation
            f = None
            for idx, new, _, orig in s.cells:
                if not any(c[0].eq(idx) for c in written):
                    continue
                zero = polyeq(new[0], 0) and polyeq(new[1], 0)
                r = row(idx)
                e.stats.obligations += 1
                if zero:
                    zrow = r
                else:
                    keep = r
                    f = (new, orig)
            h.check(f is not None and len(written) >= 2, "projection keeps one component and clears the other")
            h.check(zrow != keep, "projection keeps one component and clears the other")
            new, orig = f
            # new = factor * orig
            c = SymC(*new) * SymC(*orig).conjugate()
            same(e, c.im, 0, "projected amplitude is a real multiple of the old one")
            weight = 1
            per_iter, rows = len(written), 2
            used = written
        else:
            h.check(len(s.acc) == 1 and len(s.increments) == 1, "one accumulated norm")
            inc = s.increments[0][1]
            want = Poly({})
            used = []
            left = inc
            rows_seen = set()
            for c in s.cells:
                o = c[3]
                sq = o[0] * o[0] + o[1] * o[1]
                # the cells that contribute
                if any(v in _vars(inc) for v in _vars(sq)):
                    want = want + sq
                    used.append(c)
                    rows_seen.add(row(c[0]))
            same(e, inc, want, "accumulated squared amplitudes")
            h.check(len(rows_seen) == 1 and used, "the norm of exactly one component is accumulated")
            same(e, s.acc[0][1] if not isinstance(s.acc[0][1], (int, float)) else Poly.const(0) + s.acc[0][1], 0, "accumulation starts at zero")
            per_iter, rows = len(used), 1
    else:
        dim = 1 << nt
        active = {
            r for r in range(dim) for c in range(dim)
            if not isinstance(m[r][c], int) or m[r][c] != (1 if r == c else 0)
        }
        rows_written = set()
        for idx, new, _, orig in written:
            for p in cpos:
                e.check(bit(idx, p), "only amplitudes with all controls set are changed")
            r = row(idx)
            rows_written.add(r)
            want = SymC(Poly({}), Poly({}))
            for col in range(dim):
                v = m[r][col]
                if isinstance(v, int) and v == 0:
                    continue
                tgt = idx
                for j, p in enumerate(tpos):
                    b = (col >> (nt - 1 - j)) & 1
                    tgt = (tgt | (ONE << p)) if b else (tgt & ~(ONE << p))
                hit = None
                for cell in s.cells:
                    if known(e, cell[0] == tgt):
                        hit = cell
                        break
                h.check(hit is not None, "partner amplitude is read in the same iteration")
                want = want + to_c(v) * SymC(*hit[3])
            same(e, SymC(*new), want, "updated amplitude is the gate applied to the old partners")
        used = written
        if not written:
            return 0
        h.check(active <= rows_written, "every component the gate changes is written")
        per_iter, rows = len(written), len(rows_written)
    # ---- every amplitude exactly once: iterations are disjoint and their number is right
    k = s.k
    k2 = z3.BitVec(e.unique("k'"), 64)

    def sub(x):
        return z3.substitute(x, (k, k2))

    extra = [sub(c) for c in s.pc]
    reached2 = z3.And(*extra) if extra else z3.BoolVal(True)
    for a in used:
        for b in s.cells:
            e.check(
                z3.Implies(z3.And(k != k2, reached2), a[0] != sub(b[0])),
                "no amplitude is updated twice or read after its update",
            )
    total = z3.BitVecVal(rows, 64) << (N - nt - nc)
    h.check(per_iter > 0 and per_iter & (per_iter - 1) == 0 or rows % per_iter == 0, "iteration shape")
    q, rem = divmod(rows, per_iter)
    if rem == 0:
        T = z3.BitVecVal(q, 64) << (N - nt - nc)
    else:
        T = z3.UDiv(total, z3.BitVecVal(per_iter, 64))
    # cond(k): rotated loops go on after k, top-tested loops enter k
    limit = k + 1 if s.rotated else k
    e.check(
        z3.Implies(z3.ULT(k, size), s.cond == z3.ULT(limit, T)),
        f"number of iterations covers every amplitude once ({per_iter} per iteration)",
    )
    if s.rotated:
        e.check(z3.UGE(T, 1), "first iteration is needed")
    return 1


def _vars(p):
    out = set()
    for mono in p.t:
        for v, _ in mono:
            out.add(v)
    return out
