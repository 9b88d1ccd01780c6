from props.regmodel import LARGE, agree, contents, label, member, agree_valued, same_label, valued, valued_contents
from sx.api import Harness

PRELOAD = ("dwave.gate.registers.cyregister", "dwave.gate.registers.registers")
BOUNDS = (
    "contents of up to 3 labels (4 integers or 3 of either kind in thorough), integers in [-1, 4] (to 8 where labels are permuted among some items) or "
    "opaque strings; up to 3 successive removals/pops/additions; relabellings of up to 3 items; selected contents of 12 items with any integers removed or given as labels"
)
OUTSIDE = "relabelling keys that are not in the register (documented precondition); longer registers"


def make(h, n, kinds):
    m = contents(h, n, kinds)
    return h.regs.Register(m), m


def steps(h, n, kinds, k, probe=True):
    """k operations in a row, each pop, remove, append or clear."""
    reg, m = make(h, n, kinds)
    for s in range(k):
        op = h.choice(f"op{s}", ["pop", "remove", "append", "clear"])
        if op == "pop":
            if m:
                x = m.pop()
                h.check(h.eq(reg._pop(), x), "popped item")
            else:
                h.check_raises("pop of an empty register", reg._pop, exc=IndexError)
        elif op == "remove":
            if m and h.flag(f"known{s}"):
                x = m.pop(h.index(f"which{s}", len(m)))
                reg._remove(x)
            else:
                x = label(h, f"r{s}", kinds)
                for i, y in enumerate(m):
                    if bool(h.eq(x, y)):
                        m.pop(i)
                        reg._remove(x)
                        break
                else:
                    h.check_raises("removing an absent item", reg._remove, x, exc=ValueError)
        elif op == "append":
            x = label(h, f"a{s}", kinds)
            h.assume(h.not_(member(h, x, m)))
            reg._append(x)
            m.append(x)
        else:
            reg._clear()
            m = []
        h.check(len(reg) == len(m), f"length after step {s} ({op})")
    agree(h, reg, m, "after the operations", label(h, "p", ("int",)) if probe else None)


def remove(h, n, kinds):
    reg, m = make(h, n, kinds)
    m = list(m)
    x = m.pop(h.index("which", n))
    reg._remove(x)
    agree(h, reg, m, "after removal", label(h, "p", ("int",)))


def relabel(h, n, kinds, newkinds, k, probe=True):
    reg, m = make(h, n, kinds)
    olds = h.perm("old", range(n), k)
    news = [label(h, f"n{i}", newkinds) for i in range(k)]
    mapping = h.mapping([(m[o], x) for o, x in zip(olds, news)])
    rest = [m[i] for i in range(n) if i not in olds]
    clash = any(bool(member(h, news[i], news[:i])) for i in range(k)) or any(
        bool(member(h, x, rest)) for x in news
    )
    if clash:
        h.check_raises("clashing relabelling", reg._relabel, mapping, exc=ValueError)
        agree(h, reg, m, "after a refused relabelling")
        return
    reg._relabel(mapping)
    m = list(m)
    for o, x in zip(olds, news):
        m[o] = x
    agree(h, reg, m, "after relabelling", label(h, "p", ("int",)) if probe else None)


def permute(h, n, kinds):
    """Relabelling among the register's own labels (any permutation)."""
    reg, m = make(h, n, kinds)
    p = h.perm("p", range(n), n)
    reg._relabel(h.mapping([(m[i], m[p[i]]) for i in range(n)]))
    agree(h, reg, [m[p[i]] for i in range(n)], "after permuting labels")


def cycle(h, n, k, hi):
    """Permuting the labels of k items beside others that keep theirs."""
    m = contents(h, n, ("int",), lo=0, hi=hi)
    reg = h.regs.Register(m)
    which = h.perm("which", range(n), k)
    reg._relabel(h.mapping([(m[which[i]], m[which[(i + 1) % k]]) for i in range(k)]))
    want = list(m)
    for i in range(k):
        want[which[i]] = m[which[(i + 1) % k]]
    agree(h, reg, want, "after permuting some labels")


def integers(h, n, kinds):
    reg, m = make(h, n, kinds)
    back = reg._relabel_as_integers()
    agree(h, reg, list(range(n)), "relabelled to integers", label(h, "p", ("int",)))
    reg._relabel(back)
    agree(h, reg, m, "restored labels", label(h, "q", ("int",)))


def clear(h, n, kinds):
    reg, m = make(h, n, kinds)
    reg._clear()
    agree(h, reg, [], "cleared register", label(h, "p", kinds))
    x = label(h, "a", kinds)
    reg._append(x)
    agree(h, reg, [x], "register used after clearing", label(h, "q", ("int",)))



def larger(h, what, op):
    """Registers of more items."""
    m = list(LARGE[what])
    reg = h.regs.Register(m)
    if op == "remove":
        for i in range(2):
            x = h.choice("x1", [m[0], m[6], m[-1]]) if i else h.int("x0", -2, 13)
            for j, y in enumerate(m):
                if bool(h.eq(x, y)):
                    m.pop(j)
                    reg._remove(x)
                    break
            else:
                h.check_raises("removing an absent item", reg._remove, x, exc=ValueError)
    elif op == "pop":
        for i in range(h.choice("pops", (1, 2, 5, 12))):
            h.check(h.eq(reg._pop(), m.pop()), "popped item")
    elif op == "relabel":
        k, x = h.choice("k", (0, 5, 11)), h.int("x", -2, 14)
        if bool(h.eq(m[k], x)) or not bool(member(h, x, m)):
            reg._relabel(h.mapping([(m[k], x)]))
            m[k] = x
        else:
            h.check_raises("clashing relabelling", reg._relabel, h.mapping([(m[k], x)]), exc=ValueError)
    elif op == "permute":
        k = h.choice("k", (1, 7, 11))
        reg._relabel(h.mapping([(m[i], m[(i + k) % len(m)]) for i in range(len(m))]))
        m = m[k:] + m[:k]
    else:
        back = reg._relabel_as_integers()
        agree(h, reg, list(range(len(m))), "relabelled to integers")
        reg._relabel(back)
    agree(h, reg, m, f"after {op} of a larger register")
    x = h.int("last", 13, 16)
    h.assume(h.not_(member(h, x, m)))
    reg._append(x)
    agree(h, reg, m + [x], f"addition after {op}")


def values(h, n):
    """Bits and variables with values are told apart from the values they equal."""
    m = valued_contents(h, n)
    reg = h.regs.Register(m)
    how = h.choice("how", ("remove", "pop", "relabel", "integers", "permute"))
    if how == "remove":
        i = h.index("which", n)
        reg._remove(m.pop(i))
    elif how == "pop":
        x = reg._pop()
        h.check(same_label(h, x, m.pop()), "popped item")
    elif how == "relabel":
        i = h.index("which", n)
        y = valued(h, "y", ("bit",)) if h.flag("bit") else valued(h, "y", ("variable",))
        reg._relabel(h.mapping([(m[i], y)]))
        m[i] = y
    elif how == "integers":
        back = reg._relabel_as_integers()
        agree_valued(h, reg, list(range(n)), "as integers")
        reg._relabel(back)
    elif n > 1:
        reg._relabel(h.mapping([(m[0], m[1]), (m[1], m[0])]))
        m[0], m[1] = m[1], m[0]
    agree_valued(h, reg, m, f"after {how}")


def harnesses(tier):
    both = ("int", "atom")
    out = []
    big = tier == "thorough"
    for n in range(3):
        out.append(Harness(f"steps2-{n}", steps, n=n, kinds=("int",), k=2 if not big else 3, probe=big or n < 2))
    out.append(Harness("steps2-both-1", steps, n=1, kinds=both, k=2))
    if big:
        out.append(Harness("steps2-both-2", steps, n=2, kinds=both, k=2))
    for n in (1, 2, 3):
        out.append(Harness(f"remove-{n}", remove, n=n, kinds=both if n < 3 or big else ("int",)))
        out.append(Harness(f"permute-{n}", permute, n=n, kinds=both if n < 3 or big else ("int",)))
        out.append(Harness(f"integers-{n}", integers, n=n, kinds=both if n < 3 or big else ("int",)))
        out.append(Harness(f"clear-{n}", clear, n=n, kinds=both if n < 3 or big else ("int",)))
    for what in LARGE:
        for op in ("remove", "pop", "relabel", "permute", "integers"):
            out.append(Harness(f"larger-{what}-{op}", larger, what=what, op=op))
    for n in (1, 2) if not big else (1, 2, 3):
        out.append(Harness(f"values-{n}", values, n=n))
    out.append(Harness("cycle-3-2", cycle, n=3, k=2, hi=6))
    if big:
        out.append(Harness("cycle-4-2", cycle, n=4, k=2, hi=6))
        out.append(Harness("cycle-4-3", cycle, n=4, k=3, hi=8))
    out.append(Harness("relabel-1-1", relabel, n=1, kinds=both, newkinds=both, k=1))
    out.append(Harness("relabel-2-1", relabel, n=2, kinds=both, newkinds=both, k=1))
    out.append(Harness("relabel-2-2i", relabel, n=2, kinds=("int",), newkinds=("int",), k=2, probe=big))
    out.append(Harness("relabel-2-2a", relabel, n=2, kinds=("atom",), newkinds=("int",), k=2))
    out.append(Harness("relabel-2-2b", relabel, n=2, kinds=("int",), newkinds=("atom",), k=2))
    out.append(Harness("relabel-3-1", relabel, n=3, kinds=("int",), newkinds=("int",), k=1, probe=big))
    if big:
        out.append(Harness("relabel-2-2", relabel, n=2, kinds=both, newkinds=both, k=2))
        out.append(Harness("relabel-3-2", relabel, n=3, kinds=("int",), newkinds=("int",), k=2))
        out.append(Harness("relabel-3-3", relabel, n=3, kinds=("atom",), newkinds=("int",), k=3))
        out.append(Harness("integers-4", integers, n=4, kinds=("int",)))
        out.append(Harness("remove-4", remove, n=4, kinds=("int",)))
    for h in out:
        h.bounds = str(h.params)
    return out
