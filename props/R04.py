from props.regmodel import agree, contents, label, member
from sx.api import Harness

PRELOAD = ("dwave.gate.registers.cyregister", "dwave.gate.registers.registers")
BOUNDS = "contents of up to 2 labels; additions of one item, a string, a tuple, a list or a register of up to 2 items; sums, copies, slices and permissive index requests"
OUTSIDE = "private methods (leading underscore), which do not promise to respect freezing"
CLS = ("Register", "QuantumRegister", "ClassicalRegister", "SelfIncrementingRegister")


def data(h, kinds):
    """Something to add and the items it stands for."""
    how = h.choice("how", ["single", "string", "list", "tuple", "register", "empty", "frozenset"])
    if how == "single":
        x = label(h, "d", kinds)
        return x, [x]
    if how == "string":
        s = h.choice("s", ["abc", "q", ""])
        return s, [s]
    if how == "frozenset":
        s = frozenset([1, 2])
        return s, [s]
    if how == "empty":
        return h.choice("e", [[], ()]), []
    items = [label(h, f"d{i}", kinds) for i in range(h.choice("k", [1, 2]))]
    if how == "register":
        for i, x in enumerate(items):
            h.assume(h.not_(member(h, x, items[:i])))
        return h.regs.Register(items), items
    return (tuple(items) if how == "tuple" else items), items


def frozen(h, n, kinds, cls):
    m = contents(h, n, kinds)
    reg = getattr(h.regs, cls)(m)
    h.check(reg.frozen is False, "new register is not frozen")
    reg.freeze()
    if h.flag("twice"):
        reg.freeze()
    h.check(reg.frozen is True, "frozen register says so")
    d, items = data(h, kinds)
    h.check_raises("adding to a frozen register", reg.add, d, exc=h.regs.RegisterError)
    if cls == "SelfIncrementingRegister":
        h.check_raises("requesting an item outside of a frozen register", lambda: reg[n + h.choice("far", [0, 1, 3])], exc=IndexError)
    agree(h, reg, m, "after refused additions")
    h.check(reg.frozen is True, "register stays frozen")


def derived(h, n, kinds, cls):
    """Asking a frozen register for anything, also for what would have to be added, leaves it alone."""
    m = contents(h, n, kinds)
    reg = getattr(h.regs, cls)(m)
    reg.freeze()
    what = h.choice("what", ("index", "sum", "update", "copy", "slice", "sum of"))
    if what == "index":
        x = label(h, "x", kinds)
        got = None
        inside = [i for i, y in enumerate(m) if bool(h.eq(x, y))]
        if inside:
            got = reg.index(x, permissive=True) if h.flag("keyword") else reg.index(x, True)
            h.check(h.eq(got, inside[0]), "index of an item that is there")
        else:
            h.check_raises("index of an item that would have to be added", reg.index, x, permissive=True, exc=h.regs.RegisterError)
            h.check_raises("index of an item that is not there", reg.index, x, exc=ValueError)
    elif what in ("sum", "update", "sum of"):
        x = label(h, "x", kinds)
        h.assume(h.not_(member(h, x, m)))
        other = h.regs.Register([x])
        if what == "sum":
            new = reg + other
        elif what == "update":
            new = reg
            new += other
        else:
            new = other + reg
        if cls != "SelfIncrementingRegister":
            agree(h, new, [x] + m if what == "sum of" else m + [x], "sum")
        h.check(new is not reg and new.frozen is False, "the sum is another register, not frozen")
    else:
        x = label(h, "x", kinds)
        h.assume(h.not_(member(h, x, m)))
        new = reg.copy() if what == "copy" else reg[:]
        h.check(new is not reg, "another register")
        if what == "slice":
            new.add([x])
            h.check(len(new) == n + 1, "items can be added to the slice")
        elif not new.frozen:
            new.add([x])
    agree(h, reg, m, f"after {what}")
    h.check(reg.frozen is True, "register stays frozen")
    h.check_raises("adding to a frozen register", reg.add, [label(h, "y", kinds)], exc=h.regs.RegisterError)


def permissive(h, n, kinds, cls):
    """Registers that are not frozen add items when asked for their index permissively."""
    m = contents(h, n, kinds)
    reg = getattr(h.regs, cls)(m)
    x = label(h, "x", kinds)
    inside = [i for i, y in enumerate(m) if bool(h.eq(x, y))]
    h.check(h.eq(reg.index(x, permissive=True), inside[0] if inside else n), "index")
    if cls != "SelfIncrementingRegister":
        agree(h, reg, m if inside else m + [x], "afterwards")
    else:
        h.check(len(reg) == n + (not inside), "length afterwards")


def open_(h, n, kinds, cls):
    m = contents(h, n, kinds)
    reg = getattr(h.regs, cls)(m)
    d, items = data(h, kinds)
    dup = any(bool(member(h, x, m + items[:i])) for i, x in enumerate(items))
    if dup:
        h.check_raises("adding an item that is present", reg.add, d, exc=ValueError)
        return
    reg.add(d)
    if cls != "SelfIncrementingRegister":
        agree(h, reg, m + items, "after addition")
    else:
        h.check(len(reg) == n + len(items), "length after addition")
    h.check(reg.frozen is False, "adding does not freeze")


def harnesses(tier):
    out = []
    both = ("int", "atom")
    for cls in CLS:
        for n in range(3 if tier == "thorough" else 2):
            k = both if n == 0 or tier == "thorough" else ("int",) if cls in CLS[:2] else ("atom",)
            out.append(Harness(f"frozen-{cls}-{n}", frozen, n=n, kinds=k, cls=cls))
            out.append(Harness(f"open-{cls}-{n}", open_, n=n, kinds=k, cls=cls))
            out.append(Harness(f"derived-{cls}-{n}", derived, n=n, kinds=k, cls=cls))
            out.append(Harness(f"permissive-{cls}-{n}", permissive, n=n, kinds=k, cls=cls))
    out.append(Harness("frozen-2", frozen, n=2, kinds=both, cls="QuantumRegister"))
    for h in out:
        h.bounds = str(h.params)
    return out
