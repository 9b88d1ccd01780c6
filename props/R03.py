from props.regmodel import LARGE, agree, contents, label, member, agree_valued, valued_contents
from sx.api import Harness

PRELOAD = ("dwave.gate.registers.cyregister", "dwave.gate.registers.registers")
BOUNDS = (
    "contents of up to 3 labels (any integer in [-1, 4] or opaque string); slice bounds absent or any "
    "integer in [-5, 5], steps absent or -2..3; one later modification of either register; selected contents of 12 items"
)
OUTSIDE = "longer registers, larger slice bounds"
CLS = ("Register", "QuantumRegister", "ClassicalRegister")


def bound(h, name, lo=-5, hi=5):
    return None if h.flag(name + ".none") else h.choice(name, range(lo, hi + 1))


def complete(h, new, cls, model, msg):
    h.check(type(new) is cls, f"{msg}: kind of register")
    agree(h, new, model, msg)
    h.check(not new.frozen, f"{msg}: is frozen")


def later(h, a, b, ma, mb, kinds):
    """Change one of two registers; the other must stay."""
    op = h.choice("later", ["add", "pop", "clear", "freeze", "relabel"])
    first = h.flag("first")
    x, y, mx, my = (a, b, ma, mb) if first else (b, a, mb, ma)
    mx = list(mx)
    if op == "add":
        v = label(h, "v", kinds)
        h.assume(h.not_(member(h, v, mx)))
        x.add(v)
        mx.append(v)
    elif op == "pop":
        if mx:
            x._pop()
            mx.pop()
    elif op == "clear":
        x._clear()
        mx = []
    elif op == "relabel":
        x._relabel_as_integers()
        mx = list(range(len(mx)))
    else:
        x.freeze()
        h.check(x.frozen and not y.frozen, "freezing affects the other register")
    agree(h, x, mx, "modified register")
    agree(h, y, my, "independent register")


def slicing(h, n, kinds, cls, part):
    cls = getattr(h.regs, cls)
    m = contents(h, n, kinds)
    reg = cls(m)
    start = bound(h, "start") if "a" in part else None
    stop = bound(h, "stop") if "o" in part else None
    step = None if h.flag("step.none") else h.choice("step", [-2, -1, 1, 2, 3])
    new = reg[start:stop:step]
    complete(h, new, cls, m[start:stop:step], f"slice")
    agree(h, reg, m, "sliced register")


def slice_independent(h, n, kinds, cls):
    cls = getattr(h.regs, cls)
    m = contents(h, n, kinds)
    reg = cls(m)
    s = slice(h.choice("start", [None, 0, 1]), h.choice("stop", [None, 1, 2]))
    later(h, reg, reg[s], m, m[s], kinds)


def copying(h, n, kinds, cls, how):
    import copy

    cls = getattr(h.regs, cls)
    m = contents(h, n, kinds)
    reg = cls(m)
    new = reg.copy() if how == "copy" else copy.copy(reg) if how == "__copy__" else cls(reg)
    h.check(new is not reg, "a copy is another object")
    complete(h, new, cls, m, "copy")
    later(h, reg, new, m, m, kinds)


def adding(h, n, k, kinds, cls):
    cls = getattr(h.regs, cls)
    m = contents(h, n, kinds)
    o = contents(h, k, kinds, name="y")
    a, b = cls(m), cls(o)
    dup = any(bool(member(h, y, m)) for y in o)
    if dup:
        h.check_raises("adding registers that share an item", lambda: a + b, exc=ValueError)
    else:
        s = a + b
        complete(h, s, cls, m + o, "sum of registers")
        if h.flag("then"):
            later(h, a, s, m, m + o, ("atom",))
    agree(h, b, o, "right operand")
    if dup:
        agree(h, a, m, "left operand")


def variables(h):
    """Registers of parameter variables: slices and copies."""
    reg = h.regs.SelfIncrementingRegister()
    k = h.choice("k", range(1, 4))
    v = [reg[i] for i in range(k)]
    s = reg[h.choice("start", [None, 0, 1, -1]) : h.choice("stop", [None, 1, 2, -1])]
    h.check(type(s) is type(reg), "slice of a parameter register: kind")
    h.check_same(list(reg), v, "slicing changes the parameter register")
    c = reg.copy()
    c[k]
    h.check(len(c) == k + 1 and len(reg) == k, "copy of a parameter register grows alone")



def larger(h, what, cls):
    """Slices, copies and sums of more items."""
    cls = getattr(h.regs, cls)
    m = list(LARGE[what])
    reg = cls(m)
    s = slice(h.choice("start", (None, 0, 3, 9, 12, 15, -1, -4, -12, -15)), h.choice("stop", (None, 0, 5, 10, 12, 15, -2, -12)), h.choice("step", (None, 1, 2, 5, -1, -3)))
    complete(h, reg[s], cls, m[s], "slice")
    agree(h, reg, m, "sliced register")


def summed(h, what, cls):
    cls = getattr(h.regs, cls)
    m = list(LARGE[what])
    reg = cls(m)
    x = h.int("x", -2, 14)
    h.assume(h.not_(h.eq(x, 20)))
    o = [20, x]
    if bool(member(h, x, m)):
        h.check_raises("adding registers that share an item", lambda: reg + cls(o), exc=ValueError)
        h.check_raises("adding registers that share an item", lambda: cls(o) + reg, exc=ValueError)
    else:
        complete(h, reg + cls(o), cls, m + o, "sum")
        complete(h, cls(o) + reg, cls, o + m, "sum the other way")
    later(h, reg, reg.copy(), m, m, ("atom",))


def values(h, n, how):
    """Slices, copies and sums hold the very bits and variables, whatever their values."""
    m = valued_contents(h, n)
    reg = h.regs.Register(m)
    if how == "slice":
        s = slice(h.choice("start", (None, 0, 1, -1)), h.choice("stop", (None, 1, -1)), h.choice("step", (None, -1, 1)))
        agree_valued(h, reg[s], m[s], "slice")
    elif how == "copy":
        agree_valued(h, reg.copy(), m, "copy")
    else:
        k = h.choice("k", (0, 1))
        o = valued_contents(h, k, "y", ("bit", "variable"))
        agree_valued(h, h.regs.Register(o) + reg, o + m, "sum")
    agree_valued(h, reg, m, "original")


def harnesses(tier):
    both = ("int", "atom")
    out = []
    top = 3 if tier == "quick" else 4
    for n in range(top + 1):
        for part in ("a", "o", "ao"):
            if part == "ao" and n not in (2, 3):
                continue
            kinds = ("atom",) if part == "ao" or n > 2 else both if n < 2 else ("int",)
            out.append(Harness(f"slice-{part}-{n}", slicing, n=n, kinds=kinds, cls=CLS[n % 3], part=part))
    out.append(Harness("slice-later", slice_independent, n=2, kinds=("int",), cls="Register"))
    for how in ("copy", "__copy__", "init"):
        for n in range(3):
            out.append(Harness(f"{how}-{n}", copying, n=n, kinds=both if n < 2 else ("int",), cls=CLS[n % 3], how=how))
    for n in range(3):
        for k in range(3 if n < 2 else 2):
            out.append(Harness(f"sum-{n}-{k}", adding, n=n, k=k, kinds=both if n + k < 3 else ("int",), cls=CLS[n % 3]))
    out.append(Harness("variables", variables))
    for i, what in enumerate(LARGE):
        out.append(Harness(f"larger-{what}", larger, what=what, cls=CLS[i % 3]))
        out.append(Harness(f"summed-{what}", summed, what=what, cls=CLS[(i + 1) % 3]))
    for how in ("slice", "copy", "sum"):
        out.append(Harness(f"values-{how}", values, n=2, how=how))
    if tier == "thorough":
        out.append(Harness("sum-2-2", adding, n=2, k=2, kinds=both, cls="Register"))
        out.append(Harness("copy-3", copying, n=3, kinds=both, cls="Register", how="copy"))
        out.append(Harness("slice-later-3", slice_independent, n=3, kinds=both, cls="Register"))
    for h in out:
        h.bounds = str(h.params)
    return out
