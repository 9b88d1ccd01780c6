from props.regmodel import LARGE, agree, contents, label, member, agree_valued, is_int, same_label, valued, valued_contents
from sx.api import Harness

PRELOAD = ("dwave.gate.registers.cyregister", "dwave.gate.registers.registers")
BOUNDS = (
    "register contents of up to 3 (thorough: 4) labels, each any integer in [-1, 4], any opaque "
    "string, or one of the listed other hashable values; one addition of up to 2 items; selected contents of 12 items and additions of any integer in [-2, 14]; one probe"
)
OUTSIDE = "longer registers; hashable objects whose == or hash has side effects"

CLS = ("Register", "QuantumRegister", "ClassicalRegister")


def build(h, n, kinds, cls):
    items = contents(h, n, kinds)
    return getattr(h.regs, cls)(items), items


def init(h, n, kinds, cls, probe):
    """Construction (duplicates given to the constructor are stored once)."""
    given = [label(h, f"g{i}", kinds) for i in range(n)]
    model = []
    for x in given:
        if not bool(member(h, x, model)):
            model.append(x)
    reg = getattr(h.regs, cls)(given)
    agree(h, reg, model, "constructed register", label(h, "p", (probe,)))


def ranged(h, cls):
    n = h.choice("n", range(4))
    reg = getattr(h.regs, cls)(range(n))
    agree(h, reg, list(range(n)), "register of a range", h.int("p", -3, 6))
    start, step = h.choice("start", [0, 1, -1]), h.choice("step", [1, 2, -1])
    r = range(start, n, step)
    agree(h, getattr(h.regs, cls)(r), list(r), "register of a range with offset or step", h.int("q", -3, 6))


def add(h, n, k, kinds, cls, how, probe):
    reg, model = build(h, n, kinds, cls)
    new = [label(h, f"a{i}", kinds) for i in range(k)]
    fresh, dup = [], False
    for x in new:
        if bool(member(h, x, model + fresh)):
            dup = True
            break
        fresh.append(x)
    if how == "add":
        e = h.raises(reg.add, new if k != 1 else (new if h.flag("single_in_list") else new[0]))
    elif how == "extend":
        e = h.raises(reg._extend, new)
    elif how == "permissive":
        reg._extend(new, permissive=True)
        model = model + [x for x in fresh]
        if dup:
            # items behind the duplicate are still added
            for x in new[len(fresh) :]:
                if not bool(member(h, x, model)):
                    model.append(x)
        agree(h, reg, model, "after permissive addition", label(h, "p", (probe,)))
        return
    else:
        e = None
        for x in new:
            e = e or h.raises(reg._append, x)
    if dup:
        h.check(isinstance(e, ValueError), "adding an item twice is refused")
    else:
        h.check(e is None, f"adding new items failed: {e!r}")
    after = list(reg)
    h.check(len(after) >= len(model), "items lost by an addition")
    model = model + fresh
    agree(h, reg, model, "after addition", label(h, "p", (probe,)))


def larger(h, what, cls, how):
    """Additions to registers of more items."""
    model = list(LARGE[what])
    reg = getattr(h.regs, cls)(model)
    x = h.int("x", -2, 14)
    new = bool(h.not_(member(h, x, model)))
    if how == "permissive":
        reg._extend([20, x, 21], permissive=True)
        model += [20] + [x] * new + [21]
    else:
        call = {"append": lambda: reg._append(x), "add": lambda: reg.add([x, 20]), "extend": lambda: reg._extend([x])}[how]
        if new:
            call()
            model += [x] + [20] * (how == "add")
        else:
            h.check_raises("adding an item twice", call, exc=ValueError)
    agree(h, reg, model, "after an addition to a larger register", h.int("p", -3, 22))
    for _ in range(3):
        v = reg._append()
        h.check(h.not_(member(h, v, model)), "generated label already present")
        model.append(v)
    agree(h, reg, model, "after generated labels")


def auto(h, n, kinds, cls):
    """Appending without a label makes a new one."""
    reg, model = build(h, n, kinds, cls)
    v = reg._append()
    h.check(h.not_(member(h, v, model)), "generated label already present")
    agree(h, reg, model + [v], "after appending a generated label", h.int("p", -1, 5))


def permissive_index(h, n, kinds):
    reg, model = build(h, n, kinds, "Register")
    x = label(h, "a", kinds)
    i = reg.index(x, permissive=True)
    if not bool(member(h, x, model)):
        model.append(x)
    h.check(h.eq(model[i], x), "permissive index")
    agree(h, reg, model, "after permissive index", label(h, "p", ("int",)))


def numbers(h, n):
    """Labels that are numbers of any type: membership follows ==."""
    reg, model = build(h, n, ("int", "other"), "Register")
    agree(h, reg, model, "register of numbers", label(h, "p", ("other",)))


def unhashable(h):
    reg, model = build(h, 2, ("int", "atom"), "Register")
    x = h.choice("x", [[1], {}, [[]]])
    h.check(not (x in reg), "membership of an unhashable object")
    h.check_raises("index of an unhashable object", reg.index, x, exc=(ValueError, TypeError))
    h.check_raises("appending an unhashable object", reg._append, x, exc=TypeError)
    agree(h, reg, model, "after a refused unhashable object")



def values(h, n, how):
    """Bits and variables that have values are told apart from the values."""
    m = valued_contents(h, n)
    if how == "init":
        reg = h.regs.Register(m)
    else:
        reg = h.regs.Register()
        for x in m:
            reg.add(x) if how == "add" else reg._append(x)
    agree_valued(h, reg, m, "items with values")
    if h.flag("then"):
        # values may change at any time
        for i, x in enumerate(m):
            if not is_int(x):
                x.set(h.choice(f"new{i}", (0, 1)), True) if isinstance(x, h.prim.Bit) else x.set(h.choice(f"new{i}", (0, 1)))
        agree_valued(h, reg, m, "items with new values")
        y = valued(h, "y", ("bit", "int"))
        if any(bool(same_label(h, y, x)) for x in m):
            h.check_raises("label that is present", reg.add, y, exc=ValueError)
        else:
            reg.add(y)
            agree_valued(h, reg, m + [y], "after adding")


def harnesses(tier):
    out = []
    N = 3 if tier == "quick" else 4
    both = ("int", "atom")
    for cls in CLS:
        out.append(Harness(f"ranged-{cls}", ranged, cls=cls))
    out.append(Harness("init", init, n=3, kinds=both, cls="Register", probe="int"))
    out.append(Harness("init-q", init, n=2, kinds=both, cls="QuantumRegister", probe="atom"))
    for n in range(N + 1):
        cls = CLS[n % 3]
        full = n <= 2 or tier == "thorough"
        kinds = both if n <= 1 or tier == "thorough" else ("int",)
        t = str(n)
        out.append(Harness(f"append1-{t}", add, n=n, k=1, kinds=kinds, cls=cls, how="append", probe="int", max_paths=200000))
        out.append(Harness(f"auto-{t}", auto, n=n, kinds=kinds, cls=cls, max_paths=200000))
        if full:
            out.append(Harness(f"add1-{t}", add, n=n, k=1, kinds=kinds, cls=cls, how="add", probe="atom", max_paths=200000))
            out.append(Harness(f"pindex-{t}", permissive_index, n=n, kinds=kinds, max_paths=200000))
        if n <= 1 or (tier == "thorough" and n == 2):
            k2 = both if n < 1 or tier == "thorough" else ("int",)
            out.append(Harness(f"add2-{t}", add, n=n, k=2, kinds=k2, cls=cls, how="add", probe="int"))
            out.append(Harness(f"extend2-{t}", add, n=n, k=2, kinds=k2, cls=cls, how="extend", probe="int"))
            out.append(Harness(f"permissive2-{t}", add, n=n, k=2, kinds=k2, cls=cls, how="permissive", probe="int", max_paths=200000))
    for what in LARGE:
        for i, how in enumerate(("append", "add", "extend", "permissive")):
            out.append(Harness(f"larger-{what}-{how}", larger, what=what, cls=CLS[i % 3], how=how))
    out.append(Harness("numbers-2", numbers, n=2))
    out.append(Harness("numbers-1", numbers, n=1))
    out.append(Harness("unhashable", unhashable))
    for n, how in ((1, "init"), (1, "append"), (2, "add")) if tier == "quick" else ((1, "init"), (2, "init"), (2, "append"), (2, "add"), (3, "add")):
        out.append(Harness(f"values-{how}-{n}", values, n=n, how=how))
    for h in out:
        h.bounds = str(h.params)
    return out
