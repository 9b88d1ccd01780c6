"""Finding and getting qubits and bits."""
from props.regmodel import member
from sx.api import Harness

PRELOAD = ("dwave.gate.circuit", "dwave.gate.operations")
BOUNDS = (
    "circuits with up to 3 registers (4 in the thorough tier) of up to 2 qubits or bits each, whose labels and register labels are any texts (equal or "
    "not) or some numbers, tuples and their texts, bits with any value; any label, register and item asked for, also of another circuit or of the other kind"
)
OUTSIDE = "more registers or items; labels of other types than texts, integers, truth values and tuples of them"


def build(h, kind, sizes):
    """A circuit with registers of the sizes, and its model [label, [items], [labels]]."""
    c = h.circuit.Circuit()
    model = []
    for r, n in enumerate(sizes):
        label = h.atom(f"r{r}")
        for l, _, _ in model:
            h.assume(h.not_(h.eq(label, l)))
        (c.add_qregister if kind == "q" else c.add_cregister)(0, label)
        items, labels = [], []
        for i in range(n):
            t = h.atom(f"l{r}{i}")
            x = (h.prim.Qubit if kind == "q" else h.prim.Bit)(t)
            if kind == "c":
                v = h.choice(f"v{r}{i}", (None, 0, 1)) if i == 0 else None
                if v is not None:
                    x.set(v)
            (c.add_qubit if kind == "q" else c.add_bit)(x, label)
            items.append(x)
            labels.append(t)
        model.append((label, items, labels))
    return c, model


def find(h, kind, sizes, other):
    """Every item is found where it is; others are not found."""
    c, model = build(h, kind, sizes)
    f = c.find_qubit if kind == "q" else c.find_bit
    regs = c.qregisters if kind == "q" else c.cregisters
    n = 0
    for r, (label, items, _) in enumerate(model):
        for i, x in enumerate(items):
            got = f(x)
            h.check(got == (r, i) and isinstance(got, tuple), f"position of item {n}")
            l, j = f(x, True)
            h.check(h.eq(l, label) and j == i and regs[l][j] is x, f"register of item {n}")
            h.check(list(regs.values())[got[0]][got[1]] is x, f"item {n} at its position")
            n += 1
    if other == "foreign":
        y = (h.prim.Qubit if kind == "q" else h.prim.Bit)(h.atom("y"))
    elif other == "kind":
        y = (h.prim.Bit if kind == "q" else h.prim.Qubit)(h.atom("y"))
        (c.add_bit if kind == "q" else c.add_qubit)(y)
    elif other == "number":
        y = h.choice("y", (0, 1, None))
    else:
        # a copy of the label is not the item
        y = h.choice("y", [t for _, _, ls in model for t in ls] or ["0"])
    h.check_raises("finding an item that is not there", f, y, exc=ValueError)
    h.check_raises("finding an item that is not there", f, y, True, exc=ValueError)


def get(h, kind, sizes, ask, known):
    """Getting by label: the first or all, in order, in the register that is named or in all."""
    c, model = build(h, kind, sizes)
    g = c.get_qubit if kind == "q" else c.get_bit
    everything = [t for _, _, ls in model for t in ls]
    if known:
        want = everything[h.index("want", len(everything))]
    else:
        want = h.atom("want")
    chosen = model
    args = ()
    if ask == "named":
        r = h.index("register", len(model))
        args = (model[r][0],)
        chosen = [model[r]]
    elif ask == "unknown":
        l = h.atom("unknown")
        h.assume(h.not_(member(h, l, [m[0] for m in model])))
        h.check_raises("getting from an unknown register", g, want, l)
        h.check_raises("getting all from an unknown register", g, want, l, True)
        return
    hits = [x for _, items, ls in chosen for x, t in zip(items, ls) if bool(h.eq(t, want))]
    named = {("qreg_label" if kind == "q" else "creg_label"): args[0]} if args else {}
    if hits:
        h.check(g(want, *args) is hits[0], "first item with the label")
        h.check(g(want, **named) is hits[0], "first item with the label, named argument")
        got = g(want, *args, return_all=True) if args else g(want, return_all=True)
        h.check(isinstance(got, list), "all items are a list")
        h.check_same(got, hits, "all items with the label, in order")
    else:
        h.check_raises("getting a label that is not there", g, want, *args, exc=ValueError)
        h.check_raises("getting all of a label that is not there", lambda: g(want, **named, return_all=True), exc=ValueError)


def typed(h, kind):
    """Labels of other types are found exactly by equal labels."""
    pool = (1, "1", 2, (1,), "(1,)", True)
    c = h.circuit.Circuit()
    items, labels = [], []
    for i in range(2):
        t = h.choice(f"l{i}", pool)
        x = (h.prim.Qubit if kind == "q" else h.prim.Bit)(t)
        (c.add_qubit if kind == "q" else c.add_bit)(x, h.choice(f"r{i}", (0, "0")))
        items.append(x)
        labels.append(t)
    regs = list((c.qregisters if kind == "q" else c.cregisters).values())
    order = [x for r in regs for x in r]
    g = c.get_qubit if kind == "q" else c.get_bit
    want = h.choice("want", pool)
    where = h.choice("in", (None, 0, "0"))
    regs = c.qregisters if kind == "q" else c.cregisters
    pos = [x for x in (order if where is None else regs[where] if where in regs else [])]
    hits = [x for x in pos if labels[0 if x is items[0] else 1] == want]
    args = () if where is None else (where,)
    if where is not None and where not in regs:
        h.check_raises("getting from an unknown register", g, want, *args)
    elif hits:
        h.check(g(want, *args) is hits[0], "first item with the label")
        h.check_same(g(want, *args, return_all=True), hits, "all items with the label")
    else:
        h.check_raises("getting a label that is not there", g, want, *args, exc=ValueError)


def changed(h, kind):
    """Labels may change; items are found under their present ones."""
    c, model = build(h, kind, (1, 1))
    g = c.get_qubit if kind == "q" else c.get_bit
    x = model[0][1][0]
    y = model[1][1][0]
    new = h.atom("new")
    x.label = new
    h.assume(h.not_(h.eq(new, model[0][2][0])))
    h.check(g(new) is x, "item under its new label")
    if bool(h.eq(model[1][2][0], model[0][2][0])):
        h.check(g(model[0][2][0]) is y, "other item under the old label")
    else:
        h.check_raises("getting an old label", g, model[0][2][0], exc=ValueError)
    f = c.find_qubit if kind == "q" else c.find_bit
    h.check(f(x) == (0, 0) and f(y) == (1, 0), "positions")
    how = h.choice("then", ("register", "drop", "reset"))
    if how == "register":
        # items added later are found too
        (c.add_qregister if kind == "q" else c.add_cregister)(1, "later")
        z = list((c.qregisters if kind == "q" else c.cregisters)["later"])[0]
        h.check(f(z) == (2, 0) and f(z, True) == ("later", 0), "position of a later item")
        h.check(g("2", "later") is z, "later item by its label")
    elif how == "drop":
        c.reset(keep_registers=False)
        h.check_raises("finding after a reset", f, x, exc=ValueError)
        h.check_raises("getting after a reset", g, new, exc=ValueError)
    else:
        c.reset()
        h.check(f(x) == (0, 0) and f(y) == (1, 0) and g(new) is x, "after a reset")


def harnesses(tier):
    sizes = [(), (0,), (1,), (2,), (1, 1), (0, 2), (2, 1), (2, 2), (1, 1, 1)]
    if tier != "quick":
        sizes += [(0, 1, 2), (3, 1), (2, 2, 1), (1, 1, 1, 1)]
    out = []
    for kind in "qc":
        for s in sizes:
            t = "".join(map(str, s))
            for other in ("foreign", "kind", "number", "label"):
                out.append(Harness(f"find-{kind}{t}-{other}", find, kind=kind, sizes=s, other=other))
            for ask in ("any", "named", "unknown"):
                if ask == "named" and not s:
                    continue
                if sum(s):
                    out.append(Harness(f"get-{kind}{t}-{ask}-known", get, kind=kind, sizes=s, ask=ask, known=True))
                out.append(Harness(f"get-{kind}{t}-{ask}-any", get, kind=kind, sizes=s, ask=ask, known=False))
        out.append(Harness(f"typed-{kind}", typed, kind=kind))
        out.append(Harness(f"changed-{kind}", changed, kind=kind))
    return out
