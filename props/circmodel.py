"""A reference model of a circuit: its registers, operations and lock; and symbolic changes of it."""
from props.regmodel import member


class Model:
    def __init__(self):
        self.q, self.c = [], []  # [label, items] in creation order
        self.ops = []
        self.locked = False
        self.used = []  # every qubit and bit seen so far
        self.bits_set = {}  # id(bit) -> value

    def items(self, kind):
        return [x for _, r in getattr(self, kind) for x in r]

    def labels(self, kind):
        return [l for l, _ in getattr(self, kind)]

    def register(self, h, kind, label):
        """The register with the label, if any."""
        for l, r in getattr(self, kind):
            if bool(h.eq(l, label)):
                return r
        return None


def agree(h, c, m, msg):
    """The circuit is in the state of the model, seen from every public attribute."""
    for kind, regs, flat, num, cls, reg in (
        ("q", c.qregisters, c.qubits, c.num_qubits, h.prim.Qubit, h.regs.QuantumRegister),
        ("c", c.cregisters, c.bits, c.num_bits, h.prim.Bit, h.regs.ClassicalRegister),
    ):
        what = {"q": "quantum", "c": "classical"}[kind]
        want = getattr(m, kind)
        got = list(regs)
        h.check(len(got) == len(want), f"{msg}: {len(got)} {what} registers instead of {len(want)}")
        for g, (l, items) in zip(got, want):
            h.check(h.eq(g, l), f"{msg}: label of a {what} register")
            h.check(type(regs[l]) is reg, f"{msg}: kind of the {what} register")
            h.check_same(regs[l], items, f"{msg}: contents of a {what} register")
        items = m.items(kind)
        h.check(type(flat) is reg, f"{msg}: kind of all {what} items")
        h.check_same(flat, items, f"{msg}: all {what} items in order")
        h.check(len(flat) == len(items) and num == len(items), f"{msg}: number of {what} items")
        for i, x in enumerate(items):
            h.check(isinstance(x, cls), f"{msg}: type of a {what} item")
            h.check(flat[i] is x and x in flat and flat.index(x) == i, f"{msg}: {what} item {i}")
    h.check_same(c.circuit, m.ops, f"{msg}: operations")
    h.check(bool(c.is_locked()) == m.locked, f"{msg}: lock")
    for b in m.items("c"):
        v = m.bits_set.get(id(b))
        h.check(b.value == v if v is not None else b.value is None, f"{msg}: value of a bit")


def fresh(h, m, x, msg):
    for y in m.used:
        h.check(x is not y and not (x == y), f"{msg}: a new item that was there before")
    m.used.append(x)


def some_label(h, m, kind, tag, ways=("old", "new", "auto")):
    """A label that is used already, any label (perhaps a used one), or one such as the circuit itself makes."""
    labels = m.labels(kind)
    way = h.choice(tag + ".label", [w for w in ways if w != "old" or labels])
    if way == "old":
        return labels[h.index(tag + ".which", len(labels))]
    if way == "auto":
        # and labels that are false, or equal to others' texts
        return h.choice(tag + ".number", (f"{kind}reg0", f"{kind}reg1", 0, ""))
    return h.atom(tag + ".new")


def add_register(h, c, m, kind, tag, ways=("none", "old", "new", "auto"), size=2):
    """Add a register of any size with any label: accepted exactly if the label is new."""
    n = h.choice(tag + ".size", range(size + 1))
    add = c.add_qregister if kind == "q" else c.add_cregister
    if h.choice(tag + ".given", (True, False) if "none" in ways else (True,)):
        label = some_label(h, m, kind, tag, [w for w in ways if w != "none"])
        taken = bool(member(h, label, m.labels(kind)))
        call = lambda: add(n, label)
    else:
        label = None
        taken = False
        call = lambda: add(n)
    if taken:
        h.check_raises("a register label that is present", call, exc=ValueError)
        return "refused"
    call()
    if label is None:
        # a label that is not in use
        label = list(c.qregisters if kind == "q" else c.cregisters)[-1]
        h.check(h.not_(member(h, label, m.labels(kind))), "label given to a register")
    items = list((c.qregisters if kind == "q" else c.cregisters)[label])
    h.check(len(items) == n, "size of the new register")
    for x in items:
        fresh(h, m, x, "new register")
    getattr(m, kind).append((label, items))


def add_item(h, c, m, kind, tag, given=("none", "new", "set0", "set1"), ways=("none", "old", "new", "auto")):
    """Add a qubit or bit, given or not, to any register, named or not."""
    add = c.add_qubit if kind == "q" else c.add_bit
    what = h.choice(tag + ".item", [g for g in given if kind == "c" or not g.startswith("set")])
    if what == "none":
        x = None
    else:
        x = (h.prim.Qubit if kind == "q" else h.prim.Bit)("0")
        if what.startswith("set"):
            x.set(int(what[-1]))
            m.bits_set[id(x)] = int(what[-1])
    way = h.choice(tag + ".where", [w for w in ways if w != "old" or m.labels(kind)])
    label = None if way == "none" else some_label(h, m, kind, tag, (way,))
    regs = getattr(m, kind)
    if label is None:
        add(x) if x is not None else add()
        if not regs:
            regs.append((list(c.qregisters if kind == "q" else c.cregisters)[0], []))
        r = regs[0][1]
        label = regs[0][0]
    else:
        add(x, label)
        r = m.register(h, kind, label)
        if r is None:
            r = []
            regs.append((label, r))
    got = list((c.qregisters if kind == "q" else c.cregisters)[label])
    h.check(len(got) == len(r) + 1, "one item more in the register")
    new = got[-1]
    if x is not None:
        h.check(new is x, "the item that was given")
    fresh(h, m, new, "added item")
    r.append(new)


def reset(h, c, m, keep):
    c.reset() if keep else c.reset(keep_registers=False)
    m.ops, m.locked, m.bits_set = [], False, {}
    if not keep:
        m.q, m.c = [], []


def step(h, c, m, tag, kinds, size=1, light=False):
    """One change; returns what it was."""
    k = h.choice(tag, kinds)
    if k in ("qreg", "creg"):
        add_register(h, c, m, k[0], tag, *(("new",), 1) if light else (('none', 'old', 'new', 'auto'), size))
    elif k in ("qubit", "bit"):
        kind = "q" if k == "qubit" else "c"
        if light:
            add_item(h, c, m, kind, tag, ("none", "set0"), ("none", "old"))
        else:
            add_item(h, c, m, kind, tag)
    elif k == "keep":
        reset(h, c, m, True)
    elif k == "drop":
        reset(h, c, m, False)
    elif k == "op":
        qs = m.items("q")
        if qs and not m.locked:
            with c.context:
                m.ops.append(h.ops.X(qs[h.index(tag + ".target", len(qs))]))
            m.locked = True
    return k
