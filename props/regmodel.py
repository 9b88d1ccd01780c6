"""Shared pieces of the register properties: symbolic contents and the reference list."""


def label(h, name, kinds=("int", "atom"), lo=-1, hi=4):
    k = h.choice(name + ".kind", kinds) if len(kinds) > 1 else kinds[0]
    if k == "int":
        return h.int(name, lo, hi)
    if k == "atom":
        return h.atom(name)
    if k == "other":
        return h.choice(
            name + ".other",
            [1.0, 0.5, True, False, (0, 1), 2**63, -(2**80), 2.0**70, float("inf"), 1j, frozenset([1]), "ab"],
        )
    raise AssertionError(k)


def contents(h, n, kinds=("int", "atom"), lo=-1, hi=4, name="x"):
    """n pairwise distinct labels."""
    out = []
    for i in range(n):
        x = label(h, f"{name}{i}", kinds, lo, hi)
        for y in out:
            h.assume(h.not_(h.eq(x, y)))
        out.append(x)
    return out


# contents of more items: positions, a permutation of them, texts, and a mixture
LARGE = {
    "range": list(range(12)),
    "shuffled": [3, 7, 0, 11, 5, 1, 2, 9, 8, 10, 6, 4],
    "texts": list("klabcdefghij"),
    "mixed": ["a", 0, ("b", 1), 12, 5, "0", 2, -1, 8, "q", 6, 4],
}


def member(h, x, items):
    return h.any_of([h.eq(x, y) for y in items])


def agree(h, reg, model, msg, probe=None):
    """reg behaves as the list `model` of distinct items."""
    n = len(model)
    h.check(len(reg) == n, f"{msg}: length {len(reg)} instead of {n}")
    got = list(reg)
    h.check(len(got) == n, f"{msg}: iteration yields {len(got)} items instead of {n}")
    for i in range(n):
        h.check(h.eq(got[i], model[i]), f"{msg}: item {i} in iteration")
        h.check(h.eq(reg[i], model[i]), f"{msg}: item at position {i}")
        h.check(h.eq(reg[i - n], model[i]), f"{msg}: item at position {i - n}")
        h.check(model[i] in reg, f"{msg}: membership of item {i}")
        h.check(h.eq(reg.index(model[i]), i), f"{msg}: index of item {i}")
        h.check(h.eq(reg.count(model[i]), 1), f"{msg}: count of item {i}")
    h.check_raises(f"{msg}: position {n}", lambda: reg[n], exc=IndexError)
    h.check_raises(f"{msg}: position {-n - 1}", lambda: reg[-n - 1], exc=IndexError)
    if probe is not None:
        inside = bool(member(h, probe, model))
        h.check((probe in reg) == inside, f"{msg}: membership of another item")
        if inside:
            h.check(h.eq(reg[reg.index(probe)], probe), f"{msg}: index of another item")
        else:
            h.check(h.eq(reg.count(probe), 0), f"{msg}: count of an absent item")
            h.check_raises(f"{msg}: index of an absent item", reg.index, probe, exc=ValueError)


# ---------------------------------------------------------------- bits and variables with values
# such objects equal their values, but are not the labels they equal


def valued(h, name, what=("bit", "variable", "int")):
    """A bit or variable with any value or none, or an integer label."""
    k = h.choice(name + ".kind", what)
    if k == "int":
        return h.int(name, 0, 3)
    if k == "bit":
        x = h.prim.Bit(name)
        v = h.choice(name + ".value", (None, 0, 1))
    else:
        x = h.prim.Variable(name)
        v = h.int(name + ".value", -1, 3) if h.flag(name + ".set") else None
    if v is not None:
        x.set(v)
    return x


def is_int(x):
    return not hasattr(x, "value")


def same_label(h, x, y):
    if is_int(x) and is_int(y):
        return h.eq(x, y)
    return x is y


def agree_valued(h, reg, model, msg):
    n = len(model)
    h.check(len(reg) == n, f"{msg}: length")
    got = list(reg)
    h.check(len(got) == n, f"{msg}: length of the iteration")
    for i, x in enumerate(model):
        h.check(same_label(h, got[i], x), f"{msg}: item {i} in iteration")
        h.check(same_label(h, reg[i], x), f"{msg}: item at position {i}")
        h.check(x in reg and h.eq(reg.index(x), i), f"{msg}: index of item {i}")
    h.check_raises(f"{msg}: position {n}", lambda: reg[n], exc=IndexError)


def valued_contents(h, n, name="x", what=("bit", "variable", "int")):
    out = []
    for i in range(n):
        x = valued(h, f"{name}{i}", what)
        for y in out:
            h.assume(h.not_(same_label(h, x, y)))
        out.append(x)
    return out
