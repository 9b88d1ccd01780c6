"""Identifiers of qubits and bits."""
import math

from sx.api import Harness

PRELOAD = ("dwave.gate.tools.counters", "dwave.gate.primitives", "dwave.gate.circuit")
BOUNDS = (
    "the identifiers issued after one setting of the counter: any batch size from 1 to 40 (some up to 1000), initial lengths 1, 2, 4, "
    "18 and 33 to 40 (and the default), up to 80 draws, and until all identifiers are used up for lengths of 35 and more (34 in the "
    "thorough tier); batches taken out in any order for up to 4 draws, and from either end, the middle or alternating for longer "
    "ones; refreshes by hand in between"
)
OUTSIDE = "drawing again after the counter is set anew, which starts afresh by definition; batch sizes below one"

CHARS = 36


def order(h, name, draws):
    """The order in which identifiers are taken out of a batch."""
    if name == "any":
        h.set_pop(lambda n: h.index("pop", n))
    elif name == "first":
        h.set_pop(lambda n: 0)
    elif name == "middle":
        h.set_pop(lambda n: n // 2)
    elif name == "alternating":
        h.set_pop(lambda n: 0 if len(draws) % 2 else n - 1)


def draw(h, counter, kind):
    if kind == "next":
        return counter.next()
    prim = h.prim
    return (prim.Qubit("a") if kind == "qubit" else prim.Bit("b")).id


def distinct(h, ids, msg):
    h.check(all(isinstance(x, str) for x in ids), f"{msg}: identifiers are strings")
    h.check(len(set(ids)) == len(ids), f"{msg}: an identifier is issued twice")


def total(length):
    return sum(math.comb(CHARS, r) for r in range(length, CHARS + 1))


def start(h, length, batch):
    counter = h.lib("dwave.gate.tools.counters").IDCounter
    kw = {}
    if length is not None:
        kw["length"] = length
    if batch is not None:
        kw["batch"] = batch
    if kw or h.flag("reset"):
        counter.reset(**kw)
    return counter


def many(h, length, batches, pop, n, refreshes):
    """Draws of any number of identifiers, not reaching the last."""
    batch = h.int("batch", *batches) if isinstance(batches, tuple) else batches
    counter = start(h, length, batch)
    ids = []
    order(h, pop, ids)
    kinds = ("next", "qubit", "bit")
    off = h.index("kind", 3)
    stop = h.choice("draws", range(n[0], n[1] + 1)) if isinstance(n, tuple) else n
    by_hand = h.choice("refresh", (None,) + tuple(refreshes))
    while len(ids) < stop:
        if len(ids) == by_hand:
            counter.refresh()
        ids.append(draw(h, counter, kinds[(off + len(ids)) % 3]))
    distinct(h, ids, "draws")


def until(h, length, batches, pop):
    """Draws until all identifiers are used up."""
    batch = h.int("batch", *batches) if isinstance(batches, tuple) else batches
    counter = start(h, length, batch)
    ids = []
    order(h, pop, ids)
    n = total(length)
    for _ in range(n):
        try:
            ids.append(counter.next())
        except Exception as e:
            h.check(False, f"drawing fails after {len(ids)} of {n} identifiers: {type(e).__name__}: {e}")
    distinct(h, ids, "until the last")
    for i in range(3):
        h.check_raises("drawing when all are used up", draw, h, counter, ("next", "qubit", "bit")[i], exc=Exception)


def circuits(h, n):
    """Qubits and bits of circuits and registers made in any way."""
    counter = start(h, 4, h.choice("batch", (1, 2, 3)))
    order(h, h.choice("pop", ("first", "last")), [])
    items = []
    for i in range(n):
        how = h.choice(f"how{i}", ("circuit", "add_qubit", "add_bit", "register", "single"))
        if how == "circuit":
            c = h.circuit.Circuit(2, 1)
            items += list(c.qubits) + list(c.bits)
        elif how in ("add_qubit", "add_bit"):
            c = h.circuit.Circuit()
            getattr(c, how)()
            getattr(c, how)()
            items += list(c.qubits) + list(c.bits)
        elif how == "register":
            c = h.circuit.Circuit()
            c.add_qregister(2, "r")
            c.add_cregister(2, "s")
            items += list(c.qubits) + list(c.bits)
        else:
            items += [h.prim.Qubit("a"), h.prim.Bit("a")]
    distinct(h, [x.id for x in items], "identifiers of qubits and bits")


FILE = "dwave/gate/tools/counters.py: "


def harnesses(tier):
    deep = tier != "quick"
    cov = [FILE + f for f in ("IDCounter.next", "IDCounter.refresh", "IDCounter.reset")]
    out = []
    for length in (1, 2, 4, 18, 33):
        for pop in ("first", "last", "middle", "alternating") if deep else (("first", "last") if length in (1, 4) else ("alternating",)):
            for b in ((1, 40), 100) if deep else ((1, 12), 37):
                out.append(
                    Harness(f"many-{length}-{pop}-{b if isinstance(b, int) else 'any'}", many, covers=cov, length=length, batches=b, pop=pop, n=80, refreshes=(0, 5, 37))
                )
    out.append(Harness("many-default", many, covers=cov, length=None, batches=None, pop="last", n=40, refreshes=(1,)))
    for length in (1, 4, 35):
        out.append(Harness(f"any-order-{length}", many, covers=cov, length=length, batches=(1, 4), pop="any", n=(2, 5 if deep else 4), refreshes=(2,)))
    for length in (35, 36, 37, 40):
        for pop in ("first", "last") + (("middle", "alternating") if deep else ()):
            out.append(Harness(f"until-{length}-{pop}", until, covers=cov, length=length, batches=(1, 40), pop=pop))
        out.append(Harness(f"until-{length}-1000", until, covers=cov, length=length, batches=1000, pop="last"))
    if deep:
        for b in (1, 7, 100, 666, 667, 668, 1000):
            out.append(Harness(f"until-34-{b}", until, covers=cov, length=34, batches=b, pop="alternating"))
    out.append(Harness("circuits", circuits, n=3 if deep else 2))
    return out
