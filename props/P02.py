"""Equality, hashes and values of qubits, bits and variables."""
import copy

from sx.api import Harness

PRELOAD = ("dwave.gate.primitives",)
BOUNDS = (
    "two qubits, bits or variables each, new or copied, with any labels (texts, integers, tuples) before and after changes; any names of variables; "
    "any complex or real or integer value; up to 4 settings and resets in any order"
)
OUTSIDE = (
    "variables and bits with values compared to objects other than numbers, texts, qubits, bits and variables; hashes of a bit or "
    "variable and of the value it equals, which differ; classes derived from qubits and bits; values that are not numbers"
)


def label(h, name):
    k = h.choice(name + ".kind", ("text", "int", "tuple", "none"))
    if k == "text":
        return h.atom(name)
    if k == "int":
        return h.int(name, -3, 3)
    if k == "tuple":
        return (h.atom(name), 1)
    return None


def relations(h, a, b, equal, msg):
    h.check((a == b) == equal, f"{msg}: equality")
    h.check((b == a) == equal, f"{msg}: equality the other way")
    h.check((a != b) == (not equal), f"{msg}: inequality")
    h.check((b != a) == (not equal), f"{msg}: inequality the other way")
    if equal:
        h.check(h.eq(h.hash(a), h.hash(b)), f"{msg}: equal objects have equal hashes")


def identities(h, kinds):
    """Qubits and bits are what their identifiers are."""
    def make(kind, name):
        return getattr(h.prim, kind)(label(h, name))

    a = make(kinds[0], "a")
    how = h.choice("how", ("new", "copy", "deepcopy", "same")) if kinds[0] == kinds[1] else "new"
    if how == "new":
        b = make(kinds[1], "b")
        if h.flag("same label"):
            b.label = a.label
    elif how == "copy":
        b = copy.copy(a)
    elif how == "deepcopy":
        b = copy.deepcopy(a)
    else:
        b = a
    equal = how != "new"
    old = h.hash(a), a.id
    relations(h, a, b, equal, "at first")
    if h.flag("relabel"):
        l = label(h, "c")
        a.label = l
        h.check_same([a.label], [l], "label")
        relations(h, a, b, equal, "relabelled")
    for x, k in ((a, kinds[0]), (b, kinds[1])):
        if k == "Bit":
            v = h.choice("value", (None, 0, 1))
            if v is not None:
                x.set(v, force=True)
    if kinds[0] == "Bit" or kinds[1] == "Bit":
        relations(h, a, b, equal, "with values")
    h.check(h.eq(h.hash(a), old[0]) and a.id == old[1], "hash and identifier stay the same")
    d = h.mapping([(a, 1)])
    h.check((b in d) == equal, "membership of a mapping")
    for x in (a.id, a.label, None, 5, str(a), repr(a)):
        if kinds[0] == "Qubit" or a.value is None or isinstance(x, str):
            h.check(not (a == x) and a != x and not (x == a), "a qubit or unset bit is not another object")


def values(h, n):
    """Values of bits through settings and resets."""
    b = h.prim.Bit(h.atom("l"))
    value = None

    def agree(msg):
        h.check(b.value == value and (b.value is None) == (value is None), f"{msg}: value")
        h.check(value is None or type(b.value) is int, f"{msg}: an integer")
        for x in (0, 1, 0.0, 1.0, False, True):
            h.check((b == x) == (value is not None and value == x), f"{msg}: equals its value")
            h.check((x == b) == (value is not None and value == x), f"{msg}: its value equals it")
            h.check((b != x) == (not (value is not None and value == x)), f"{msg}: differs from other values")
        for x in (2, -1, None, "0", "1", ""):
            h.check(not (b == x) and b != x, f"{msg}: equals nothing else")
        if value is not None:
            h.check(bool(b) == bool(value), f"{msg}: truth value")

    agree("new")
    for i in range(n):
        op = h.choice(f"op{i}", ("set", "int", "force", "reset"))
        if op == "reset":
            b.reset()
            value = None
        else:
            v = h.int(f"v{i}", -2, 3) if op == "int" else h.choice(f"v{i}", (0, 1, True, False, "", "x", 0.0, 0.5, None))
            how = h.choice(f"how{i}", ("plain", "named")) if op != "force" else h.choice(f"how{i}", ("positional", "named force"))
            args, kw = (v,), {}
            if how == "named":
                kw["force"] = False
            elif how == "positional":
                args = (v, True)
            elif how == "named force":
                kw["force"] = True
            if op != "force" and value is not None:
                h.check_raises(f"setting {i + 1}: overwriting", b.set, *args, exc=ValueError, **kw)
            else:
                b.set(*args, **kw)
                value = 1 if v else 0
        agree(f"after step {i + 1}")


def number(h, name):
    k = h.choice(name + ".kind", ("real", "int", "complex", "zero", "one"))
    if k == "real":
        return h.real(name, -5, 5)
    if k == "int":
        return h.int(name, -3, 3)
    if k == "complex":
        return h.cplx(name, 5)
    return 0 if k == "zero" else 1.0


def variables(h, n):
    """Names decide about variables, values about numbers."""
    names = []
    for i in range(2):
        k = h.choice(f"kind{i}", ("text", "int"))
        names.append(h.atom(f"n{i}") if k == "text" else h.choice(f"n{i}", (0, 1)))
    vs = [h.prim.Variable(x) for x in names]
    for v, x in zip(vs, names):
        h.check(h.eq(v.name, x) if not isinstance(x, int) else v.name == str(x), "name")
    same = h.eq(vs[0].name, vs[1].name)
    same = bool(same)
    val = [None, None]
    old = [h.hash(v) for v in vs]

    def agree(msg):
        relations(h, vs[0], vs[1], same, msg)
        for v, w in zip(vs, val):
            h.check((v.value is None) == (w is None), f"{msg}: whether a value is set")
            if w is None:
                for x in (0, 0.0, 1, None, False, ""):
                    h.check(not (v == x) and v != x, f"{msg}: no value equals an unset variable")
            else:
                h.check(h.eq(v.value, w), f"{msg}: value")
        h.check(h.all_of([h.eq(h.hash(v), o) for v, o in zip(vs, old)]), f"{msg}: hashes stay the same")

    agree("new")
    for i in range(n):
        j = h.index(f"which{i}", 2)
        if h.flag(f"reset{i}"):
            vs[j].reset()
            val[j] = None
        else:
            val[j] = number(h, f"v{i}")
            vs[j].set(val[j])
        agree(f"after step {i + 1}")
    x = number(h, "x")
    for v, w in zip(vs, val):
        want = False if w is None else bool(h.eq(w, x))
        h.check(bool(v == x) == want, "a variable equals its value only")
        h.check(bool(v != x) == (not want), "a variable differs from any other value")
        if not isinstance(x, int):
            h.check(bool(x == v) == want, "its value equals a variable")
    h.check((vs[1] in h.mapping([(vs[0], 1)])) == same, "membership of a mapping")


FILE = "dwave/gate/primitives.py: "


def harnesses(tier):
    deep = tier != "quick"
    out = []
    for a in ("Qubit", "Bit"):
        for b in ("Qubit", "Bit"):
            if (a, b) != ("Bit", "Qubit"):
                out.append(
                    Harness(f"identities-{a}-{b}", identities, covers=[FILE + f"{c}.{f}" for c in {a, b} for f in ("__eq__", "__hash__", "label", "id")], kinds=(a, b))
                )
    for n in (1, 2, 3) if deep else (1, 2):
        out.append(Harness(f"values-{n}", values, covers=[FILE + "Bit." + f for f in ("set", "reset", "value", "__eq__", "__bool__")], n=n))
    for n in (0, 1, 2, 3) if deep else (0, 1, 2):
        out.append(Harness(f"variables-{n}", variables, covers=[FILE + "Variable." + f for f in ("set", "reset", "value", "name", "__eq__", "__hash__")], n=n))
    return out
