from props.regmodel import LARGE, agree, agree_valued, contents, label, member, same_label, valued_contents
from sx.api import Harness

PRELOAD = ("dwave.gate.registers.cyregister", "dwave.gate.registers.registers")
BOUNDS = (
    "two registers of up to 2 items each (compared, thorough: 3 and 2; combined: 3, thorough: 4 "
    "items together), every item any integer in [-1, 4] or any "
    "opaque string, or a bit or variable with any value or none; one probe; one change of an "
    "operand afterwards; selected registers of up to 12 items of which all but one agree"
)
OUTSIDE = (
    "longer registers; sets and lists as left operands other than those listed; the order of a "
    "result taken from an unordered set; hashing a register (registers are unhashable)"
)

CLS = ("Register", "QuantumRegister", "ClassicalRegister")


def both(h, n, m, kinds, cls):
    C = getattr(h.regs, cls)
    if n == "larger":
        # the same items in another order but for one
        x = list(LARGE[m])
        y = x[5:] + x[:5]
        k, v = h.choice("k", (0, 11)), h.int("v", 9, 13)
        h.assume(h.not_(member(h, v, y[:k] + y[k + 1 :])))
        y[k] = v
        if h.flag("less"):
            y = y[: h.choice("length", (1, 11))]
        return C(x), C(y), x, y
    x, y = contents(h, n, kinds, name="x"), contents(h, m, kinds, name="y")
    return C(x), C(y), x, y


def compare(h, n, m, kinds, cls):
    A, B, x, y = both(h, n, m, kinds, cls)
    sub = all(bool(member(h, v, y)) for v in x)
    sup = all(bool(member(h, v, x)) for v in y)
    dis = not any(bool(member(h, v, y)) for v in x)
    # registers of one kind compare as the sets of their items do
    h.check((A == B) is (sub and sup), "equal when they hold the same items")
    h.check((A != B) is not (sub and sup), "unequal when they do not")
    h.check((B == A) is (sub and sup), "equality is symmetric")
    h.check((A <= B) is sub, "contained in the other")
    h.check((A >= B) is sup, "containing the other")
    h.check((A < B) is (sub and not sup), "properly contained in the other")
    h.check((A > B) is (sup and not sub), "properly containing the other")
    h.check(A.isdisjoint(B) is dis, "disjointness")
    h.check(A == A and A <= A and not A < A, "a register compared with itself")
    h.check((A == list(x)) is False, "a register is not a list")
    agree(h, A, x, "first operand after a comparison")
    agree(h, B, y, "second operand after a comparison")


def combined(h, how, x, y):
    common = [v for v in x if bool(member(h, v, y))]
    left = [v for v in x if not any(v is c for c in common)]
    right = [v for v in y if not bool(member(h, v, x))]
    if how == "or":
        return x + right
    if how == "and":
        return [v for v in y if bool(member(h, v, x))]
    if how == "sub":
        return left
    return left + right


OPS = {
    "or": lambda a, b: a | b,
    "and": lambda a, b: a & b,
    "sub": lambda a, b: a - b,
    "xor": lambda a, b: a ^ b,
}


def same_set(h, reg, model, msg, probe=None):
    """reg holds the items of model in some order, each once, at consistent positions."""
    agree(h, reg, list(reg), msg, probe)
    h.check(len(reg) == len(model), f"{msg}: {len(reg)} items instead of {len(model)}")
    for i, v in enumerate(model):
        h.check(v in reg, f"{msg}: item {i} is missing")
    for v in reg:
        h.check(member(h, v, model), f"{msg}: unexpected item")


def combine(h, n, m, kinds, cls, how):
    A, B, x, y = both(h, n, m, kinds, cls)
    other = h.choice("other", ["register", "list"])
    if other == "list" and how in ("sub", "xor"):
        h.assume(False)
    R = OPS[how](A, B if other == "register" else list(y))
    want = combined(h, how, x, y)
    h.check(type(R) is type(A), "the result is a register of the same kind")
    same_set(h, R, want, how, label(h, "p", ("int",)))
    agree(h, A, x, "first operand afterwards")
    agree(h, B, y, "second operand afterwards")
    h.check(R is not A and R is not B, "the result is a register of its own")
    # and it is independent of both
    R.add("fresh")
    A.add("mine")
    agree(h, A, x + ["mine"], "first operand after changing both")
    agree(h, B, y, "second operand after changing the result")
    h.check("fresh" in R and not ("mine" in R), "the result after changing an operand")


def frozen(h, n, kinds, how):
    """Combining frozen registers gives a register that can be used as usual."""
    A, B, x, y = both(h, n, 1, kinds, "QuantumRegister")
    A.freeze()
    B.freeze()
    R = OPS[how](A, B)
    same_set(h, R, combined(h, how, x, y), how)
    h.check(A.frozen and B.frozen and not R.frozen, "operands stay frozen, the result is not")
    R.add("fresh")
    agree(h, A, x, "frozen operand")


def backwards(h, n, kinds, cls):
    x = contents(h, n, kinds)
    A = getattr(h.regs, cls)(x)
    got = list(reversed(A))
    h.check(len(got) == n, "length of the reversed register")
    for i in range(n):
        h.check(h.eq(got[i], x[n - 1 - i]), f"item {i} of the reversed register")
    agree(h, A, x, "register after reversing")
    p = label(h, "p", ("int",))
    h.check(h.eq(A.count(p), 1 if bool(member(h, p, x)) else 0), "count of an item")
    h.check(bool(A) is (n > 0), "truth value")
    data = A.data
    h.check(len(data) == n, "length of the data")
    for i in range(n):
        h.check(h.eq(data[i], x[i]), f"item {i} of the data")


def values(h, n, m):
    """Bits and variables with values are told apart from equal values."""
    x = valued_contents(h, n, "x")
    k = h.choice("shared", range(min(n, m) + 1))
    y = x[:k] + valued_contents(h, m - k, "y")
    for i, a in enumerate(y):
        for b in y[:i] + (x[k:] if i >= k else []):
            h.assume(h.not_(same_label(h, a, b)))
    if k < m:
        for a in y[k:]:
            for b in x:
                h.assume(h.not_(same_label(h, a, b)))
    A, B = h.regs.Register(x), h.regs.Register(y)
    h.check((A == B) is (k == n == m), "equality of registers of items with values")
    h.check((A <= B) is (k == n), "containment of registers of items with values")
    h.check(A.isdisjoint(B) is (k == 0), "disjointness of registers of items with values")
    agree_valued(h, A - B, x[k:], "difference")
    agree_valued(h, A & B, x[:k], "intersection")
    agree_valued(h, A | B, x + y[k:], "union")
    agree_valued(h, A ^ B, x[k:] + y[k:], "symmetric difference")


def harnesses(tier):
    out = []
    two = ("int", "atom")
    sizes = [(0, 1), (1, 1), (2, 1), (2, 2), (1, 2)]
    if tier == "thorough":
        sizes += [(3, 2), (3, 1)]
    for i, (n, m) in enumerate(sizes):
        kinds = two if n + m <= 3 else ("int",)
        out.append(Harness(f"compare-{n}-{m}", compare, n=n, m=m, kinds=kinds, cls=CLS[i % 3], max_paths=200000))
        for how in OPS:
            if n + m > (3 if tier == "quick" else 4):
                continue
            kd = two if n + m <= 2 or tier == "thorough" and n + m <= 3 else ("int",)
            out.append(Harness(f"{how}-{n}-{m}", combine, n=n, m=m, kinds=kd, cls=CLS[(i + 1) % 3], how=how, max_paths=200000))
    for how in OPS:
        out.append(Harness(f"frozen-{how}", frozen, n=2 if tier == "thorough" else 1, kinds=two, how=how))
    for i, what in enumerate(("shuffled", "range", "mixed")):
        out.append(Harness(f"compare-larger-{what}", compare, n="larger", m=what, kinds=(), cls=CLS[i % 3]))
        for how in OPS if what == "shuffled" or tier != "quick" else ():
            out.append(Harness(f"{how}-larger-{what}", combine, n="larger", m=what, kinds=(), cls=CLS[i % 3], how=how))
    for n in range(4):
        out.append(Harness(f"backwards-{n}", backwards, n=n, kinds=two if n < 3 else ("int",), cls=CLS[n % 3]))
    for n, m in ((1, 1), (2, 1)) if tier == "quick" else ((1, 1), (2, 1), (2, 2)):
        out.append(Harness(f"values-{n}-{m}", values, n=n, m=m))
    for h in out:
        h.bounds = str(h.params)
    return out
