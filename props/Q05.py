"""Compilation histories of QIR modules."""
from props.qir import Program, calls_of, stubs
from sx.api import Harness

PRELOAD = ("dwave.gate.qir.compiler", "dwave.gate.qir.instructions")
BOUNDS = (
    "modules of 2 qubits and 2 results; every history of up to 4 (5 in the thorough tier) steps out of adding gates with any parameter, "
    "external functions and calls, measurements with outputs, compiling with and without force, resetting with and without removal, "
    "reading the text and the bitcode, and compilations that fail; every pair of instructions out of kind, name and up to 2 parameters, 2 qubits and 2 results; "
    "PyQIR is represented by a stand-in with the same interface for symbolic parameters and by itself in every replay"
)
OUTSIDE = (
    "instructions added after compiling, which take effect when compiled again (checked); external functions with results; returns of other values, which the compilation "
    "refuses (checked); parameters that are no real numbers; declarations of functions that no instruction calls; PyQIR itself"
)


def lib(h):
    return h.lib("dwave.gate.qir.compiler"), h.lib("dwave.gate.qir.instructions")


class Model:
    def __init__(self):
        self.body, self.meas, self.out, self.functions = [], [], [], set()
        self.compiled = None

    def program(self):
        return list(self.body), list(self.meas), list(self.out)


def read(h, text, bitcode, model, what):
    body, meas, out = model
    prog = Program(h, text, bitcode)
    got = calls_of(h, prog)
    h.check(len(got) == len(body) + len(meas), f"{what}: one call for every instruction")
    for (name, pars, qubits, results), (n, ps, qs) in zip(got, body):
        h.check(name == n, f"{what}: name of an instruction")
        h.check(len(pars) == len(ps) and h.all_of([h.eq(a, b) for a, b in zip(pars, ps)]), f"{what}: parameters")
        h.check(qubits == qs and not results, f"{what}: qubits")
    for (name, pars, qubits, results), (q, b) in zip(got[len(body) :], meas):
        h.check((name, pars, qubits, results) == ("mz", [], [q], [b]), f"{what}: measurement")
    h.check(prog.outputs == out, f"{what}: outputs")
    h.check(prog.required == (2, 2), f"{what}: required numbers")


def history(h, steps, first=(), n=0):
    C, I = lib(h)
    T = I.InstrType
    m = C.BaseModule("history", 2, 2)
    w = Model()

    def step(k, s):
        if s == "gate":
            q = h.index(f"q{k}", 2)
            m.add_instruction("body", I.Instruction(T.BASE, "y", [m.qubits[q]]))
            w.body.append(("y", [], [q]))
        elif s == "rotation":
            p = h.real(f"p{k}", -9, 9)
            m.add_instruction("body", I.Instruction(T.BASE, "rz", [p, m.qubits[1]]))
            w.body.append(("rz", [p], [1]))
        elif s == "measure":
            b = h.index(f"b{k}", 2)
            m.add_instruction("measurements", I.Instruction(T.MEASUREMENT, "mz", (m.qubits[0], m.results[b])))
            m.add_instruction("output", I.Instruction(T.OUTPUT, "out", [m.results[b]]))
            w.meas.append((0, b))
            w.out.append(b)
        elif s in ("external", "banana"):
            name = {"external": "apple", "banana": "banana"}[s]
            ext = s == "external"
            if name not in w.functions:
                h.check_raises("unknown function", m.get_external_instruction, name, [m.qubits[0]], exc=ValueError)
                m.add_external_function(name, ([m.Types.DOUBLE] if ext else []) + [m.Types.QUBIT] * 2)
                w.functions.add(name)
            q = h.perm(f"e{k}.", range(2), 2)
            ps = [h.real(f"ep{k}", -9, 9)] if ext else []
            m.add_instruction("body", m.get_external_instruction(name, ps + [m.qubits[i] for i in q]))
            w.body.append((name, ps, q))
        elif s == "compile":
            if w.compiled is not None:
                h.check_raises("compiled twice", m.compile, exc=C.CompileError)
            else:
                m.compile()
                w.compiled = w.program()
        elif s == "force":
            m.compile(force=True)
            w.compiled = w.program()
        elif s in ("keep", "clear", "clear default"):
            if s == "clear default":
                m.reset()
            else:
                m.reset(rm_instructions=s == "clear")
            w.compiled = None
            if s != "keep":
                w.body, w.meas, w.out, w.functions = [], [], [], set()
        elif s in ("qir", "bitcode"):
            t = m.qir if s == "qir" else m.bitcode
            if w.compiled is None:
                w.compiled = w.program()
            read(h, t, s == "bitcode", w.compiled, s)
        elif s == "fail":
            # a program that cannot be compiled is refused and can be repaired
            if w.compiled is None:
                m.set_return(m.results[0])
                h.check_raises("a value is returned", m.compile, exc=C.CompileError)
                h.check_raises("return set twice", m.set_return, m.results[1], exc=ValueError)
                m.set_return(None, force=True)

        elif s in ("return, keep", "return, clear"):
            m.set_return(m.results[0], force=True)
            m.reset(rm_instructions=s == "return, clear")
            w.compiled = None
            if s == "return, keep":
                h.check_raises("return kept by a reset that keeps the instructions", m.set_return, m.results[1], exc=ValueError)
                h.check_raises("a value is returned", m.compile, exc=C.CompileError)
            else:
                w.body, w.meas, w.out, w.functions = [], [], [], set()
                m.set_return(m.results[1])
            m.set_return(None, force=True)

    for k, s in enumerate(first):
        step(f"f{k}", s)
    for k in range(n):
        step(k, h.choice(f"s{k}", steps))
    t = m.qir
    if w.compiled is None:
        w.compiled = w.program()
    read(h, t, False, w.compiled, "text")
    read(h, m.bitcode, True, w.compiled, "bitcode")
    m.compile(force=True)
    read(h, m.qir, False, w.program(), "compiled again")
    read(h, m.bitcode, True, w.program(), "bitcode of the module compiled again")
    h.check(m.name == "history" and len(m.qubits) == 2 and len(m.results) == 2, "name, qubits and results stay")


def shared(h):
    """Instructions shared by two modules belong to each of them."""
    C, I = lib(h)
    ctx = h.lib("pyqir").Context()
    a, b = C.BaseModule("a", 2, 2, context=ctx), C.BaseModule("b", 2, 2, context=ctx)
    p = h.real("p", -9, 9)
    for m in (a, b):
        m.add_external_function("apple", [m.Types.DOUBLE, m.Types.QUBIT])
    q = h.index("q", 2)
    x = I.Instruction(I.InstrType.BASE, "rx", [p, a.qubits[q]])
    a.add_instruction("body", x)
    a.add_instruction("body", a.get_external_instruction("apple", [p, a.qubits[0]]))
    b.add_instruction("body", x)
    if h.flag("first"):
        a.compile()
    if h.flag("reset"):
        a.reset(rm_instructions=h.flag("clear"))
    else:
        a.compile(force=True)
    want = ([("rx", [p], [q])], [], [])
    read(h, b.qir, False, want, "the other module")
    read(h, b.bitcode, True, want, "the other module")


def same(h, kinds, names, npar, nq, nr, ints=False):
    """Instructions are equal exactly when kind, name, parameters and numbers of qubits and results agree."""
    C, I = lib(h)
    px = h.lib("pyqir")
    ctx = px.Context()

    def make(t):
        kind, name = h.choice(f"{t}.kind", kinds), h.choice(f"{t}.name", names)
        ps = [h.int(f"{t}.p{i}", -9, 9) if ints and h.flag(f"{t}.p{i}.int") else h.real(f"{t}.p{i}", -9, 9) for i in range(h.index(f"{t}.np", npar + 1))]
        qs = [px.qubit(ctx, h.index(f"{t}.q{i}", 2)) for i in range(h.index(f"{t}.nq", nq + 1))]
        rs = [px.result(ctx, h.index(f"{t}.r{i}", 2)) for i in range(h.index(f"{t}.nr", nr + 1))]
        return I.Instruction(getattr(I.InstrType, kind), name, ps + qs + rs), (kind, name, ps, len(qs), len(rs))

    x, a = make("a")
    y, b = make("b")
    h.check(x == x and not x != x, "an instruction equals itself")
    want = h.all_of([a[:2] == b[:2], a[3:] == b[3:], len(a[2]) == len(b[2])] + [h.eq(p, q) for p, q in zip(a[2], b[2])])
    got = bool(x == y)
    h.check(want if got else h.not_(want), "equal exactly when kind, name, parameters and numbers agree")
    h.check(bool(y == x) == got and bool(x != y) == (not got), "equality is symmetric")


def other(h):
    C, I = lib(h)
    px = h.lib("pyqir")
    x = I.Instruction(I.InstrType.BASE, "x", [px.qubit(px.Context(), h.index("q", 2))])
    for o in (None, 0, "x", [x], ("x", I.InstrType.BASE)):
        h.check(not (x == o) and x != o, "an instruction differs from other objects")
    h.check(x in [None, x], "instructions can be found among other objects")


def types(h, t):
    C, I = lib(h)
    px = h.lib("pyqir")
    kind = getattr(I.InstrType, h.choice("kind", ("BASE", "MEASUREMENT", "OUTPUT")))
    bad = {"text": "0.5", "none": None, "complex": 1j, "list": [0.5], "object": object()}[t]
    q = px.qubit(px.Context(), 1)
    args = [bad, q] if h.flag("front") else [q, bad]
    h.check_raises("arguments of other types", I.Instruction, kind, "x", args, exc=TypeError)
    h.check_raises("external instruction without function", I.Instruction, I.InstrType.EXTERNAL, "x", [q], exc=ValueError)


def harnesses(tier):
    deep = tier != "quick"
    cov = ["dwave/gate/qir/compiler.py: BaseModule." + f for f in ("compile", "_compile", "reset", "add_instruction", "add_external_function", "get_external_instruction", "set_return")] + [
        "dwave/gate/qir/instructions.py: Instruction." + f for f in ("__init__", "execute", "_execute_qis", "_execute_external")
    ]
    eqc = ["dwave/gate/qir/instructions.py: Instruction.__eq__"]
    n = 4 if deep else 3
    out = []

    def add(name, fn=history, covers=cov, **k):
        out.append(Harness(name, fn, covers=covers, **k))

    add("gates", steps=("gate", "compile", "force", "keep", "clear", "qir"), first=("rotation",), n=n)
    add("externals", steps=("external", "banana", "compile", "force", "keep", "clear default"), first=("external", "gate"), n=n)
    add("two-externals", steps=("banana", "compile", "force", "keep", "qir"), first=("banana", "external", "banana"), n=n)
    add("only-externals", steps=("external", "force", "keep", "bitcode"), first=("external", "external"), n=n)
    add("measurements", steps=("measure", "gate", "compile", "force", "keep", "clear"), first=("measure",), n=n)
    add("readings", steps=("rotation", "qir", "bitcode", "compile", "keep", "clear"), first=("gate",), n=n)
    add("failures", steps=("fail", "external", "qir", "force", "keep", "clear"), first=("external",), n=n)
    add("returns", steps=("return, keep", "return, clear", "gate", "qir", "keep"), first=("external",), n=n)
    add("equality-integers", same, covers=eqc, kinds=("BASE",), names=("rx",), npar=2, nq=1, nr=0, ints=True)
    add("fresh", steps=("keep", "clear", "clear default", "force", "compile", "gate"), n=n)
    add("shared", shared)
    for ks, ns, k in ((("BASE", "MEASUREMENT"), ("rx", "rz"), (1, 1, 0)), (("BASE", "OUTPUT"), ("x",), (0, 2, 1)), (("BASE",), ("rot", "crot"), (2, 1, 0)), (("MEASUREMENT",), ("mz",), (0, 1, 2))):
        add(f"equality-{'-'.join(ks)}-{ns[0]}", same, covers=eqc, kinds=ks, names=ns, npar=k[0], nq=k[1], nr=k[2])
    add("other-objects", other, covers=eqc)
    for t in ("text", "none", "complex", "list", "object"):
        add(f"types-{t}", types, covers=["dwave/gate/qir/instructions.py: Instruction._assert_args"], t=t)
    return out
