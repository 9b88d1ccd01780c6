"""Properties of both classes and instances."""
from props.gates import ALIASES, GATES
from sx.api import Harness

PRELOAD = ("dwave.gate.mixedproperty", "dwave.gate.operations")
BOUNDS = (
    "functions of the class or of class and instance, declared plainly, with empty brackets or with `self_required` either way; read on a "
    "class, a subclass (which overrides class attributes or not), an instance of either or through super(), where instances may be "
    "empty or false; any values; assignment to every property of that kind of every gate and of gates the user derives, in any order with reads"
)
OUTSIDE = "deleting attributes; assignment to a property on the class where it was declared, other than to a gate's matrix"


def access(h, form, params, hidden, reads):
    """Reads evaluate the function with the right class and instance."""
    mp = h.lib("dwave.gate.mixedproperty").mixedproperty
    calls = []
    vc, vs, vi = (h.real(n, -9, 9) for n in ("class", "sub", "instance"))

    if params == 1:

        def f(cls):
            calls.append((cls, None))
            return cls.value

    elif params == 2:

        def f(cls, self):
            calls.append((cls, self))
            return cls.value if self is None else self.value

    else:

        def f(cls, self=None, *rest):
            calls.append((cls, self))
            return cls.value if self is None else self.value

    if form == "plain":
        prop = mp(f)
    elif form == "brackets":
        prop = mp()(f)
    elif form == "required":
        prop = mp(self_required=True)(f)
    elif form == "not required":
        prop = mp(self_required=False)(f)
    else:
        prop = mp(f, self_required=True)
    required = form in ("required", "both")

    class Base:
        value = vc
        p = prop

        def up(self):
            return super().__self__

    if hidden == "len":
        Base.__len__ = lambda self: 0
    elif hidden == "bool":
        Base.__bool__ = lambda self: False
    elif hidden == "eq":
        Base.__eq__ = lambda self, other: True
        Base.__hash__ = None

    class Sub(Base):
        def through(self):
            return super().p

        @classmethod
        def class_through(cls):
            return super().p

    override = h.flag("override")
    if override:
        Sub.value = vs
    for i in range(reads):
        where = h.choice("where", ("class", "sub", "instance", "sub instance", "super", "class super"))
        c = Base if where in ("class", "instance") else Sub
        o = None
        if where in ("instance", "sub instance", "super"):
            o = c()
            if h.flag("own value"):
                o.value = vi
        del calls[:]
        if where == "super":
            got = o.through()
        elif where == "class super":
            got = Sub.class_through()
        elif h.flag("getattr"):
            got = getattr(c if o is None else o, "p")
        else:
            got = c.p if o is None else o.p
        if required and params >= 2 and o is None:
            h.check(got is None, f"read on the {where}: nothing without an instance")
            h.check(not calls, f"read on the {where}: the function is not called")
            continue
        h.check(len(calls) == 1, f"read on the {where}: one evaluation")
        h.check(calls[0][0] is c, f"read on the {where}: the class is given")
        if params >= 2:
            h.check(calls[0][1] is o, f"read on the {where}: the instance is given")
            want = c.value if o is None else o.value
        else:
            want = c.value
        h.check(got is not None and h.eq(got, want), f"read on the {where}: value")
        if o is not None:
            had = dict(o.__dict__)
            assign = h.choice("assign", ("no", "other", "same"))
            if assign != "no":
                new = h.real("new", -9, 9) if assign == "other" else got
                h.check_raises(f"assignment on the {where}", setattr, o, "p", new, exc=AttributeError)
                h.check(o.__dict__ == had or (list(o.__dict__) == list(had) and all(o.__dict__[k] is had[k] for k in had)), "an assignment changes nothing")
                h.check(type(o).__mro__[1].__dict__["p"] is prop if c is Sub else Base.__dict__["p"] is prop, "the property is still there")
                again = o.p
                h.check(h.eq(again, want), "value after a refused assignment")


def same(h, a, b, msg):
    if a is None or b is None:
        return h.check(a is b, msg)
    if isinstance(a, (int, str, tuple, list)):
        return h.check(a == b, msg)
    h.check_matrix(h.tolist(a), h.tolist(b), msg)


def gate(h, kind, derived):
    """The properties of gates are read-only."""
    npar, nq, nc, matrix = GATES[kind]
    cls = getattr(h.ops, kind)
    if derived == "derived":
        cls = type("Derived", (cls,), {})
    elif derived == "controlled":
        if npar or nc or nq != 1:
            return h.check(True, "not applicable")
        cls = type("DerivedControlled", (h.ops.ControlledOperation,), {"_num_control": 1, "_num_target": 1, "_target_operation": cls})
    pars = [h.angle(f"p{i}", -7, 7) for i in range(npar)]
    made = h.flag("made")
    op = cls(pars) if npar else cls()
    names = [n for n in ("matrix", "num_qubits", "num_parameters", "num_control", "num_target", "label", "name", "control", "target") if hasattr(cls, n)]
    where = h.choice("where", ("class", "instance"))
    name = h.choice("name", [n for n in names if where == "instance" or n == "matrix"])
    obj = cls if where == "class" else op
    if where == "instance" and name not in ("matrix", "num_qubits", "num_parameters", "num_control", "num_target", "label"):
        return h.check(True, "not a property of both")
    mixed = h.lib("dwave.gate.mixedproperty").mixedproperty
    decl = next((c.__dict__[name] for c in cls.__mro__ if name in c.__dict__), None)
    if name != "matrix" and not isinstance(decl, (mixed, property)):
        return h.check(True, "not declared as a property of both")
    before = getattr(obj, name)
    on_class = getattr(cls, name)
    other = h.choice("value", ("number", "matrix", "none", "same"))
    value = {"number": h.real("v", -2, 2), "matrix": h.array([[0, 1], [1, 0]]), "none": None, "same": before}[other]
    h.check_raises(f"assignment of {name} on the {where}", setattr, obj, name, value, exc=(AttributeError, ValueError))
    same(h, getattr(obj, name), before, f"{name} on the {where} after a refused assignment")
    same(h, getattr(cls, name), on_class, f"{name} on the class after a refused assignment")
    if name == "matrix":
        new = cls(pars) if npar else cls()
        if derived != "controlled":
            h.check_matrix(h.tolist(new.matrix), matrix(h, *pars), "matrix of another instance")
        h.check_matrix(h.tolist(op.matrix), h.tolist(new.matrix), "matrix of the instance")


FILE = "dwave/gate/mixedproperty.py: mixedproperty."


def harnesses(tier):
    deep = tier != "quick"
    cov = [FILE + f for f in ("__init__", "__call__", "__get__", "__set__")]
    out = []
    for form in ("plain", "brackets", "required", "not required", "both"):
        for params in (1, 2, 3):
            for hidden in ("no", "len", "bool", "eq"):
                out.append(Harness(f"access-{form.replace(' ', '-')}-{params}-{hidden}", access, covers=cov, form=form, params=params, hidden=hidden, reads=2 if deep or hidden == "no" else 1))
    for kind in GATES:
        for derived in ("library", "derived", "controlled"):
            if derived == "controlled" and (GATES[kind][0] or GATES[kind][2] or GATES[kind][1] != 1):
                continue
            out.append(
                Harness(f"gate-{kind}-{derived}", gate, covers=["dwave/gate/operations/base.py: ABCLockedAttr.__setattr__", FILE + "__set__"], kind=kind, derived=derived)
            )
    return out
