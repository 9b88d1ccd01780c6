"""OpenQASM 2.0: reader, and the meaning of the gates of the standard library (qelib1.inc).

Written from the language paper (arXiv:1707.03429), independent of the code under test.
"""
import math
import re

from props.gates import ID, X, Y, Z, _ctrl, had, mul, rx, ry, rz, tgate

TOKEN = re.compile(r'\s+|//[^\n]*|(\u27ea\d+\u27eb)|((?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)|([A-Za-z_][A-Za-z0-9_]*)|("[^"]*")|(->|==|[-+*/^(){}\[\],;])')


# not usable as names
RESERVED = {
    "OPENQASM", "include", "qreg", "creg", "gate", "opaque", "measure", "barrier", "if", "reset", "pi",
    "U", "CX", "sin", "cos", "tan", "exp", "ln", "sqrt",
}


class BadText(Exception):
    """The text is not OpenQASM 2.0."""


def scan(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise BadText(f"unexpected text {text[i:i + 20]!r}")
        for k, kind in enumerate(("value", "number", "name", "string", "sign")):
            if m.group(k + 1) is not None:
                out.append((kind, m.group(k + 1)))
        i = m.end()
    out.append(("end", ""))
    return out


class Reader:
    """Program: .version, .includes, .gates {name: (parameters, qubits, body)}, .items in text order.

    An item is ("gate", name) for a definition, ("qreg"|"creg", name, size), ("apply", gate,
    [parameters], [(register, index or None)]), ("measure", source, destination) or ("barrier", qubits).
    With lenient=True a gate body may name qubits as q[0], q[1].. without declaring them.
    """

    def __init__(self, h, text, lenient=False):
        self.h, self.lenient = h, lenient
        self.t = scan(text)
        self.i = 0
        self.version, self.includes, self.gates, self.items = None, [], {}, []
        self.defined = []
        self.program()

    # ------------------------------------------------------------ tokens
    def peek(self, s):
        return self.t[self.i][1] == s and self.t[self.i][0] in ("sign", "name")

    def take(self, kind=None, what=None):
        k, v = self.t[self.i]
        if (kind and k != kind) or (what is not None and v != what):
            raise BadText(f"{what or kind} expected, found {v!r}")
        self.i += 1
        return v

    def accept(self, what):
        if self.peek(what):
            self.i += 1
            return True
        return False

    # ------------------------------------------------------------ expressions
    def expr(self, env):
        v = self.term(env)
        while True:
            if self.accept("+"):
                v = v + self.term(env)
            elif self.accept("-"):
                v = v - self.term(env)
            else:
                return v

    def term(self, env):
        v = self.factor(env)
        while True:
            if self.accept("*"):
                v = v * self.factor(env)
            elif self.accept("/"):
                v = v / self.factor(env)
            else:
                return v

    def factor(self, env):
        if self.accept("-"):
            return -1 * self.factor(env)
        if self.accept("+"):
            return self.factor(env)
        if self.accept("("):
            v = self.expr(env)
            self.take("sign", ")")
            return v
        k, s = self.t[self.i]
        self.i += 1
        if k == "value":
            return self.h.text(s)
        if k == "number":
            return float(s) if re.search("[.eE]", s) else int(s)
        if k == "name":
            if env is not None and s in env:
                return env[s]
            if s == "pi":
                return math.pi
        raise BadText(f"expression expected, found {s!r}")

    def exprs(self, env):
        out = []
        if self.accept("("):
            if not self.accept(")"):
                out.append(self.expr(env))
                while self.accept(","):
                    out.append(self.expr(env))
                self.take("sign", ")")
        return out

    def skip_exprs(self, names):
        """Position of the parameter expressions (evaluated when the definition is applied)."""
        start = self.i
        self.exprs(dict.fromkeys(names, 1))
        return start

    # ------------------------------------------------------------ statements
    def argument(self):
        r = self.take("name")
        if r in RESERVED or not r[0].islower():
            raise BadText(f"{r!r} is not a name")
        if self.accept("["):
            k = int(self.take("number"))
            self.take("sign", "]")
            return (r, k)
        return (r, None)

    def arguments(self):
        out = [self.argument()]
        while self.accept(","):
            out.append(self.argument())
        return out

    def program(self):
        self.take("name", "OPENQASM")
        self.version = self.take("number")
        self.take("sign", ";")
        while self.t[self.i][0] != "end":
            self.statement()

    def statement(self):
        if self.accept("include"):
            self.includes.append(self.take("string").strip('"'))
            self.take("sign", ";")
        elif self.peek("qreg") or self.peek("creg"):
            kind = self.take("name")
            r, k = self.argument()
            if k is None:
                raise BadText("register without a size")
            self.take("sign", ";")
            self.items.append((kind, r, k))
        elif self.accept("gate"):
            self.definition()
        elif self.accept("measure"):
            a = self.argument()
            self.take("sign", "->")
            b = self.argument()
            self.take("sign", ";")
            self.items.append(("measure", a, b))
        elif self.accept("barrier"):
            a = self.arguments()
            self.take("sign", ";")
            self.items.append(("barrier", a))
        elif self.peek("if") or self.peek("reset") or self.peek("opaque"):
            raise BadText(f"unsupported statement {self.t[self.i][1]!r}")
        else:
            name = self.take("name")
            pars = self.exprs(None)
            args = self.arguments()
            self.take("sign", ";")
            self.items.append(("apply", name, pars, args))

    def definition(self):
        name = self.take("name")
        pars = []
        if self.accept("("):
            if not self.accept(")"):
                pars.append(self.take("name"))
                while self.accept(","):
                    pars.append(self.take("name"))
                self.take("sign", ")")
        qubits = []
        if not (self.lenient and self.peek("{")):
            qubits.append(self.take("name"))
            while self.accept(","):
                qubits.append(self.take("name"))
        self.take("sign", "{")
        body = []
        while not self.accept("}"):
            g = self.take("name")
            at = self.skip_exprs(pars)
            args = self.arguments()
            self.take("sign", ";")
            for r, k in args:
                if k is not None and not self.lenient:
                    raise BadText(f"definition of {name} names the qubit {r}[{k}]")
                if k is None and r not in qubits:
                    raise BadText(f"definition of {name} uses the unknown qubit {r}")
            body.append((g, at, [k if k is not None else qubits.index(r) for r, k in args]))
        if not qubits:
            qubits = list(range(1 + max((q for _, _, a in body for q in a), default=0)))
        self.gates[name] = (pars, qubits, body)
        self.defined.append(name)
        self.items.append(("gate", name))

    # ------------------------------------------------------------ meaning
    def matrix(self, name, values):
        """Matrix of a gate application (first qubit most significant), up to a global phase."""
        h = self.h
        if name not in self.gates:
            if name not in STANDARD:
                raise BadText(f"gate {name} is not defined")
            npar, nq, fn = STANDARD[name]
            if npar != len(values):
                raise BadText(f"gate {name} takes {npar} parameters, got {len(values)}")
            return fn(h, *values)
        pars, qubits, body = self.gates[name]
        if len(pars) != len(values):
            raise BadText(f"gate {name} takes {len(pars)} parameters, got {len(values)}")
        n = len(qubits)
        env = dict(zip(pars, values))
        cols = [[1 if i == j else 0 for i in range(1 << n)] for j in range(1 << n)]
        for g, at, args in body:
            keep, self.i = self.i, at
            m = self.matrix(g, self.exprs(env))
            self.i = keep
            if len(m) != 1 << len(args) or len(set(args)) != len(args):
                raise BadText(f"gate {g} applied to {len(args)} qubits")
            cols = [h.apply(m, args, c, n) for c in cols]
        return [[cols[j][i] for j in range(1 << n)] for i in range(1 << n)]

    def width(self, name):
        if name in self.gates:
            return len(self.gates[name][1])
        if name not in STANDARD:
            raise BadText(f"gate {name} is not defined")
        return STANDARD[name][1]


def u3(h, t, p, l):
    return mul(rz(h, p), mul(ry(h, t), rz(h, l)))


def dag(h, m):
    return [[h.conj(m[j][i]) for j in range(len(m))] for i in range(len(m))]


S = [[1, 0], [0, 1j]]

# name: (parameters, qubits, matrix)
STANDARD = {
    "u3": (3, 1, u3),
    "u2": (2, 1, lambda h, p, l: u3(h, math.pi / 2, p, l)),
    "u1": (1, 1, lambda h, l: [[1, 0], [0, h.expi(l)]]),
    "id": (0, 1, lambda h: ID),
    "x": (0, 1, lambda h: X),
    "y": (0, 1, lambda h: Y),
    "z": (0, 1, lambda h: Z),
    "h": (0, 1, had),
    "s": (0, 1, lambda h: S),
    "sdg": (0, 1, lambda h: [[1, 0], [0, -1j]]),
    "t": (0, 1, tgate),
    "tdg": (0, 1, lambda h: dag(h, tgate(h))),
    "rx": (1, 1, rx),
    "ry": (1, 1, ry),
    "rz": (1, 1, rz),
    "cx": (0, 2, lambda h: _ctrl(X)),
    "cy": (0, 2, lambda h: _ctrl(Y)),
    "cz": (0, 2, lambda h: _ctrl(Z)),
    "ch": (0, 2, lambda h: _ctrl(had(h))),
    "ccx": (0, 3, lambda h: _ctrl(X, 2)),
    "crz": (1, 2, lambda h, l: _ctrl(rz(h, l))),
    "cu1": (1, 2, lambda h, l: _ctrl([[1, 0], [0, h.expi(l)]])),
    "cu3": (3, 2, lambda h, t, p, l: _ctrl(u3(h, t, p, l))),
}
