"""Stand-in for PyQIR (a binary extension) when programs are built from symbolic parameters.

Follows PyQIR 0.9 as far as the code under test may reach: values, types, functions, blocks,
builder, verification, and the text form of modules (symbolic numbers appear as tokens).  Every run
replays concrete programs with the real PyQIR, which would reveal a difference.
"""
import re
import types

try:
    from sx.values import Poly, SymC, SymInt, SymBool, is_sym
except ImportError:  # replaying with the real extension: only the reader of arguments is used
    Poly = SymC = SymInt = SymBool = is_sym = None


class Crash(Exception):
    """The real extension would crash the process."""


class Context:
    pass


# ------------------------------------------------------------------ types
class Type:
    def __init__(self, ctx, text):
        self._ctx, self._text = ctx, text

    @staticmethod
    def void(ctx):
        return Type(ctx, "void")

    @staticmethod
    def double(ctx):
        return Type(ctx, "double")

    @property
    def is_void(self):
        return self._text == "void"

    @property
    def is_double(self):
        return self._text == "double"


class IntType(Type):
    def __init__(self, ctx, width):
        super().__init__(ctx, f"i{width}")
        self.width = width


class StructType(Type):
    def __init__(self, ctx, name, fields=None):
        super().__init__(ctx, f"%{name}")
        self.name, self.fields = name, fields


class ArrayType(Type):
    def __init__(self, element, count):
        super().__init__(element._ctx, f"[{count} x {element._text}]")
        self.element, self.count = element, count


class PointerType(Type):
    def __init__(self, pointee):
        super().__init__(pointee._ctx, pointee._text + "*")
        self.pointee = pointee
        self.address_space = 0


class FunctionType(Type):
    def __init__(self, ret, params):
        super().__init__(ret._ctx, f"{ret._text} ({', '.join(p._text for p in params)})")
        self.ret, self.params = ret, list(params)


def qubit_type(ctx):
    return PointerType(StructType(ctx, "Qubit"))


def result_type(ctx):
    return PointerType(StructType(ctx, "Result"))


# ------------------------------------------------------------------ values
class Value:
    def __init__(self, type_, text):
        self.type, self._text = type_, text
        self.name = ""

    def __str__(self):
        return f"{self.type._text} {self._text}"


class Constant(Value):
    @staticmethod
    def null(type_):
        return Constant(type_, "null")

    @property
    def is_null(self):
        return self._text == "null"

    def __eq__(self, o):
        return isinstance(o, Constant) and (self.type._text, self._text) == (o.type._text, o._text)

    def __hash__(self):
        return hash((self.type._text, self._text))


class FloatConstant(Constant):
    def __init__(self, ctx, value):
        super().__init__(Type.double(ctx), f"{value:e}" if isinstance(value, float) else f"{value}")
        if isinstance(value, float):
            self._text = repr(value)
        self.value = value


class IntConstant(Constant):
    def __init__(self, type_, value):
        super().__init__(type_, str(value))
        self.value = value


def _pointer(t, n):
    return Constant(t, "null" if n == 0 else f"inttoptr (i64 {n} to {t._text})")


def qubit(ctx, n):
    return _pointer(qubit_type(ctx), n)


def result(ctx, n):
    return _pointer(result_type(ctx), n)


def _id(v, kind):
    if not isinstance(v, Constant) or v.type._text != f"%{kind}*":
        return None
    return 0 if v.is_null else int(re.search(r"i64 (\d+)", v._text).group(1))


def qubit_id(v):
    return _id(v, "Qubit")


def result_id(v):
    return _id(v, "Result")


def is_qubit_type(t):
    return t._text == "%Qubit*"


def is_result_type(t):
    return t._text == "%Result*"


def _real(x):
    """A number usable as a double (None if it is none)."""
    if isinstance(x, (bool, int)):
        return float(x)
    if isinstance(x, float):
        return float(x)
    if isinstance(x, (Poly, SymInt)):
        return x
    if isinstance(x, SymC) and x.im.is_const() and x.im.cval() == 0:
        raise TypeError("must be real number, not complex")
    return None


# ------------------------------------------------------------------ modules
class Linkage:
    EXTERNAL = "external"
    INTERNAL = "internal"
    PRIVATE = "private"


class Opcode:
    CALL, RET, BR = "CALL", "RET", "BR"


class Module:
    def __init__(self, ctx, name):
        self.context, self.source_filename = ctx, name
        self.functions = []
        self.flags = []

    def _unique(self, name):
        names = {f.name for f in self.functions}
        if name not in names:
            return name
        k = 1
        while f"{name}.{k}" in names:
            k += 1
        return f"{name}.{k}"

    def verify(self):
        for f in self.functions:
            for b in f.basic_blocks:
                if not b.instructions or not b.instructions[-1]._ends or any(i._ends for i in b.instructions[:-1]):
                    return f"Basic Block in function '{f.name}' does not have terminator!"
                for i in b.instructions:
                    if isinstance(i, Call):
                        if i.callee._module is not self:
                            return "Referencing function in another module!"
                        if [a.type._text for a in i.args] != [p._text for p in i.callee.type.params]:
                            return "Call parameter type does not match function signature!"
                    elif i.opcode == Opcode.RET:
                        if f.type.ret._text != ("void" if i._value is None else i._value.type._text):
                            return "Function return type does not match operand type of return inst!"
        return None

    def __str__(self):
        out = [f"; ModuleID = '{self.source_filename}'", f'source_filename = "{self.source_filename}"', ""]
        body = []
        for f in self.functions:
            ps = ", ".join(p._text for p in f.type.params)
            if f.basic_blocks:
                body.append(f"define {f.type.ret._text} @{f.name}({ps}) #0 {{")
                for k, b in enumerate(f.basic_blocks):
                    body += ([""] if k else []) + [f"{b.name}:"] + ["  " + str(i) for i in b.instructions]
                body += ["}", ""]
            else:
                body += [f"declare {f.type.ret._text} @{f.name}({ps})", ""]
        text = "\n".join(body)
        for s in ("Qubit", "Result"):
            if f"%{s}" in text:
                out.append(f"%{s} = type opaque")
        out += ["", text]
        for f in self.functions:
            if f._required:
                out.append(
                    'attributes #0 = { "entry_point" "num_required_qubits"="%d" "num_required_results"="%d" "output_labeling_schema" "qir_profiles"="custom" }'
                    % f._required
                )
                break
        return "\n".join(out) + "\n"

    @property
    def bitcode(self):
        return b"BC" + str(self).encode()

    @staticmethod
    def from_bitcode(ctx, data, name=""):
        if not isinstance(data, bytes) or not data.startswith(b"BC"):
            raise ValueError("invalid bitcode")
        return Module.from_ir(ctx, data[2:].decode(), name)

    @staticmethod
    def from_ir(ctx, text, name=""):
        return _read(ctx, text, name)


class Function(Value):
    def __init__(self, type_, linkage, name, module):
        super().__init__(type_, "")
        self.name = module._unique(name)
        self.linkage = linkage
        self._module = module
        self._required = None
        self.params = [Value(p, f"%{i}") for i, p in enumerate(type_.params)]
        self.basic_blocks = []
        module.functions.append(self)

    def __str__(self):
        return f"declare {self.type.ret._text} @{self.name}({', '.join(p._text for p in self.type.params)})\n"


class BasicBlock(Value):
    def __init__(self, ctx, name="", parent=None, before=None):
        super().__init__(Type(ctx, "label"), "")
        names = {b.name for b in parent.basic_blocks}
        self.name, k = name, 1
        while self.name in names:
            self.name, k = f"{name}{k}", k + 1
        self._parent = parent
        self.instructions = []
        parent.basic_blocks.append(self)

    @property
    def terminator(self):
        return self.instructions[-1] if self.instructions and self.instructions[-1]._ends else None


class Instruction(Value):
    _ends = False

    def __init__(self, block, opcode, text, type_=None):
        super().__init__(type_, text)
        self.opcode = opcode
        self._block = block
        block.instructions.append(self)

    def __str__(self):
        return self._text

    def erase(self):
        if self._block is None:
            raise Crash("an instruction is erased twice")
        self._block.instructions.remove(self)
        self._block = None


class Call(Instruction):
    def __init__(self, block, callee, args):
        self.callee, self.args = callee, args
        super().__init__(block, Opcode.CALL, f"call {callee.type.ret._text} @{callee.name}({', '.join(map(str, args))})")


class Builder:
    def __init__(self, ctx):
        self._ctx, self._block = ctx, None

    def insert_at_end(self, block):
        self._block = block

    def call(self, value, args):
        types_ = value.type.params
        if len(types_) != len(args):
            raise ValueError(f"Expected {len(types_)} arguments, got {len(args)}.")
        out = []
        for t, a in zip(types_, args):
            if isinstance(a, Value):
                out.append(a)
            elif t.is_double and not isinstance(a, (bool, int, SymInt, SymBool)) and _real(a) is not None:
                out.append(FloatConstant(self._ctx, _real(a)))
            elif isinstance(t, IntType) and isinstance(a, (bool, int)):
                out.append(IntConstant(t, int(a)))
            else:
                raise TypeError("Can't convert Python value into this type.")
        Call(self._block, value, out)

    def br(self, dest):
        i = Instruction(self._block, Opcode.BR, f"br label %{dest.name}")
        i._ends = True
        return i

    def ret(self, value):
        i = Instruction(self._block, Opcode.RET, "ret void" if value is None else f"ret {value}")
        i._ends, i._value = True, value
        return i


def qir_module(ctx, name, qir_major_version=1, qir_minor_version=0, dynamic_qubit_management=False, dynamic_result_management=False):
    m = Module(ctx, name)
    m.flags = [qir_major_version, qir_minor_version, dynamic_qubit_management, dynamic_result_management]
    return m


def entry_point(module, name, required_num_qubits, required_num_results):
    f = Function(FunctionType(Type.void(module.context), []), Linkage.EXTERNAL, name, module)
    f._required = (required_num_qubits, required_num_results)
    return f


def _intern(builder, name, params):
    m = builder._block._parent._module
    for f in m.functions:
        if f.name == name:
            return f
    return Function(FunctionType(Type.void(m.context), params), Linkage.EXTERNAL, name, m)


def _qis(function, sig):
    def f(builder, *args):
        if len(args) != len(sig):
            raise TypeError(f"{function}() takes {len(sig) + 1} arguments")
        ctx = builder._ctx
        out = []
        for k, a in zip(sig, args):
            if k == "d":
                v = a if isinstance(a, Value) else _real(a)
                if v is None:
                    raise TypeError("argument 'theta': failed to extract enum Angle ('Value | Constant')")
                out.append(v if isinstance(v, Value) else FloatConstant(ctx, v))
            else:
                if not isinstance(a, Value):
                    raise TypeError(f"'{type(a).__name__}' object cannot be converted to 'Value'")
                out.append(a)
        kinds = {"d": Type.double(ctx), "q": qubit_type(ctx), "r": result_type(ctx), "p": PointerType(IntType(ctx, 8))}
        Call(builder._block, _intern(builder, function, [kinds[k] for k in sig]), out)

    return f


_QIS = {"ccx": ("ccx", "qqq"), "cx": ("cnot", "qq"), "cz": ("cz", "qq"), "swap": ("swap", "qq"), "mz": ("mz", "qr")}
_QIS.update({g: (g, "q") for g in ("h", "s", "t", "x", "y", "z", "reset")})
_QIS.update({g: (g, "dq") for g in ("rx", "ry", "rz")})


# ------------------------------------------------------------------ text
_CALL = re.compile(r"call (\S+) @([^(]+)\((.*)\)$")


def split_arguments(text):
    out, depth, cur = [], 0, ""
    for ch in text:
        depth += (ch == "(") - (ch == ")")
        if ch == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def _type(ctx, text):
    if text.endswith("*"):
        return PointerType(_type(ctx, text[:-1]))
    if text.startswith("%"):
        return StructType(ctx, text[1:])
    if text[0] == "i":
        return IntType(ctx, int(text[1:]))
    return Type(ctx, text)


def _read(ctx, text, name, number=None):
    number = number or NUMBER[0]
    m = re.search(r'source_filename = "(.*)"', text)
    if not isinstance(text, str) or "@" not in text:
        raise ValueError("expected top-level entity")
    mod = Module(ctx, m.group(1) if m else name)
    f = block = None
    todo = []
    for line in text.splitlines():
        line = line.split("; preds")[0].strip()
        d = re.match(r"(define|declare) (\S+) @([^(]+)\(([^)]*)\)", line)
        if d:
            ps = [_type(ctx, p.strip().split(" ")[0]) for p in d.group(4).split(",") if p.strip()]
            f = Function(FunctionType(_type(ctx, d.group(2)), ps), Linkage.EXTERNAL, d.group(3), mod)
        elif line.startswith("attributes ") and "entry_point" in line:
            m = re.search(r'"num_required_qubits"="(\d+)" "num_required_results"="(\d+)"', line)
            for f in mod.functions:
                if f.basic_blocks:
                    f._required = (int(m.group(1)), int(m.group(2)))
        elif re.match(r"[\w.]+:$", line) and f is not None:
            block = BasicBlock(ctx, line[:-1], parent=f)
        elif line.startswith(("call ", "ret ", "br ")):
            todo.append((block, line))
    by = {f.name: f for f in mod.functions}
    for block, line in todo:
        c = _CALL.match(line)
        if c:
            if c.group(2) not in by:
                raise ValueError(f"use of undefined value '@{c.group(2)}'")
            args = []
            for a in split_arguments(c.group(3)):
                t, v = a.split(" ", 1)
                args.append(FloatConstant(ctx, number(v)) if t == "double" else Constant(_type(ctx, t), v))
            Call(block, by[c.group(2)], args)
        elif line.startswith("ret"):
            i = Instruction(block, Opcode.RET, line)
            i._ends = True
        else:
            i = Instruction(block, Opcode.BR, line)
            i._ends = True
    return mod


NUMBER = [float]


def stubs(h):
    """The modules that take the place of PyQIR."""
    NUMBER[0] = lambda v: h.text(v) if is_sym(h.text(v)) else float(v)
    top = types.ModuleType("pyqir")
    for k, v in globals().items():
        if isinstance(v, type) and v.__module__ == __name__ and k != "Crash":
            setattr(top, k, v)
    for f in (qubit_type, result_type, qubit, result, qubit_id, result_id, is_qubit_type, is_result_type, qir_module, entry_point):
        setattr(top, f.__name__, f)
    top.qis = types.ModuleType("pyqir.qis")
    for k, (name, sig) in _QIS.items():
        setattr(top.qis, k, _qis(f"__quantum__qis__{name}__body", sig))
    top.rt = types.ModuleType("pyqir.rt")
    top.rt.initialize = _qis("__quantum__rt__initialize", "p")
    top.rt.result_record_output = _qis("__quantum__rt__result_record_output", "rp")
    return {"pyqir": top, "pyqir.qis": top.qis, "pyqir.rt": top.rt}
