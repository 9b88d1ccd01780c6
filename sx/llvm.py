"""Symbolic execution of the C kernels (ops.h) from their LLVM IR.

The generated header is compiled by clang (no floating-point reassociation, no unrolling or
vectorisation) and the textual IR is executed instruction by instruction.  Doubles are symbolic
reals (Poly); integers are either concrete (sizes and positions fixed: the whole kernel runs) or
64-bit bit-vectors (size-generic mode: the loop over amplitudes is summarised by one arbitrary
iteration, see LoopSummary).
"""
import os
import re
import subprocess

import z3

from sx import engine as E
from sx.cyrt import NULL, BigInt64, BigState, MemoryFault, Pointer
from sx.values import Poly, SymC, SymInt, new_var, to_c, to_poly

CLANG_FLAGS = [
    "-std=c++17", "-S", "-emit-llvm", "-O1", "-fno-vectorize", "-fno-slp-vectorize",
    "-fno-unroll-loops", "-fcx-limited-range", "-ffp-contract=off", "-fno-exceptions",
    "-Xclang", "-disable-O0-optnone",
]


def compile_header(root, header, out):
    """ops.h -> Module.  All inline functions are kept by a wrapper that includes the header."""
    cpp = out + ".cpp"
    with open(cpp, "w") as f:
        f.write(f"#include <cstdint>\n#include <complex>\n#include <algorithm>\n#include <cmath>\n#include \"{header}\"\n")
    ll = out + ".ll"
    subprocess.run(
        ["clang++", *CLANG_FLAGS, "-I", root, cpp, "-o", ll], check=True, capture_output=True
    )
    with open(ll) as f:
        return Module(f.read())


# ------------------------------------------------------------------ parsing
class Func:
    __slots__ = ("name", "args", "blocks", "entry", "ret", "_loops")

    def __init__(self, name, args, ret):
        self.name, self.args, self.ret = name, args, ret
        self.blocks = {}
        self.entry = None
        self._loops = None


_ATTR = re.compile(
    r"\b(noundef|nocapture|readonly|readnone|writeonly|nonnull|noalias|nocallback|signext|zeroext|"
    r"immarg|returned|nofree|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|"
    r"captures\([^)]*\)|tail|musttail|notail|fastcc|dso_local|local_unnamed_addr|nnan|ninf|nsz|arcp|contract|"
    r"afn|reassoc|fast|inbounds|nneg|disjoint|exact)\b ?"
)


def split_args(s):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        cur = None
        blk = None
        for raw in text.splitlines():
            line = raw.split(" !")[0] if not raw.startswith("!") else ""
            line = re.sub(r",? ?![\w.]+ .*$", "", line)
            line = line.split(";")[0].rstrip().rstrip(",")
            if not line.strip():
                continue
            if cur is None:
                m = re.match(r"^(%\S+) = type (.*)$", line) or re.match(r'^(%"[^"]+") = type (.*)$', line)
                if m:
                    self.types[m.group(1)] = m.group(2)
                    continue
                if line.startswith("define"):
                    m = re.match(r"^define .*?(void|double|i\d+|ptr|\{[^}]*\}) @([^\s(]+)\((.*)\) .*\{$", line)
                    if not m:
                        raise E.Inconclusive(f"unparsed LLVM function: {line}")
                    args = []
                    for a in split_args(m.group(3)):
                        a = _ATTR.sub("", a).split()
                        args.append((a[0], a[-1]))
                    cur = Func(m.group(2), args, m.group(1))
                    blk = cur.entry = "%entry"
                    cur.blocks[blk] = []
                continue
            if line == "}":
                self.funcs[cur.name] = cur
                cur = None
                continue
            m = re.match(r"^([\w.$-]+):", line)
            if m:
                blk = "%" + m.group(1)
                cur.blocks[blk] = []
                continue
            cur.blocks[blk].append(line.strip())
        for f in self.funcs.values():
            # clang numbers the entry block implicitly; phis name it by that number
            self._name_entry(f)
            for b in f.blocks:
                f.blocks[b] = [self._instr(l) for l in f.blocks[b]]
        self.by_cname = {}
        for n in self.funcs:
            m = re.match(r"_Z(\d+)(.*)$", n)
            if m:
                self.by_cname.setdefault(m.group(2)[: int(m.group(1))], n)
            else:
                self.by_cname[n] = n

    def _name_entry(self, f):
        labels = set(f.blocks)
        used = set()
        for b in f.blocks.values():
            for l in b:
                if " phi " in l:
                    used.update("%" + x for x in re.findall(r"%([\w.$-]+) \]", l))
        miss = used - labels
        if miss:
            name = miss.pop()
            f.blocks = {(name if k == "%entry" else k): v for k, v in f.blocks.items()}
            f.entry = name

    def _instr(self, l):
        dst = None
        m = re.match(r"^(%[\w.$-]+) = (.*)$", l)
        if m:
            dst, l = m.group(1), m.group(2)
        op, _, rest = l.partition(" ")
        if op in ("tail", "musttail", "notail"):
            op, _, rest = rest.partition(" ")
        if op == "call":
            m = re.match(r"^.*?([\w{}, ]+?|ptr) @([^\s(]+)\((.*)\)[^)]*$", _ATTR.sub("", rest))
            if not m:
                raise E.Inconclusive(f"unparsed LLVM call: {l}")
            args = []
            for a in split_args(m.group(3)):
                a = _ATTR.sub("", a).strip()
                t, _, v = a.rpartition(" ")
                args.append((t.strip(), v))
            return (dst, "call", m.group(2), args)
        if op == "phi":
            m = re.match(r"^(\S+) (.*)$", _ATTR.sub("", rest))
            inc = re.findall(r"\[ ([^,]+), (%[\w.$-]+) \]", m.group(2))
            return (dst, "phi", m.group(1), inc)
        if op == "br":
            m = re.match(r"^label (%\S+)$", rest)
            if m:
                return (None, "jmp", m.group(1))
            m = re.match(r"^i1 (\S+), label (%[\w.$-]+), label (%[\w.$-]+)$", rest)
            return (None, "br", m.group(1), m.group(2), m.group(3))
        if op == "switch":
            raise E.Inconclusive("LLVM switch")
        if op == "ret":
            return (None, "ret", None if rest == "void" else rest.split()[-1])
        if op == "alloca":
            return (dst, "alloca", split_args(rest)[0])
        if op == "load":
            p = split_args(_ATTR.sub("", rest))
            return (dst, "load", p[0], p[1].split()[-1])
        if op == "store":
            p = split_args(_ATTR.sub("", rest))
            t, _, v = p[0].rpartition(" ")
            return (None, "store", t, v, p[1].split()[-1])
        if op == "getelementptr":
            rest = re.sub(r"\b(nuw|nusw|nsw) ", "", _ATTR.sub("", rest))
            p = split_args(rest)
            idx = [x.split()[-1] for x in p[2:]]
            return (dst, "gep", p[0], p[1].split()[-1], idx)
        if op == "icmp":
            m = re.match(r"^(?:samesign )?(\w+) (\S+) ([^,]+), (\S+)$", rest)
            return (dst, "icmp", m.group(1), m.group(2), m.group(3), m.group(4))
        if op == "fcmp":
            m = re.match(r"^(\w+) (\S+) ([^,]+), (\S+)$", _ATTR.sub("", rest))
            return (dst, "fcmp", m.group(1), m.group(3), m.group(4))
        if op == "select":
            p = split_args(_ATTR.sub("", rest))
            return (dst, "select", p[0].split()[-1], p[1].split()[0], p[1].split()[-1], p[2].split()[-1])
        if op in ("trunc", "zext", "sext", "sitofp", "uitofp", "freeze", "fneg", "bitcast", "fptosi"):
            rest = re.sub(r"\b(nuw|nsw) ", "", _ATTR.sub("", rest))
            m = re.match(r"^(\S+) (\S+)(?: to (\S+))?$", rest)
            return (dst, op, m.group(1), m.group(2), m.group(3))
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "urem", "sdiv", "srem"):
            flags = set(re.findall(r"\b(nuw|nsw)\b", rest))
            rest = re.sub(r"\b(nuw|nsw) ", "", _ATTR.sub("", rest))
            m = re.match(r"^(\S+) ([^,]+), (\S+)$", rest)
            return (dst, "bin", op, m.group(1), m.group(2), m.group(3), flags)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            m = re.match(r"^double ([^,]+), (\S+)$", _ATTR.sub("", rest))
            if not m:
                raise E.Inconclusive(f"LLVM instruction: {l}")
            return (dst, "fbin", op, m.group(1), m.group(2))
        if op == "unreachable":
            return (None, "unreachable")
        raise E.Inconclusive(f"LLVM instruction not supported: {l}")

    # -------------------------------------------------------------- types
    def size(self, t):
        t = t.strip()
        if t in self.types:
            return self.size(self.types[t])
        if t == "double" or t == "ptr":
            return 8
        m = re.match(r"^i(\d+)$", t)
        if m:
            return max(1, int(m.group(1)) // 8)
        m = re.match(r"^\[(\d+) x (.*)\]$", t)
        if m:
            return int(m.group(1)) * self.size(m.group(2))
        if t.startswith("{"):
            return sum(self.size(x) for x in split_args(t[1:-1]))
        raise E.Inconclusive(f"LLVM type {t}")

    def field(self, t, i):
        """-> (offset, type) of element i of aggregate t."""
        t = t.strip()
        if t in self.types:
            return self.field(self.types[t], i)
        m = re.match(r"^\[(\d+) x (.*)\]$", t)
        if m:
            return i * self.size(m.group(2)), m.group(2)
        if t.startswith("{"):
            fs = split_args(t[1:-1])
            return sum(self.size(x) for x in fs[:i]), fs[i]
        raise E.Inconclusive(f"LLVM aggregate {t}")

    # -------------------------------------------------------------- natural loops
    def loops(self, f):
        if f._loops is None:
            succ = {}
            for b, ins in f.blocks.items():
                t = ins[-1]
                succ[b] = [t[2]] if t[1] == "jmp" else [t[3], t[4]] if t[1] == "br" else []
            color, back = {}, []

            def dfs(b):
                color[b] = 1
                for s in succ[b]:
                    if color.get(s) == 1:
                        back.append((b, s))
                    elif s not in color:
                        dfs(s)
                color[b] = 2

            dfs(f.entry)
            pred = {}
            for b, ss in succ.items():
                for s in ss:
                    pred.setdefault(s, []).append(b)
            loops = {}
            for b, h in back:
                body = loops.setdefault(h, {h})
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x not in body:
                        body.add(x)
                        stack.extend(pred.get(x, []))
            f._loops = loops
        return f._loops


# ------------------------------------------------------------------ values
class Ptr:
    """region + 16*elem + off bytes (elem: int or 64-bit vector)"""

    __slots__ = ("reg", "elem", "off")

    def __init__(self, reg, elem, off):
        self.reg, self.elem, self.off = reg, elem, off


class Local:
    """Stack memory: byte offset -> value of one scalar."""

    def __init__(self, size):
        self.size = size
        self.cells = {}


class Fault(Exception):
    """Undefined behaviour in a kernel."""


def bits(t):
    return int(t[1:])


def is_bv(x):
    return isinstance(x, z3.BitVecRef)


def bv(x, w):
    return x if is_bv(x) else z3.BitVecVal(x, w)


def norm(x):
    if is_bv(x):
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x.as_long()
    return x


def _contains(x, k):
    seen = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(k):
            return True
        todo.extend(y.children())
    return False


def signed(x, w):
    return x - (1 << w) if x >> (w - 1) else x


class Exec:
    def __init__(self, mod, steps=4_000_000):
        self.mod = mod
        self.steps = steps
        self.ub = []          # undefined-behaviour conditions collected (size-generic mode)
        self.summary = None   # current loop summary (size-generic mode)

    # -------------------------------------------------------------- operands
    def val(self, env, s, t=None):
        s = s.strip()
        if s[0] == "%":
            return env[s]
        if s == "true":
            return 1
        if s == "false":
            return 0
        if s in ("null",):
            return None
        if s in ("undef", "poison", "zeroinitializer"):
            return 0
        if re.match(r"^-?\d+$", s):
            v = int(s)
            if t and t.startswith("i"):
                v %= 1 << bits(t)
            return v
        if s.startswith("0x"):
            import struct

            return struct.unpack(">d", bytes.fromhex(s[2:].rjust(16, "0")))[0]
        return float(s)

    # -------------------------------------------------------------- calls
    def call(self, name, args):
        f = self.mod.funcs[name]
        env = {}
        for (t, n), a in zip(f.args, args):
            env[n] = a
        # unnamed parameters are numbered %0, %1, ...
        blk, prev = f.entry, None
        loops = self.mod.loops(f)
        while True:
            if blk in loops and any(isinstance(a, Ptr) and isinstance(a.reg, BigMem) for a in args):
                if prev not in loops[blk] and self._touches_state(f, loops[blk], env):
                    blk, prev = self._havoc(f, blk, prev, loops[blk], env)
                    if blk is None:
                        return prev
                    continue
            r = self._block(f, blk, prev, env)
            if r[0] == "ret":
                return r[1]
            prev, blk = blk, r[1]

    def _block(self, f, blk, prev, env):
        ins = f.blocks[blk]
        i = 0
        phis = []
        while i < len(ins) and ins[i][1] == "phi":
            dst, _, t, inc = ins[i]
            for v, b in inc:
                if b == prev:
                    phis.append((dst, self.val(env, v, t)))
                    break
            else:
                raise E.Inconclusive("phi without incoming edge")
            i += 1
        for d, v in phis:
            env[d] = v
        return self._run(f, ins[i:], env)

    def _run(self, f, ins, env):
        for x in ins:
            self.steps -= 1
            if self.steps < 0:
                raise E.PathLimit("kernel execution too long")
            op = x[1]
            if op == "ret":
                return ("ret", None if x[2] is None else self.val(env, x[2], f.ret))
            if op == "jmp":
                return ("jmp", x[2])
            if op == "br":
                return ("jmp", x[3] if self.truth(self.val(env, x[2], "i1")) else x[4])
            if op == "unreachable":
                raise Fault("unreachable code reached")
            r = self.step(env, x)
            if x[0]:
                env[x[0]] = r

    def truth(self, c):
        c = norm(c)
        if is_bv(c):
            return E.current().branch(c == 1)
        if isinstance(c, z3.BoolRef):
            return E.current().branch(c)
        return bool(c)

    def step(self, env, x):
        op = x[1]
        if op == "bin":
            _, _, o, t, a, b, flags = x
            return self.arith(o, bits(t), self.val(env, a, t), self.val(env, b, t), flags)
        if op == "fbin":
            a, b = self.num(self.val(env, x[3])), self.num(self.val(env, x[4]))
            if x[2] == "fadd":
                return a + b
            if x[2] == "fsub":
                return a - b
            if x[2] == "fmul":
                return a * b
            return a / b
        if op == "fneg":
            return -self.num(self.val(env, x[3]))
        if op == "icmp":
            return self.icmp(x[2], x[3], self.val(env, x[4], x[3]), self.val(env, x[5], x[3]))
        if op == "fcmp":
            a, b = self.num(self.val(env, x[3])), self.num(self.val(env, x[4]))
            o = x[2][1:]
            r = {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
                 "eq": lambda: a == b, "ne": lambda: a != b}[o]()
            return 1 if bool(r) else 0
        if op == "load":
            return self.load(self.val(env, x[3]), x[2])
        if op == "store":
            self.store(self.val(env, x[4]), x[2], self.val(env, x[3], x[2]))
            return None
        if op == "gep":
            return self.gep(env, x)
        if op == "alloca":
            return Ptr(Local(self.mod.size(x[2])), 0, 0)
        if op == "select":
            t = x[3]
            c = norm(self.val(env, x[2], "i1"))
            a, b = self.val(env, x[4], t), self.val(env, x[5], t)
            if not is_bv(c):
                return a if c else b
            if t.startswith("i"):
                w = bits(t)
                return norm(z3.If(c == 1, bv(a, w), bv(b, w)))
            return a if self.truth(c) else b
        if op == "trunc":
            v = self.val(env, x[3], x[2])
            w = bits(x[4])
            return norm(z3.Extract(w - 1, 0, v)) if is_bv(v) else v % (1 << w)
        if op == "zext":
            v = self.val(env, x[3], x[2])
            return norm(z3.ZeroExt(bits(x[4]) - bits(x[2]), v)) if is_bv(v) else v
        if op == "sext":
            v = self.val(env, x[3], x[2])
            if is_bv(v):
                return norm(z3.SignExt(bits(x[4]) - bits(x[2]), v))
            return signed(v, bits(x[2])) % (1 << bits(x[4]))
        if op in ("freeze", "bitcast"):
            return self.val(env, x[3], x[2])
        if op in ("sitofp", "uitofp"):
            v = self.val(env, x[3], x[2])
            if is_bv(v):
                raise E.Inconclusive("symbolic integer converted to double")
            return float(signed(v, bits(x[2])) if op == "sitofp" else v)
        if op == "call":
            return self.intrinsic(env, x)
        raise E.Inconclusive(f"LLVM instruction {op}")

    @staticmethod
    def num(v):
        if isinstance(v, (int, float)):
            return Poly.const(0) + v
        return v

    def arith(self, o, w, a, b, flags):
        m = (1 << w) - 1
        if not is_bv(a) and not is_bv(b):
            if o in ("shl", "lshr", "ashr"):
                if b >= w:
                    raise Fault(f"shift by {b} of a {w}-bit value")
                if o == "shl":
                    r = (a << b) & m
                    if "nuw" in flags and (r >> b) != a:
                        raise Fault("unsigned overflow in shift")
                    if "nsw" in flags and signed(r, w) >> b != signed(a, w):
                        raise Fault("signed overflow in shift")
                    return r
                if o == "lshr":
                    return a >> b
                return (signed(a, w) >> b) & m
            if o in ("udiv", "urem", "sdiv", "srem") and b == 0:
                raise Fault("division by zero")
            r = {
                "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
                "or": lambda: a | b, "xor": lambda: a ^ b, "udiv": lambda: a // b, "urem": lambda: a % b,
                "sdiv": lambda: int(signed(a, w) / signed(b, w)), "srem": lambda: signed(a, w) - signed(b, w) * int(signed(a, w) / signed(b, w)),
            }[o]()
            if "nuw" in flags and not 0 <= r <= m:
                raise Fault("unsigned overflow")
            if "nsw" in flags:
                s = {"add": signed(a, w) + signed(b, w), "sub": signed(a, w) - signed(b, w), "mul": signed(a, w) * signed(b, w)}.get(o)
                if s is not None and not -(1 << (w - 1)) <= s < 1 << (w - 1):
                    raise Fault("signed overflow")
            return r & m
        A, B = bv(a, w), bv(b, w)
        if o in ("shl", "lshr", "ashr"):
            self.ub.append(("shift width", z3.UGE(B, w)))
            r = {"shl": A << B, "lshr": z3.LShR(A, B), "ashr": A >> B}[o]
            if o == "shl" and "nuw" in flags:
                self.ub.append(("unsigned overflow in shift", z3.LShR(r, B) != A))
            if o == "shl" and "nsw" in flags:
                self.ub.append(("signed overflow in shift", (r >> B) != A))
            return norm(r)
        if o in ("udiv", "urem", "sdiv", "srem"):
            self.ub.append(("division by zero", B == 0))
        r = {
            "add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "and": lambda: A & B,
            "or": lambda: A | B, "xor": lambda: A ^ B, "udiv": lambda: z3.UDiv(A, B),
            "urem": lambda: z3.URem(A, B), "sdiv": lambda: A / B, "srem": lambda: z3.SRem(A, B),
        }[o]()
        if o in ("add", "sub", "mul"):
            if "nuw" in flags:
                ok = {"add": z3.BVAddNoOverflow(A, B, False), "sub": z3.BVSubNoUnderflow(A, B, False), "mul": z3.BVMulNoOverflow(A, B, False)}[o]
                self.ub.append(("unsigned overflow", z3.Not(ok)))
            if "nsw" in flags:
                ok = {
                    "add": z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B)),
                    "sub": z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True)),
                    "mul": z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B)),
                }[o]
                self.ub.append(("signed overflow", z3.Not(ok)))
        return norm(r)

    def icmp(self, p, t, a, b):
        if t == "ptr":
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg and not is_bv(a.elem) and not is_bv(b.elem):
                a, b, w = a.elem * 16 + a.off, b.elem * 16 + b.off, 64
            elif p in ("eq", "ne"):
                return int((p == "ne"))
            else:
                raise E.Inconclusive("pointer comparison")
        else:
            w = bits(t)
        if not is_bv(a) and not is_bv(b):
            sa, sb = (a, b) if t == "ptr" else (signed(a, w), signed(b, w))
            r = {
                "eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b,
                "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb, "sge": sa >= sb,
            }[p]
            return int(r)
        A, B = bv(a, w), bv(b, w)
        c = {
            "eq": lambda: A == B, "ne": lambda: A != B, "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B),
            "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B), "slt": lambda: A < B, "sle": lambda: A <= B,
            "sgt": lambda: A > B, "sge": lambda: A >= B,
        }[p]()
        return norm(z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))

    def gep(self, env, x):
        _, _, t, base, idx = x
        p = self.val(env, base)
        if not isinstance(p, Ptr):
            raise Fault("pointer arithmetic on a null pointer")
        elem, off = p.elem, p.off
        for k, s in enumerate(idx):
            i = self.val(env, s, "i64")
            if k == 0:
                size = self.mod.size(t)
            else:
                if is_bv(i):
                    sz = self.mod.field(t, 1)
                    size, t2 = sz
                    t = t2
                else:
                    o, t = self.mod.field(t, i)
                    off += o
                    continue
            if is_bv(i):
                if size == 16:
                    elem = norm(bv(elem, 64) + i)
                elif size in (1, 8):
                    # byte/double index that is a multiple of an element
                    q = norm(z3.LShR(i, 4 if size == 1 else 1))
                    r = norm(i & (15 if size == 1 else 1))
                    if is_bv(r):
                        raise E.Inconclusive("symbolic offset inside an amplitude")
                    elem = norm(bv(elem, 64) + q)
                    off += r * size
                else:
                    raise E.Inconclusive("symbolic index of unusual stride")
            else:
                off += signed(i, 64) * size if i >> 63 else i * size
        if not isinstance(p.reg, Local):
            q, off = divmod(off, 16)
            if q:
                elem = norm(bv(elem, 64) + z3.BitVecVal(q, 64)) if is_bv(elem) else elem + q
        return Ptr(p.reg, elem, off)

    # -------------------------------------------------------------- memory
    def load(self, p, t):
        if not isinstance(p, Ptr):
            raise Fault("null pointer read")
        r = p.reg
        if isinstance(r, Local):
            o = p.elem * 16 + p.off
            if not 0 <= o < r.size:
                raise Fault("read outside of a local variable")
            if o not in r.cells:
                raise Fault("uninitialised local variable read")
            return r.cells[o]
        if t != "double":
            raise E.Inconclusive(f"amplitude read as {t}")
        return r.load(self, p.elem, p.off)

    def store(self, p, t, v):
        if not isinstance(p, Ptr):
            raise Fault("null pointer write")
        r = p.reg
        if isinstance(r, Local):
            o = p.elem * 16 + p.off
            if not 0 <= o < r.size:
                raise Fault("write outside of a local variable")
            r.cells[o] = v
            return
        if t != "double":
            raise E.Inconclusive(f"amplitude written as {t}")
        r.store(self, p.elem, p.off, v)

    def copy(self, d, s, n):
        if is_bv(n):
            raise E.Inconclusive("memory copy of symbolic size")
        vals = []
        for o in range(0, n, 8):
            q = self._adv(s, o)
            if isinstance(q.reg, Local):
                vals.append(q.reg.cells.get(q.elem * 16 + q.off))
            else:
                vals.append(self.load(q, "double"))
        for o, v in zip(range(0, n, 8), vals):
            q = self._adv(d, o)
            if isinstance(q.reg, Local):
                if v is not None:
                    self.store(q, "i64", v)
            else:
                self.store(q, "double", v)

    def _adv(self, p, o):
        off = p.off + o
        if isinstance(p.reg, Local):
            return Ptr(p.reg, p.elem, off)
        q, off = divmod(off, 16)
        elem = p.elem if not q else (norm(p.elem + z3.BitVecVal(q, 64)) if is_bv(p.elem) else p.elem + q)
        return Ptr(p.reg, elem, off)

    def intrinsic(self, env, x):
        _, _, name, args = x
        if name in self.mod.funcs:
            return self.call(name, [self.val(env, v, t) for t, v in args])
        vals = [self.val(env, v, t.split()[0] if t else None) for t, v in args]
        if name.startswith("llvm.lifetime") or name.startswith("llvm.assume") or name.startswith("llvm.experimental"):
            return None
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            self.copy(vals[0], vals[1], vals[2])
            return None
        if name.startswith("llvm.memset"):
            if vals[1] != 0 or is_bv(vals[2]):
                raise E.Inconclusive("memset")
            for o in range(0, vals[2], 8):
                q = self._adv(vals[0], o)
                self.store(q, "i64" if isinstance(q.reg, Local) else "double", 0)
            return None
        if name.startswith("llvm.fmuladd") or name.startswith("llvm.fma"):
            return self.num(vals[0]) * self.num(vals[1]) + self.num(vals[2])
        if name.startswith("llvm.fabs"):
            return abs(self.num(vals[0]))
        if name.startswith("llvm.sqrt") or name == "sqrt":
            from sx.values import psqrt

            return psqrt(self.num(vals[0]))
        m = re.match(r"llvm\.(umax|umin|smax|smin)\.i(\d+)", name)
        if m:
            w = int(m.group(2))
            a, b = bv(vals[0], w), bv(vals[1], w)
            c = {"umax": z3.UGT(a, b), "umin": z3.ULT(a, b), "smax": a > b, "smin": a < b}[m.group(1)]
            return norm(z3.If(c, a, b))
        m = re.match(r"llvm\.(fshl|ctlz|cttz|ctpop|usub\.sat)\.", name)
        if m and m.group(1) == "ctpop" and not is_bv(vals[0]):
            return bin(vals[0]).count("1")
        if m and m.group(1) == "usub.sat":
            w = int(name.rsplit("i", 1)[1])
            a, b = bv(vals[0], w), bv(vals[1], w)
            return norm(z3.If(z3.UGT(a, b), a - b, z3.BitVecVal(0, w)))
        raise E.Inconclusive(f"call of {name}")

    # -------------------------------------------------------------- size-generic loops
    def _touches_state(self, f, body, env):
        """Whether the loop body uses the state pointer (or a pointer computed from it)."""
        tainted = {n for n, v in env.items() if isinstance(v, Ptr) and isinstance(v.reg, BigMem)}
        for b in body:
            for x in f.blocks[b]:
                ops = [y for y in x[2:] if isinstance(y, str)]
                for y in x[2:]:
                    if isinstance(y, list):
                        ops += [z if isinstance(z, str) else z[0] if x[1] == "phi" else z[1] for z in y]
                if any(o in tainted for o in ops):
                    return True
        return False

    def _havoc(self, f, header, pre, body, env):
        """Execute one arbitrary iteration of the loop; returns (exit block, last block)."""
        eng = E.current()
        ins = f.blocks[header]
        phis = [x for x in ins if x[1] == "phi"]
        latches = {b for x in phis for _, b in x[3] if b in body}
        if len(latches) != 1:
            raise E.Inconclusive("loop with several back edges")
        latch = latches.pop()
        init = {}
        for dst, _, t, inc in phis:
            for v, b in inc:
                if b == pre:
                    init[dst] = (t, self.val(env, v, t))
        k = z3.BitVec(eng.unique("k"), 64)
        s = LoopSummary(self, k)
        state = next(v.reg for v in env.values() if isinstance(v, Ptr) and isinstance(v.reg, BigMem))
        s.state = state
        for dst, (t, v0) in init.items():
            step = self._induction(f, body, latch, dst, ins, t)
            if t == "double":
                acc = Poly.var(new_var(eng.unique("acc")))
                s.acc.append((dst, v0, acc))
                env[dst] = acc
            elif t == "ptr":
                if step is None or step % 16 or not isinstance(v0, Ptr):
                    raise E.Inconclusive("pointer induction")
                env[dst] = Ptr(v0.reg, norm(bv(v0.elem, 64) + k * (step // 16)), v0.off)
            else:
                if step is None:
                    raise E.Inconclusive("loop-carried integer without constant step")
                w = bits(t)
                kk = k if w == 64 else z3.Extract(w - 1, 0, k)
                env[dst] = norm(bv(v0, w) + kk * step)
        s.enter(state)
        # the only exit must be decided by the header (top-tested) or by the latch (rotated loop)
        exits = [b for b in body if any(t not in body for t in self._succ(f, b))]
        if len(exits) != 1 or exits[0] not in (header, latch):
            raise E.Inconclusive("loop with an unusual exit")
        s.rotated = exits[0] == latch
        nxt, prev_out = self._exit_edge(f, body)
        blk, prev = header, None
        first = True
        while first or blk != header:
            if first:
                code = [x for x in ins if x[1] != "phi"]
            else:
                if blk in self.mod.loops(f):
                    raise E.Inconclusive("nested loop")
                code = None
            if blk == exits[0]:
                r = self._exit_block(f, blk, prev, env, code, nxt, s)
            elif first:
                r = self._run(f, code, env)
            else:
                r = self._block(f, blk, prev, env)
            if first and s.cond is not None and not s.rotated:
                eng.assume(s.cond)
            first = False
            if r[0] == "ret":
                raise E.Inconclusive("return inside of a loop")
            prev, blk = blk, r[1]
        if s.rotated:
            eng.assume(z3.Or(k == 0, z3.substitute(s.cond, (k, k - 1))))
        s.pc = list(eng.pc[s.pc_len:])
        for dst, _, t, inc in phis:
            if t == "double":
                for v, b in inc:
                    if b == latch:
                        for a in s.acc:
                            if a[0] == dst:
                                s.increments.append((a, self.num(self.val(env, v)) - a[2]))
        s.leave(state)
        state.log.append(s)
        # values flowing out of the loop through exit phis: accumulators become totals
        for a in s.acc:
            total = Poly.var(new_var(eng.unique("sum")))
            s.totals.append((a[0], total))
        sub = {}
        for a, inc in s.increments:
            for x in f.blocks.get(nxt, []):
                pass
        for b in body:
            for x in f.blocks[b]:
                if x[0] and isinstance(env.get(x[0]), Poly):
                    for (a, inc), (_, total) in zip(s.increments, s.totals):
                        if (env[x[0]] - (a[2] + inc)).t == {}:
                            env[x[0]] = total
        return nxt, prev_out

    @staticmethod
    def _succ(f, b):
        t = f.blocks[b][-1]
        return [t[2]] if t[1] == "jmp" else [t[3], t[4]] if t[1] == "br" else []

    def _exit_block(self, f, blk, prev, env, code, nxt, s):
        """Run the block that decides whether the loop goes on; stay inside, record the condition."""
        br = f.blocks[blk][-1]
        if br[1] != "br":
            raise E.Inconclusive("loop with an unusual exit")
        if code is None:
            phis = []
            for x in f.blocks[blk]:
                if x[1] == "phi":
                    phis.append((x[0], next(self.val(env, v, x[2]) for v, b in x[3] if b == prev)))
            for d, v in phis:
                env[d] = v
            code = [x for x in f.blocks[blk] if x[1] != "phi"]
        self._run(f, code[:-1], env)
        c = norm(self.val(env, br[2], "i1"))
        t = z3.BoolVal(bool(c)) if not is_bv(c) else c == 1
        inside = br[4] if br[3] == nxt else br[3]
        s.cond = z3.Not(t) if br[3] == nxt else t
        d = next((x for x in code if x[0] == br[2]), None)
        if d is not None and d[1] == "icmp" and d[2] in ("eq", "ne") and d[3] == "i64":
            # "k + d != bound": goes on as long as k < bound - d
            goes_on = (d[2] == "ne") == (br[3] != nxt)
            a, b = bv(self.val(env, d[4], "i64"), 64), bv(self.val(env, d[5], "i64"), 64)
            for x, y in ((a, b), (b, a)):
                off = z3.simplify(x - s.k)
                if z3.is_bv_value(off) and not _contains(y, s.k):
                    if not goes_on:
                        raise E.Inconclusive("loop that ends unless equal")
                    self.ub.append(("endless loop", z3.ULT(y, off)))
                    s.cond = z3.ULT(s.k, y - off)
                    break
            else:
                raise E.Inconclusive("loop exit condition")
        return ("jmp", inside)

    def _exit_edge(self, f, body):
        out = []
        for b in body:
            for s in self._succ(f, b):
                if s not in body:
                    out.append((s, b))
        if len(out) != 1:
            raise E.Inconclusive("loop with several exits")
        return out[0]

    def _induction(self, f, body, latch, dst, ins, t):
        for x in ins:
            if x[0] == dst and x[1] == "phi":
                nxt = next(v for v, b in x[3] if b == latch)
        for b in body:
            for x in f.blocks[b]:
                if x[0] == nxt:
                    if x[1] == "bin" and x[2] in ("add", "sub") and x[4] == dst and re.match(r"^-?\d+$", x[5]):
                        return int(x[5]) if x[2] == "add" else -int(x[5])
                    if x[1] == "gep" and x[3] == dst and len(x[4]) == 1 and re.match(r"^-?\d+$", x[4][0]):
                        return int(x[4][0]) * self.mod.size(x[2])
        return None


class LoopSummary:
    """One arbitrary iteration k of the amplitude loop."""

    def __init__(self, ex, k):
        self.ex, self.k = ex, k
        self.acc, self.increments, self.totals = [], [], []
        self.loads = []    # [index term, [re, im]]   value before the iteration
        self.cells = []    # [index term, [re, im], written]
        self.cond = None       # condition for going on after (rotated) / entering (top-tested) iteration k
        self.rotated = None
        self.pc = []           # conditions under which this iteration takes this path

    def enter(self, mem):
        self.pc_len = len(E.current().pc)
        mem.current = self

    def leave(self, mem):
        mem.current = None


class BigMem:
    """State vector of symbolic length inside a kernel."""

    def __init__(self, state):
        self.state = state
        self.log = state.log
        self.current = None

    def _cell(self, ex, elem):
        s = self.current
        eng = E.current()
        if s is None:
            raise E.Inconclusive("amplitude access outside of the amplitude loop")
        e = bv(elem, 64)
        for c in s.cells:
            if c[0].eq(e) or eng.branch(c[0] == e):
                return c
        i = len(s.cells)
        re_, im_ = (Poly.var(new_var(eng.unique(f"a{i}.{p}"))) for p in ("re", "im"))
        s.cells.append([e, [re_, im_], False, (re_, im_)])
        return s.cells[-1]

    def load(self, ex, elem, off):
        if off not in (0, 8):
            raise Fault("misaligned amplitude access")
        return self._cell(ex, elem)[1][off // 8]

    def store(self, ex, elem, off, v):
        if off not in (0, 8):
            raise Fault("misaligned amplitude access")
        c = self._cell(ex, elem)
        c[1][off // 8] = Exec.num(v)
        c[2] = True


class ArrayMem:
    """Concrete-size buffer: an array of the code under test."""

    def __init__(self, ptr):
        self.ptr = ptr
        self.n = 0

    def load(self, ex, elem, off):
        if off not in (0, 8):
            raise Fault("misaligned amplitude access")
        if is_bv(elem):
            raise E.Inconclusive("symbolic index into a buffer of fixed size")
        v = to_c(self.ptr.read(self._i(elem)))
        return v.re if off == 0 else v.im

    def store(self, ex, elem, off, v):
        if off not in (0, 8):
            raise Fault("misaligned amplitude access")
        i = self._i(elem)
        old = to_c(self.ptr.read(i))
        v = Exec.num(v)
        new = SymC(v, old.im) if off == 0 else SymC(old.re, v)
        self.ptr.write(i, new)

    @staticmethod
    def _i(elem):
        return signed(elem % (1 << 64), 64)


def call_kernel(mod, cname, kinds, args):
    if cname not in mod.by_cname:
        raise E.Inconclusive(f"kernel {cname} not found in the compiled header")
    ex = Exec(mod)
    out = []
    big = None
    for k, a in zip(kinds, args):
        if k == "ptr":
            if isinstance(a, BigState):
                if big is None:
                    big = BigMem(a)
                out.append(Ptr(big, 0, 0))
            elif isinstance(a, Pointer):
                out.append(Ptr(ArrayMem(a), 0, 0))
            elif a is NULL:
                out.append(None)
            else:
                raise E.Inconclusive(f"pointer argument {a!r}")
        elif k == "double":
            out.append(Exec.num(a) if not isinstance(a, (int, float)) else to_poly(a))
        elif isinstance(a, BigInt64):
            out.append(a.z)
        elif isinstance(a, SymInt):
            out.append(a.__index__() % (1 << 64))
        elif k.startswith("uint") or k.startswith("int") or k in ("size_t", "int", "long", "Py_ssize_t", "bint"):
            out.append(int(a) % (1 << 64))
        else:
            out.append(a)
    e = E.current()
    if e is not None:
        e.path_state.setdefault("kernels", set()).add(cname)
    if big is not None:
        big.state.executors.append(ex)
    return ex.call(mod.by_cname[cname], out)
