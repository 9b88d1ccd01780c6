"""QIR programs: reader of the text form (LLVM assembly), independent of the code under test."""
import re
import struct

from props.gates import GATES
from props.pyqirstub import split_arguments, stubs

__all__ = ["stubs", "Program", "NAMES", "EXTERNAL", "calls_of", "place", "positions"]

BASE = {"X": "x", "Y": "y", "Z": "z", "Hadamard": "h", "S": "s", "T": "t", "RX": "rx", "RY": "ry", "RZ": "rz", "CX": "cnot", "CZ": "cz"}
EXTERNAL = {
    "Rotation": "rot", "CY": "cy", "SWAP": "swap", "CHadamard": "ch", "CRX": "crx", "CRY": "cry", "CRZ": "crz",
    "CRotation": "crot", "CSWAP": "cswap", "CCX": "ccnot",
}
NAMES = {**BASE, **EXTERNAL}


class Program:
    """.declared {function: [types]}, .calls [(function, [(kind, value)])] in execution order,
    .outputs [result numbers], .required (qubits, results)."""

    def __init__(self, h, qir, bitcode=False):
        if bitcode:
            px = h.lib("pyqir")
            h.check(isinstance(qir, bytes), "bitcode is bytes")
            qir = str(px.Module.from_bitcode(px.Context(), qir))
        h.check(isinstance(qir, str), "QIR is text")
        self.h = h
        self.declared, self.calls, self.outputs, self.required = {}, [], [], None
        self.defined = []
        blocks, cur, order = {}, None, []
        for line in qir.splitlines():
            line = line.split("; preds")[0].strip()
            m = re.match(r"(define|declare) (\S+) @([^(]+)\(([^)]*)\)", line)
            if m:
                self.declared[m.group(3)] = [p.strip().split(" ")[0] for p in m.group(4).split(",") if p.strip()]
                if m.group(1) == "define":
                    self.defined.append(m.group(3))
                continue
            m = re.match(r"([\w.]+):$", line)
            if m:
                cur = m.group(1)
                blocks[cur] = []
                order.append(cur)
            elif line.startswith(("call ", "br ", "ret ")):
                blocks[cur].append(line)
            m = re.search(r'"num_required_qubits"="(\d+)" "num_required_results"="(\d+)"', line)
            if m:
                self.required = (int(m.group(1)), int(m.group(2)))
        h.check(self.defined == ["main"], "one entry point")
        seen, b = set(), order[0]
        done = False
        while not done:
            h.check(b in blocks and b not in seen, "control runs through distinct blocks")
            seen.add(b)
            nxt = None
            for line in blocks[b]:
                if line.startswith("call "):
                    self.call(line)
                elif line.startswith("br "):
                    nxt = re.match(r"br label %([\w.]+)$", line).group(1)
                    break
                else:
                    h.check(line == "ret void", "the program returns nothing")
                    done = True
                    break
            h.check(done or nxt is not None, "every block ends")
            b = nxt
        self.unreached = [x for x in order if x not in seen and any(l.startswith("call") for l in blocks[x])]
        h.check(not self.unreached, "no calls are left out")

    def call(self, line):
        h = self.h
        m = re.match(r"call void @([^(]+)\((.*)\)( #\d+)?$", line)
        h.check(m is not None, f"call {line!r}")
        name, args = m.group(1), []
        ts = []
        for a in split_arguments(m.group(2)):
            t, v = a.split(" ", 1)
            v = v.replace("writeonly ", "")
            ts.append(t)
            if t == "double":
                got = h.text(v)
                if isinstance(got, str):
                    got = struct.unpack(">d", bytes.fromhex(v[2:]))[0] if v.startswith("0x") else float(v)
                args.append(("d", got))
            elif t in ("%Qubit*", "%Result*"):
                n = 0 if v == "null" else int(re.search(r"i64 (\d+)", v).group(1))
                args.append(("q" if t == "%Qubit*" else "r", n))
            else:
                args.append(("p", v))
        h.check(self.declared.get(name) == ts, f"{name} is called as declared")
        if name == "__quantum__rt__initialize":
            h.check(not self.calls and not self.outputs, "initialization comes first")
        elif name == "__quantum__rt__result_record_output":
            self.outputs.append(args[0][1])
        else:
            h.check(not self.outputs, "results are recorded at the end")
            self.calls.append((name, args))


def calls_of(h, prog):
    """[(name, parameters, qubits, results)] of the quantum instructions."""
    out = []
    for name, args in prog.calls:
        m = re.match(r"__quantum__qis__(\w+)__body$", name)
        h.check(m is not None, f"{name} is a quantum instruction")
        out.append((m.group(1), [v for k, v in args if k == "d"], [v for k, v in args if k == "q"], [v for k, v in args if k == "r"]))
        h.check([k for k, _ in args] == sorted((k for k, _ in args), key="dqr".index), f"arguments of {name} in order")
    return out


def place(h, kind, qubits, pars):
    """Add a gate of the library to the active circuit."""
    npar, nq, nc = GATES[kind][:3]
    cls = getattr(h.ops, kind)
    a = [pars[0] if npar == 1 else list(pars)] if npar else []
    if nc:
        return cls(*a, qubits[0], qubits[1])
    return cls(*a, qubits[0] if nq == 1 else tuple(qubits))


def layout(h, c, qs, cs):
    for n in qs:
        c.add_qregister(n)
    for n in cs:
        c.add_cregister(n)


def positions(items, wanted):
    return [next(i for i, y in enumerate(items) if y is x) for x in wanted]
