"""Concrete side of S04: small sizes through the real build, large ones through the compiled header."""
import cmath
import os
import shutil
import subprocess
import tempfile

M = [[0.3 + 0.1j, -0.7 + 0.2j], [0.45 - 0.6j, 0.15 + 0.8j]]
X = [[0, 1], [1, 0]]
CNAME = {
    "gate": "single_qubit", "cgate": "apply_gate_control", "ccgate": "apply_gate_two_control",
    "ccx": "apply_gate_two_control", "swap": "apply_swap", "cswap": "apply_cswap",
}


def generic_state(n):
    v = [cmath.exp(1j * (0.37 * i + 0.05 * i * i)) * (1 + (i * 7919) % 101) for i in range(2**n)]
    s = sum(abs(x) ** 2 for x in v) ** 0.5
    return [x / s for x in v]


def run(h, kind, little, n, controls, targets, op, m):
    from props.S04 import operation

    if kind != "sample":
        op, m = operation(h, kind, M)
    if n > 13:
        return large(h, kind, little, n, controls, targets, m)
    amps = generic_state(n)
    state = h.array(amps)
    if kind == "sample":
        return sample(h, n, targets[0], amps, little)
    h.sim.apply_instruction(n, state, op, controls + targets, little, None)
    h.check_matrix(state, ref(n, little, controls, targets, m, amps), "state after the kernel")


def ref(n, little, controls, targets, m, amps):
    def pos(q):
        return q if little else n - 1 - q

    out = list(amps)
    cmask = sum(1 << pos(q) for q in controls)
    tm = [1 << pos(q) for q in targets]
    k = len(tm)
    for x in range(2**n):
        if x & cmask != cmask:
            continue
        row = 0
        base = x
        for t in tm:
            row = 2 * row + (1 if x & t else 0)
            base &= ~t
        acc = 0
        for col in range(1 << k):
            if m[row][col] != 0:
                y = base
                for j, t in enumerate(tm):
                    if (col >> (k - 1 - j)) & 1:
                        y |= t
                acc += m[row][col] * amps[y]
        out[x] = acc
    return out


def sample(h, n, q, amps, little):
    class Rng:
        def __init__(self, u):
            self.u = u

        def uniform(self, *a, **k):
            return self.u

        random = uniform

    mask = 1 << (q if little else n - 1 - q)
    p0 = sum(abs(a) ** 2 for i, a in enumerate(amps) if not i & mask)
    for u, want in ((p0 * 0.5, 0), (p0 * 0.999, 0), (min(0.9999, p0 + (1 - p0) * 0.001), 1), (0.5 * (1 + p0), 1)):
        st = h.array(amps)
        got = h.sim.sample_qubit(q, st, Rng(u), little_endian=little)
        h.check(got == want, "sampled outcome")
        p = p0 if want == 0 else 1 - p0
        h.check_matrix(
            st, [a / p**0.5 if bool(i & mask) == bool(want) else 0 for i, a in enumerate(amps)], "state after the measurement"
        )


DRIVER = r"""
#include <cstdint>
#include <complex>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
#include "HEADER"
int main() {
  uint64_t n = NQ;
  size_t bytes = (n >= 42 ? ((size_t)1 << 45) : ((size_t)16 << n));
  char *mem = (char*) mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mem == MAP_FAILED) { puts("nomem"); return 5; }
  std::complex<double> *s = (std::complex<double>*) mem;
  SETUP
  alarm(3);
  CALL;
  bool bad = false;
  CHECKS
  puts(bad ? "WRONG" : "RIGHT");
  return 0;
}
"""


def large(h, kind, little, n, controls, targets, m):
    if kind == "sample":
        name, args = "measurement_computational_basis_op0_norm", [targets[0]]
        mat = "nullptr"
    else:
        name = CNAME[kind]
        args = targets[::-1] + controls if kind in ("swap", "cswap") else targets + controls
        mat = "g"
    name += "_little_endian" if little else "_big_endian"

    def pos(q):
        return q if little else n - 1 - q

    base = sum(1 << pos(q) for q in controls)
    tm = [1 << pos(q) for q in targets]
    k = len(tm)
    setup, checks = [], []
    if m is not None:
        flat = [complex(x) for r in (m if k == 1 else X) for x in r]
        setup.append("std::complex<double> g[] = {%s};" % ", ".join(f"{{{x.real!r},{x.imag!r}}}" for x in flat))
        vals = [0.3 + 0.1 * i - 0.2j * i for i in range(1 << k)]
        idx = []
        for col in range(1 << k):
            y = base
            for j, t in enumerate(tm):
                if (col >> (k - 1 - j)) & 1:
                    y |= t
            idx.append(y)
            if n < 42:
                setup.append(f"s[{y}ull] = {{{vals[col].real!r}, {vals[col].imag!r}}};")
        for r in range(1 << k):
            w = sum(complex(m[r][c]) * vals[c] for c in range(1 << k))
            if n < 42:
                checks.append(f"bad |= std::abs(s[{idx[r]}ull] - std::complex<double>({w.real!r}, {w.imag!r})) > 1e-9;")
    call = f"{name}(n, s, {mat}, {', '.join(f'{a}ull' for a in args)})"
    d = tempfile.mkdtemp(prefix="s04-")
    try:
        header = os.path.join(h.build, "dwave", "gate", "simulator", "ops.h")
        with open(os.path.join(d, "d.cpp"), "w") as f:
            f.write(
                DRIVER.replace("HEADER", header).replace("NQ", f"{n}ull").replace("SETUP", "\n  ".join(setup))
                .replace("CALL", call).replace("CHECKS", "\n  ".join(checks))
            )
        subprocess.run(
            ["g++", "-std=c++17", "-O1", "-fsanitize=undefined", "-fno-sanitize-recover=undefined", "-o", "d", "d.cpp"],
            cwd=d, check=True, capture_output=True,
        )
        try:
            r = subprocess.run(["./d"], cwd=d, capture_output=True, text=True, timeout=20)
        except subprocess.TimeoutExpired:
            return
        h.check("runtime error" not in r.stderr, f"undefined behaviour in {name}({n}, ..., {args}): {r.stderr.strip()[:200]}")
        h.check(r.returncode not in (-11, -7, -6), f"{name}({n}, ..., {args}) crashes with signal {-r.returncode}")
        h.check("WRONG" not in r.stdout, f"{name}({n}, ..., {args}) leaves wrong amplitudes")
    finally:
        shutil.rmtree(d, ignore_errors=True)
