"""Little-endian against big-endian simulation."""
from props.circ import KINDS, circuit, reversed_bits, wide
from props.gates import GATES
from sx.api import Harness

KERNELS = True
PRELOAD = ("dwave.gate.simulator.simulator", "dwave.gate.operations")
BOUNDS = (
    "pure states of up to 3 qubits (4 thorough), density matrices of up to 2 qubits (3 thorough): an arbitrary product "
    "state, then any one supported gate or any sequence of 2 on any ordered choice of distinct qubits, any parameters; one gate at selected positions of 4 or 5 qubits"
)
OUTSIDE = "other larger circuits (the kernels alone are decided for any size by S04); measurements, which little-endian simulation refuses"


def both(h, n, kinds, mixed, phases, larger=False):
    c, _ = wide(h, n, kinds[0]) if larger else circuit(h, n, kinds, phases)
    h.sim.simulate(c, mixed_state=mixed, little_endian=False)
    big = h.tolist(c.density_matrix if mixed else c.state)
    h.sim.simulate(c, mixed_state=mixed, little_endian=True)
    little = h.tolist(c.density_matrix if mixed else c.state)
    r = [reversed_bits(i, n) for i in range(1 << n)]
    want = [[big[i][j] for j in r] for i in r] if mixed else [big[i] for i in r]
    h.check_matrix(little, want, f"little-endian {'density matrix' if mixed else 'state'}, {'+'.join(kinds)}")


def sequence(h, n, k, pool, mixed):
    both(h, n, [h.choice(f"kind{i}", pool) for i in range(k)], mixed, False)


def measured(h, mixed):
    """Measurements are refused in little-endian simulation."""
    c = h.circuit.Circuit(2, 1)
    with c.context:
        h.ops.Hadamard(c.qubits[0])
        h.ops.Measurement(c.qubits[0]) | c.bits[0]
    h.check_raises("little-endian measurement", h.sim.simulate, c, mixed_state=mixed, little_endian=True, exc=h.circuit.CircuitError)
    h.check(c.bits[0].value is None, "no outcome of a refused measurement")


def harnesses(tier):
    out = []
    deep = tier == "thorough"
    for g, (npar, nq, nc, _) in GATES.items():
        n = min(max(nq, 2) + deep, 4)
        for m in range(nq, n + 1):
            out.append(Harness(f"{g}-{m}", both, n=m, kinds=(g,), mixed=False, phases=m < 3))
        for m in range(nq, (2 if nq < 3 else 3) + 1):
            out.append(Harness(f"{g}-{m}-mixed", both, n=m, kinds=(g,), mixed=True, phases=m < 2))
    for k, n in (("user", 2), ("cuser", 2), ("ccuser", 3)):
        out.append(Harness(f"{k}-{n}", both, n=n, kinds=(k,), mixed=False, phases=n < 3))
        out.append(Harness(f"{k}-{n}-mixed", both, n=n, kinds=(k,), mixed=True, phases=False))
    out.append(Harness("cuser-3", both, n=3, kinds=("cuser",), mixed=False, phases=False))
    out.append(Harness("sequence", sequence, n=3, k=2, pool=KINDS if deep else ("CY", "CSWAP", "SWAP", "cuser", "CCX"), mixed=False))
    out.append(Harness("sequence-mixed", sequence, n=2, k=2, pool=("Y", "CRY", "SWAP", "cuser", "user"), mixed=True))
    for k in ("RX", "CRY", "SWAP", "CSWAP", "CCX"):
        for n in (4, 5):
            out.append(Harness(f"larger-{n}-{k}", both, n=n, kinds=(k,), mixed=False, phases=False, larger=True))
        out.append(Harness(f"larger-4-{k}-mixed", both, n=4, kinds=(k,), mixed=True, phases=False, larger=True))
    for m in (False, True):
        out.append(Harness(f"measured-{m}", measured, mixed=m))
    return out
