"""Density-matrix simulation against pure-state simulation."""
from props.circ import KINDS, circuit, outer, repeated, wide, width
from props.gates import GATES
from sx.api import Harness

KERNELS = True
PRELOAD = ("dwave.gate.simulator.simulator", "dwave.gate.operations")
BOUNDS = (
    "circuits of up to 3 qubits: an arbitrary product state, then any one supported gate or any sequence of 2 on any "
    "ordered choice of distinct qubits, any parameters; operation objects recorded several times; one gate at selected positions of 4 qubits; also complex user-defined unitaries"
)
OUTSIDE = "other larger circuits; floating-point rounding"


def compare(h, n, kinds, phases, again=False, larger=False):
    c, _ = repeated(h, n, kinds[0], phases) if again else wide(h, n, kinds[0]) if larger else circuit(h, n, kinds, phases)
    h.sim.simulate(c)
    v = h.tolist(c.state)
    want = outer(h, v)
    h.check_matrix(c.density_matrix, want, "density matrix of the pure state")
    h.check_matrix(c.state, v, "reading the density matrix keeps the state")
    h.sim.simulate(c, mixed_state=True)
    rho = h.tolist(c.density_matrix)
    h.check_matrix(rho, want, f"density-matrix simulation of {'+'.join(kinds)}")
    h.check_raises("reading a mixed state as a vector", lambda: c.state)
    tr = 0
    for i in range(len(rho)):
        tr = tr + rho[i][i]
        for j in range(i + 1):
            h.check_close(rho[i][j], h.conj(rho[j][i]), "Hermitian")
    h.check_close(tr, 1, "unit trace")


def sequence(h, n, k, pool):
    compare(h, n, [h.choice(f"kind{i}", pool) for i in range(k)], False)


def harnesses(tier):
    out = []
    deep = tier == "thorough"
    for g, (npar, nq, nc, _) in GATES.items():
        for n in range(nq, (3 if deep else max(nq, 2)) + 1):
            out.append(Harness(f"{g}-{n}", compare, n=n, kinds=(g,), phases=n < 2 or (deep and n == 2)))
    out.append(Harness("user-2", compare, n=2, kinds=("user",), phases=True))
    out.append(Harness("cuser-2", compare, n=2, kinds=("cuser",), phases=True))
    out.append(Harness("ccuser-3", compare, n=3, kinds=("ccuser",), phases=False))
    out.append(Harness("sequence", sequence, n=2, k=2, pool=("Y", "T", "RX", "CRX", "CY", "SWAP", "cuser", "user") if deep else ("RX", "CRX", "SWAP", "cuser", "T")))
    for k in ("RX", "CRY", "SWAP", "CCX", "CSWAP"):
        out.append(Harness(f"larger-4-{k}", compare, n=4, kinds=(k,), phases=False, larger=True))
    for k in ("RY", "CRX", "cuser") if deep else ("RY",):
        out.append(Harness(f"again-{k}", compare, n=max(2, width(k)), kinds=(k,), phases=False, again=True))
    return out
