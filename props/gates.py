"""Textbook definitions of the built-in gates (the oracle of G01, independent of the code)."""


def _ctrl(m, k=1):
    d = len(m)
    n = d << k
    out = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i in range(d):
        for j in range(d):
            out[n - d + i][n - d + j] = m[i][j]
    return out


def rx(h, t):
    c, s = h.cos(t / 2), h.sin(t / 2)
    return [[c, -1j * s], [-1j * s, c]]


def ry(h, t):
    c, s = h.cos(t / 2), h.sin(t / 2)
    return [[c, -1 * s], [s, c]]


def rz(h, t):
    return [[h.expi(t / -2), 0], [0, h.expi(t / 2)]]


def mul(a, b):
    n = len(a)
    return [[sum((a[i][k] * b[k][j] for k in range(n)), 0) for j in range(n)] for i in range(n)]


def rot(h, beta, gamma, delta):
    """Rotation(beta, gamma, delta): RZ(beta) first, then RY(gamma), then RZ(delta)."""
    return mul(rz(h, delta), mul(ry(h, gamma), rz(h, beta)))


R2 = 2 ** -0.5
ID = [[1, 0], [0, 1]]
X = [[0, 1], [1, 0]]
Y = [[0, -1j], [1j, 0]]
Z = [[1, 0], [0, -1]]
SWAP = [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]


def had(h):
    r = 1 / h.np.sqrt(2)
    return [[r, r], [r, -1 * r]]


def tgate(h):
    r = 1 / h.np.sqrt(2)
    return [[1, 0], [0, r + 1j * r]]


# name: (parameters, qubits, controls, matrix(h, *parameters))
GATES = {
    "Identity": (0, 1, 0, lambda h: ID),
    "X": (0, 1, 0, lambda h: X),
    "Y": (0, 1, 0, lambda h: Y),
    "Z": (0, 1, 0, lambda h: Z),
    "Hadamard": (0, 1, 0, had),
    "S": (0, 1, 0, lambda h: [[1, 0], [0, 1j]]),
    "T": (0, 1, 0, tgate),
    "RX": (1, 1, 0, rx),
    "RY": (1, 1, 0, ry),
    "RZ": (1, 1, 0, rz),
    "Rotation": (3, 1, 0, rot),
    "CX": (0, 2, 1, lambda h: _ctrl(X)),
    "CY": (0, 2, 1, lambda h: _ctrl(Y)),
    "CZ": (0, 2, 1, lambda h: _ctrl(Z)),
    "CHadamard": (0, 2, 1, lambda h: _ctrl(had(h))),
    "CRX": (1, 2, 1, lambda h, t: _ctrl(rx(h, t))),
    "CRY": (1, 2, 1, lambda h, t: _ctrl(ry(h, t))),
    "CRZ": (1, 2, 1, lambda h, t: _ctrl(rz(h, t))),
    "CRotation": (3, 2, 1, lambda h, b, g, d: _ctrl(rot(h, b, g, d))),
    "SWAP": (0, 2, 0, lambda h: SWAP),
    "CSWAP": (0, 3, 0, lambda h: _ctrl(SWAP)),
    "CCX": (0, 3, 0, lambda h: _ctrl(X, 2)),
}
ALIASES = {
    "Phase": "S", "P": "S", "CNOT": "CX", "Fredkin": "CSWAP", "Toffoli": "CCX", "CCNOT": "CCX",
}
