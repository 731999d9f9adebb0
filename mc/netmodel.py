# -*- coding: utf-8 -*-
"""Reference model of multiports: the set of port voltages and currents the
network admits, computed from the textbook definition of each parameter kind
with plain complex arithmetic."""
import cmath


def mat(rows):
    return [[complex(x) for x in r] for r in rows]


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b)))
             for j in range(len(b[0]))] for i in range(len(a))]


def add(a, b, s=1):
    return [[x + s * y for x, y in zip(r, q)] for r, q in zip(a, b)]


def eye(n):
    return [[complex(i == j) for j in range(n)] for i in range(n)]


def hconj(a):
    return [[a[i][j].conjugate() for i in range(len(a))]
            for j in range(len(a[0]))]


class Singular(Exception):
    pass


def inverse(a):
    """Gauss-Jordan with full pivoting on the column"""
    n = len(a)
    m = [list(map(complex, r)) + e for r, e in zip(a, eye(n))]
    scale = max(abs(x) for r in a for x in r) or 1.0
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if abs(m[p][c]) < 1e-9 * scale:
            raise Singular()
        m[c], m[p] = m[p], m[c]
        d = m[c][c]
        m[c] = [x / d for x in m[c]]
        for r in range(n):
            if r != c and m[r][c] != 0:
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    return [r[n:] for r in m]


def det(a):
    n = len(a)
    if n == 1:
        return a[0][0]
    return sum((-1) ** j * a[0][j] *
               det([r[:j] + r[j + 1:] for r in a[1:]]) for j in range(n))


def waves(V, I, Z0):
    """V, I: lists of rows (one per port, one column per solution)"""
    s = cmath.sqrt(Z0)
    a = [[(v / s + i * s) / 2 for v, i in zip(rv, ri)] for rv, ri in zip(V, I)]
    b = [[(v / s - i * s) / 2 for v, i in zip(rv, ri)] for rv, ri in zip(V, I)]
    return a, b


def unwaves(a, b, Z0):
    s = cmath.sqrt(Z0)
    V = [[s * (x + y) for x, y in zip(ra, rb)] for ra, rb in zip(a, b)]
    I = [[(x - y) / s for x, y in zip(ra, rb)] for ra, rb in zip(a, b)]
    return V, I


def neg(row):
    return [-x for x in row]


def solutions(kind, M, Z0=50.):
    """-> (V, I): N rows x N independent solutions"""
    n = len(M)
    E = eye(n)
    if kind == "Z":
        return mul(M, E), E
    if kind == "Y":
        return E, mul(M, E)
    out = mul(M, E)
    if kind == "H":     # V1 I2 = H  I1 V2
        return [out[0], E[1]], [E[0], out[1]]
    if kind == "G":     # I1 V2 = G  V1 I2
        return [E[0], out[1]], [out[0], E[1]]
    if kind == "ABCD":  # V1 I1 = A  V2 -I2
        return [out[0], E[0]], [out[1], neg(E[1])]
    if kind == "S":     # b = S a
        return unwaves(E, out, Z0)
    if kind == "T":     # b1 a1 = T  a2 b2
        return unwaves([out[1], E[0]], [out[0], E[1]], Z0)
    if kind == "Tp":    # a1 b1 = Tp b2 a2
        return unwaves([out[0], E[1]], [out[1], E[0]], Z0)
    raise ValueError(kind)


def parameters(kind, V, I, Z0=50.):
    """The matrix of *kind* that admits the solutions V, I"""
    a, b = waves(V, I, Z0)
    outs, ins = {
        "Z": lambda: (V, I), "Y": lambda: (I, V),
        "H": lambda: ([V[0], I[1]], [I[0], V[1]]),
        "G": lambda: ([I[0], V[1]], [V[0], I[1]]),
        "ABCD": lambda: ([V[0], I[0]], [V[1], neg(I[1])]),
        "S": lambda: (b, a),
        "T": lambda: ([b[0], a[0]], [a[1], b[1]]),
        "Tp": lambda: ([a[0], b[0]], [b[1], a[1]]),
    }[kind]()
    return mul(outs, inverse(ins))


def convert(src, dst, M, Z0s=50., Z0d=50.):
    V, I = solutions(src, M, Z0s)
    return parameters(dst, V, I, Z0d)


def cascade(*abcds):
    """ABCD matrices (as V1 I1 = A V2 -I2) multiply"""
    r = abcds[0]
    for m in abcds[1:]:
        r = mul(r, m)
    return r


def close(a, b, tol=1e-8):
    scale = max([abs(x) for r in b for x in r] + [1e-300])
    return (len(a) == len(b) and len(a[0]) == len(b[0]) and
            all(abs(x - y) <= tol * max(abs(y), scale * 1e-3)
                for r, q in zip(a, b) for x, y in zip(r, q)))
