"""Rotated maps and integrals over the disc in arbitrary precision, in an mpmath context of its own.

Polynomials are {(i, j, k): c} for x^i y^j z^k; k is 0 or 1 once z^2 = 1 - x^2 - y^2 is used.
"""
from functools import lru_cache

import mpmath

from . import sph

M = mpmath.ctx_mp.MPContext()
M.dps = 80
PI = M.pi


def num(x):
    """A number of any mpmath context (or of Python) as it is."""
    return M.convert(getattr(x, "real", x))


def add(p, q, f=1):
    out = dict(p)
    for k, v in q.items():
        out[k] = out.get(k, 0) + f * v
    return out


def times(p, q):
    out = {}
    for (i, j, k), v in p.items():
        for (a, b, c), w in q.items():
            if k + c < 2:
                out[i + a, j + b, k + c] = out.get((i + a, j + b, k + c), 0) + v * w
            else:
                for di, dj, s in ((0, 0, 1), (2, 0, -1), (0, 2, -1)):
                    key = (i + a + di, j + b + dj, 0)
                    out[key] = out.get(key, 0) + s * v * w
    return out


@lru_cache(None)
def norm(l, m):
    """The norm of the real harmonics times 2 / sqrt(pi): the emission of the disc is 1."""
    am = abs(m)
    return M.sqrt(M.mpf((2 - (am == 0)) * (2 * l + 1)) * M.factorial(l - am) / (4 * PI * M.factorial(l + am))) * 2 / M.sqrt(PI)


@lru_cache(None)
def ylm(n):
    l, m = sph.lm(n)
    return {k: M.mpf(v.numerator) / v.denominator * norm(l, m) for k, v in sph.ylm_poly(l, m).items()}


def function(coeffs):
    out = {}
    for n, c in enumerate(coeffs):
        out = add(out, ylm(n), num(c))
    return out


def rot(axis, theta):
    a = [num(v) for v in axis]
    s = M.sqrt(sum(v * v for v in a))
    x, y, z = (v / s for v in a)
    theta = num(theta)
    c, s = M.cos(theta), M.sin(theta)
    o = 2 * M.sin(theta / 2) ** 2
    return [[c + x * x * o, x * y * o - z * s, x * z * o + y * s],
            [y * x * o + z * s, c + y * y * o, y * z * o - x * s],
            [z * x * o - y * s, z * y * o + x * s, c + z * z * o]]


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def orientation(inc, obl, theta):
    return mul(mul(rot([0, 0, 1], obl), rot([1, 0, 0], PI / 2 - num(inc))), rot([0, 1, 0], theta))


def turned(p, R):
    """The function p -> f(R^-1 p)."""
    lin = [{(1, 0, 0): R[0][i], (0, 1, 0): R[1][i], (0, 0, 1): R[2][i]} for i in range(3)]
    out = {}
    for (i, j, k), v in p.items():
        term = {(0, 0, 0): v}
        for f, n in zip(lin, (i, j, k)):
            for _ in range(n):
                term = times(term, f)
        out = add(out, term)
    return out


def limb_darkening(u):
    """1 - sum u_i (1 - z)^i"""
    out = {(0, 0, 0): M.mpf(1)}
    power = {(0, 0, 0): M.mpf(1)}
    for c in u:
        power = times(power, {(0, 0, 0): M.mpf(1), (0, 0, 1): -M.mpf(1)})
        out = add(out, power, -num(c))
    return out


@lru_cache(None)
def whole(i, j, k):
    if i % 2 or j % 2:
        return M.mpf(0)
    h = lambda v: M.gamma(M.mpf(v) / 2)
    return h(i + 1) * h(j + 1) * h(k + 2) / (2 * h(i + j + k + 4)) * 2


def disc(p):
    return sum((v * whole(*k) for k, v in p.items()), M.mpf(0))


def _arc(i, j, u):
    """int of cos^i sin^j over [pi/2 - u, pi/2 + u]: zero for odd i; by recurrence otherwise."""
    if i % 2:
        return M.mpf(0)
    # about the +y axis: sin^i(t) cos^j(t) over [-u, u]
    s, c = M.sin(u), M.cos(u)

    def I(a, b):
        if a >= 2:
            return (-2 * s ** (a - 1) * c ** (b + 1) + (a - 1) * I(a - 2, b)) / (a + b)
        if b >= 2:
            return (2 * c ** (b - 1) * s ** (a + 1) + (b - 1) * I(a, b - 2)) / (a + b)
        return 2 * u if b == 0 else 2 * s
    return I(i, j)


def hidden(p, b, r):
    """Integral over the part of the disc behind the circle of radius r centred on (0, b)."""
    b, r = num(b), num(r)
    if b >= 1 + r:
        return M.mpf(0)
    if b <= r - 1:
        return disc(p)
    keys = [k for k, v in p.items() if v != 0 and k[0] % 2 == 0]
    if not keys:
        return M.mpf(0)

    def ring(rho, one, u):
        z = M.sqrt(one * (1 + rho))
        return sum((p[i, j, k] * rho ** (i + j + 1) * (z if k else 1) * _arc(i, j, u) for i, j, k in keys), M.mpf(0))

    lo, hi = abs(b - r), min(M.mpf(1), b + r)
    out = M.mpf(0)
    if r > b:
        out += M.quad(lambda rho: ring(rho, 1 - rho, PI), [0, r - b])

    def part(rho):
        s2 = (r - rho + b) * (r + rho - b) / (4 * rho * b)
        return ring(rho, 1 - rho, 2 * M.asin(M.sqrt(min(M.mpf(1), max(M.mpf(0), s2)))))
    if b > 0:
        out += M.quad(part, [lo, (lo + hi) / 2, hi])
    return out


def visible(p, b, r):
    return disc(p) - hidden(p, b, r)


def limb_powers(n):
    """z^n"""
    out = {(0, 0, 0): M.mpf(1)}
    for _ in range(n):
        out = times(out, {(0, 0, 1): M.mpf(1)})
    return out
