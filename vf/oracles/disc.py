"""Quadrature nodes over the unit disc and over the part of it that an occultor hides."""
import math

import numpy as np

_GL = {}


def gl(n):
    if n not in _GL:
        _GL[n] = np.polynomial.legendre.leggauss(n)
    return _GL[n]


_FULL = {}


def full_nodes(nr=24, nphi=48):
    """(x, y, w) exact for polynomials (times z) over the whole disc up to degree ~2 nr."""
    k = (nr, nphi)
    if k not in _FULL:
        # rho = sqrt(1 - c^2): rho drho = c dc, smooth in c = z
        c, w = gl(nr)
        c, w = 0.5 * (c + 1), 0.5 * w
        rho = np.sqrt(1 - c * c)
        phi = 2 * np.pi * (np.arange(nphi) + 0.5) / nphi
        X = rho[:, None] * np.cos(phi)
        Y = rho[:, None] * np.sin(phi)
        W = (w * c)[:, None] * np.full(nphi, 2 * np.pi / nphi)
        _FULL[k] = X.ravel(), Y.ravel(), W.ravel()
    return _FULL[k]


def _piece(a, b, n):
    """Nodes on [a, b] with square-root behaviour at both ends smoothed away."""
    t, w = gl(n)
    t, w = 0.5 * np.pi * (t + 1), 0.5 * np.pi * w
    h = 0.5 * (b - a)
    return a + 2 * h * np.sin(0.5 * t) ** 2, w * h * np.sin(t), 2 * h * np.cos(0.5 * t) ** 2  # last: b - rho


def hidden_nodes(b, r, nr=80, nphi=40):
    """(x, y, z, w) over {unit disc} n {disc of radius r centred on (0, b)}; empty lists if none."""
    b, r = abs(float(b)), float(r)
    if b >= 1 + r or r <= 0:
        return (np.zeros(0),) * 4
    xs, ys, zs, ws = [], [], [], []

    def add(rho, w, one_minus, phi1, phi2):
        t, v = gl(nphi)
        phi = 0.5 * (phi1 + phi2)[:, None] + 0.5 * (phi2 - phi1)[:, None] * t
        W = (w * rho * 0.5 * (phi2 - phi1))[:, None] * v
        z = np.sqrt(np.maximum(0, one_minus * (1 + rho)))[:, None] * np.ones_like(phi)
        xs.append((rho[:, None] * np.cos(phi)).ravel())
        ys.append((rho[:, None] * np.sin(phi)).ravel())
        zs.append(z.ravel())
        ws.append(W.ravel())

    lo, hi = abs(b - r), min(1.0, b + r)
    if r > b:  # rings entirely hidden: rho < r - b
        top = min(1.0, r - b)
        rho, w, d = _piece(0.0, top, nr)
        one = d + (1 - top)
        phi = np.full_like(rho, np.pi)
        # a full ring: split in two halves so that Gauss nodes resolve it
        for a in range(4):
            add(rho, w, one, -np.pi + a * np.pi / 2 + 0 * phi, -np.pi + (a + 1) * np.pi / 2 + 0 * phi)
    if hi > lo:
        rho, w, d = _piece(lo, hi, nr)
        one = d + (1 - hi)
        s = (rho * rho + (b - r) * (b + r)) / (2 * np.where(rho * b > 0, rho * b, 1))
        # half width of the hidden arc around +y, from the half-angle formula (no cancellation)
        e = rho - lo  # distance above the inner edge
        u = np.arccos(np.clip(s, -1, 1))
        # sin^2(u/2) = (r^2 - (rho - b)^2) / (4 rho b)
        s2 = (r - rho + b) * (r + rho - b) / (4 * np.where(rho * b > 0, rho * b, 1))
        u = 2 * np.arcsin(np.sqrt(np.clip(s2, 0, 1)))
        for a in range(2):
            add(rho, w, one, np.pi / 2 + (a - 1) * u, np.pi / 2 + a * u)
    return tuple(np.concatenate(v) for v in (xs, ys, zs, ws))


def poly_integral(i, j, k):
    """Exact integral of x^i y^j z^k (k = 0 or 1) over the unit disc."""
    if i % 2 or j % 2:
        return 0.0
    # angular: 2 B((i+1)/2, (j+1)/2); radial: int rho^(i+j+1) (1-rho^2)^(k/2)
    g = math.lgamma
    ang = 2 * math.exp(g((i + 1) / 2) + g((j + 1) / 2) - g((i + j + 2) / 2))
    n = i + j + 2
    rad = 0.5 * math.exp(g(n / 2) + g(k / 2 + 1) - g(n / 2 + k / 2 + 1))
    return ang * rad
