"""Real spherical harmonics on the sky-facing sphere, written without anything from jaxoplanet.

z points to the observer; Y_lm has no Condon-Shortley phase: N_lm * dP_l^|m|/dz^|m|(z) *
Re (x+iy)^m for m >= 0 and Im (x+iy)^|m| for m < 0, N the orthonormal normalization.
"""
import math
from fractions import Fraction
from functools import lru_cache

import numpy as np


def lm(n):
    l = math.isqrt(n)
    return l, n - l * l - l


@lru_cache(None)
def legendre_poly(l):
    """Exact coefficients (ascending powers) of P_l."""
    if l == 0:
        return (Fraction(1),)
    if l == 1:
        return (Fraction(0), Fraction(1))
    a, b = legendre_poly(l - 1), legendre_poly(l - 2)
    out = [Fraction(0)] * (l + 1)
    for i, c in enumerate(a):
        out[i + 1] += Fraction(2 * l - 1, l) * c
    for i, c in enumerate(b):
        out[i] -= Fraction(l - 1, l) * c
    return tuple(out)


@lru_cache(None)
def ylm_poly(l, m):
    """Exact rational part of Y_lm as {(i, j, k): Fraction}, k in (0, 1) (z^2 = 1 - x^2 - y^2)."""
    am = abs(m)
    q = list(legendre_poly(l))
    for _ in range(am):
        q = [q[i] * i for i in range(1, len(q))]
    # (x + iy)^am: real or imaginary part
    az = {}
    for j in range(am + 1):
        c = math.comb(am, j)
        if m >= 0 and j % 2 == 0:
            az[(am - j, j)] = Fraction(c * (-1) ** (j // 2))
        if m < 0 and j % 2 == 1:
            az[(am - j, j)] = Fraction(c * (-1) ** ((j - 1) // 2))
    out = {}
    for e, c in enumerate(q):
        if c == 0:
            continue
        h, k = divmod(e, 2)
        for s in range(h + 1):
            for t in range(h - s + 1):
                w = c * (-1) ** (s + t) * Fraction(math.factorial(h), math.factorial(s) * math.factorial(t) * math.factorial(h - s - t))
                for (i, j), a in az.items():
                    key = (i + 2 * s, j + 2 * t, k)
                    out[key] = out.get(key, 0) + w * a
    return {k: v for k, v in out.items() if v != 0}


@lru_cache(None)
def norm(l, m):
    am = abs(m)
    return math.sqrt(float(Fraction((2 - (am == 0)) * (2 * l + 1) * math.factorial(l - am), 4 * math.factorial(l + am)))) / math.sqrt(math.pi)


@lru_cache(None)
def ptilde(n):
    """Powers of the n-th polynomial: x^(mu/2) y^(nu/2), or z x^((mu-1)/2) y^((nu-1)/2)."""
    l, m = lm(n)
    mu, nu = l - m, l + m
    if nu % 2 == 0:
        return mu // 2, nu // 2, 0
    return (mu - 1) // 2, (nu - 1) // 2, 1


def pindex(i, j, k):
    l = i + j + k
    return l * l + 2 * j + k  # m = j - i (k = 0 or 1), n = l^2 + l + m


@lru_cache(None)
def A1(lmax):
    """Spherical harmonics -> polynomials, with the 2/sqrt(pi) that makes a unit map emit pi * 1/pi."""
    n = (lmax + 1) ** 2
    M = np.zeros((n, n))
    for c in range(n):
        l, m = lm(c)
        f = norm(l, m) * 2 / math.sqrt(math.pi)
        for (i, j, k), v in ylm_poly(l, m).items():
            M[pindex(i, j, k), c] = float(v) * f
    return M


def eval_ylm(lmax, x, y, z):
    """Array (n, npts) of Y_lm at unit vectors, by the stable normalized recursion."""
    x, y, z = (np.asarray(v, float) for v in (x, y, z))
    n = (lmax + 1) ** 2
    out = np.zeros((n,) + x.shape)
    # q[m] = N * d^m P_l / dz^m, via fully normalized recursion without the sin^m factor
    re, im = np.ones_like(x), np.zeros_like(x)
    for m in range(lmax + 1):
        # q_mm = sqrt((2m+1)!!/(2m)!!)-like factor
        c = 1.0
        for k in range(1, m + 1):
            c *= (2 * k + 1) / (2 * k)
        qmm = math.sqrt(c / (4 * math.pi)) * np.ones_like(x)
        f = math.sqrt(2.0) if m else 1.0
        prev2, prev = None, qmm
        for l in range(m, lmax + 1):
            if l == m:
                q = qmm
            elif l == m + 1:
                q = math.sqrt(2 * m + 3) * z * qmm
            else:
                a = math.sqrt((4 * l * l - 1) / (l * l - m * m))
                b = math.sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1))
                q = a * (z * prev - b * prev2)
            if l > m:
                prev2, prev = prev, q
            out[l * l + l + m] = f * q * re
            if m:
                out[l * l + l - m] = f * q * im
        re, im = re * x - im * y, re * y + im * x
    return out


def eval_poly(n, x, y, z):
    """Array (n, npts) of the polynomial basis."""
    x, y, z = (np.asarray(v, float) for v in (x, y, z))
    d = math.isqrt(n - 1) + 1 if n else 0
    px, py = [np.ones_like(x)], [np.ones_like(y)]
    for _ in range(d):
        px.append(px[-1] * x)
        py.append(py[-1] * y)
    pz = (np.ones_like(z), z)
    return np.stack([px[i] * py[j] * pz[k] for i, j, k in map(ptilde, range(n))])


def map_value(coeffs, x, y, z):
    """Intensity (unit y_00 -> 1/pi) of a map at points of its own frame."""
    c = np.asarray(coeffs, float)
    lmax = math.isqrt(len(c)) - 1
    return (2 / math.sqrt(math.pi)) * np.tensordot(c, eval_ylm(lmax, x, y, z), 1)


def rot(axis, theta):
    """Active right-handed rotation matrix."""
    a = np.asarray(axis, float)
    a = a / np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(theta) * K + (1 - math.cos(theta)) * (K @ K)


_PTS = {}


def sphere_points(lmax):
    """Points on which band-limited functions are determined (Gauss x equal angles), with weights."""
    if lmax not in _PTS:
        nz, nphi = lmax + 1, 2 * lmax + 2
        z, w = np.polynomial.legendre.leggauss(nz)
        phi = 2 * np.pi * (np.arange(nphi) + 0.5) / nphi
        Z, PHI = np.meshgrid(z, phi, indexing="ij")
        W = np.repeat(w[:, None], nphi, 1) * 2 * np.pi / nphi
        s = np.sqrt(1 - Z**2)
        _PTS[lmax] = (s * np.cos(PHI)).ravel(), (s * np.sin(PHI)).ravel(), Z.ravel(), W.ravel()
    return _PTS[lmax]


def rotate_coeffs(coeffs, R):
    """Coefficients of p -> f(R^-1 p), f given by `coeffs` (exact projection by quadrature)."""
    c = np.asarray(coeffs, float)
    lmax = math.isqrt(len(c)) - 1
    x, y, z, w = sphere_points(lmax)
    q = R.T @ np.stack([x, y, z])
    f = np.tensordot(c, eval_ylm(lmax, *q), 1)
    return eval_ylm(lmax, x, y, z) @ (f * w)


def analyse(values, lmax):
    """Coefficients up to lmax of a band-limited function sampled on sphere_points(lmax)."""
    x, y, z, w = sphere_points(lmax)
    return eval_ylm(lmax, x, y, z) @ (values * w)


def orientation(inc, obl, theta):
    """Active rotation that takes the map's own frame (equator-on, pole +y, longitude 0 facing the
    observer) to the sky: spin by theta about +y, tilt the pole, then turn it on the sky."""
    # pole at inclination inc from +z: tilting +y towards the observer by (pi/2 - inc) about +x
    return rot([0, 0, 1], obl) @ rot([1, 0, 0], math.pi / 2 - inc) @ rot([0, 1, 0], theta)
