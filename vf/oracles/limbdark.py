"""Brute-force eclipse integral for a radially symmetric polynomial limb-darkening law."""
import numpy as np

_X, _W = np.polynomial.legendre.leggauss(120)
_T = 0.5 * np.pi * _X  # sin substitution removes the square-root end-point behaviour
_XS, _WS = np.sin(_T), 0.5 * np.pi * np.cos(_T) * _W


def intensity(u, mu):
    out = np.ones_like(mu)
    for i, ui in enumerate(u):
        out = out - ui * (1 - mu) ** (i + 1)
    return out


def total(u):
    """Disc-integrated flux, exact: int_0^1 I(mu) 2 pi mu dmu."""
    t = np.pi
    for i, ui in enumerate(u):
        n = i + 1
        # int_0^1 (1-mu)^n mu dmu = 1/((n+1)(n+2))
        t = t - ui * 2 * np.pi / ((n + 1) * (n + 2))
    return t


def blocked(u, b, r):
    """Flux hidden by a disc of radius r at distance b from the centre of the unit disc."""
    b, r = abs(float(b)), abs(float(r))
    if b >= 1 + r or r == 0:
        return 0.0
    if r >= 1 + b:
        return total(u)
    pts = {0.0, 1.0}
    for x in (abs(b - r), b + r):
        if 0 < x < 1:
            pts.add(x)
    pts = sorted(pts)
    acc = 0.0
    for lo, hi in zip(pts[:-1], pts[1:]):
        h = 0.5 * (hi - lo)
        if h == 0:
            continue
        m = 0.5 * (lo + hi)
        rho = m + h * _XS
        w = h * _WS
        if m < r - b:
            th = np.full_like(rho, np.pi)
        elif m <= abs(b - r) or m >= b + r:
            th = np.zeros_like(rho)
        else:
            # 2-atan form of the angle opposite side r in the triangle (rho, b, r): stable at the ends
            num = np.maximum((r - (b - rho)) * (r + (b - rho)), 0)
            den = np.maximum((b + rho - r) * (b + rho + r), 1e-300)
            th = 2 * np.arctan(np.sqrt(num / den))
        mu = np.sqrt(np.maximum((1 - rho) * (1 + rho), 0))
        acc += np.sum(w * intensity(u, mu) * 2 * th * rho)
    return acc


def light_curve(u, b, r):
    return -blocked(u, b, r) / total(u)


def blocked_grad(u, b, r):
    """(d blocked/db, d blocked/dr): line integrals of the intensity along the occultor's limb."""
    b, r = float(b), float(r)
    if b >= 1 + r or r >= 1 + b or r == 0:
        return 0.0, 0.0
    if b + r <= 1:
        phi0 = 0.0
    else:
        # points of the limb at angle phi from the outward direction lie inside the unit disc
        # when 1 - b^2 - r^2 - 2 b r cos(phi) >= 0, i.e. phi >= phi0
        num = (b + r - 1) * (b + r + 1)
        den = (1 - b + r) * (1 + b - r)
        if den <= 0:
            return 0.0, 0.0
        phi0 = 2 * np.arctan2(np.sqrt(max(num, 0)), np.sqrt(den))
    h, m = 0.5 * (np.pi - phi0), 0.5 * (np.pi + phi0)
    phi = m + h * _XS
    w = h * _WS
    z2 = 1 - b * b - r * r - 2 * b * r * np.cos(phi)
    mu = np.sqrt(np.clip(z2, 0, None))
    I = intensity(u, mu)
    return 2 * r * np.sum(w * I * np.cos(phi)), 2 * r * np.sum(w * I)
