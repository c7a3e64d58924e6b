"""First derivatives of the reference orbit by the complex step: every quantity is a numpy complex number
whose imaginary part carries h times the derivative along one direction (exact to rounding)."""
import numpy as np

from . import kepler
from .orbit import G

H = 1e-30


def atan2(y, x):
    y, x = np.asarray(y, complex), np.asarray(x, complex)
    d = x.real**2 + y.real**2
    return np.arctan2(y.real, x.real) + 1j * (x.real * y.imag - y.real * x.imag) / d


def split(M, e):
    """(sin f, cos f) of the true anomaly for complex mean anomaly and eccentricity."""
    Mr, er = np.real(M), float(np.real(e))
    _, _, _, E = kepler.solve(np.asarray(Mr, kepler.L), er)
    E = np.asarray(E, float)
    E = np.broadcast_to(E, np.shape(M)).astype(complex)
    # one Newton step in the complex plane is exact to first order in the imaginary part
    E = E + 1j * np.imag(M - (E - e * np.sin(E))) / (1 - er * np.cos(E.real))
    d = 1 - e * np.cos(E)
    return np.sqrt((1 - e) * (1 + e)) * np.sin(E) / d, (np.cos(E) - e) / d


def central(c):
    m, r, d = c.get("mass"), c.get("radius"), c.get("density")
    if m is None and r is None:
        r = 1.0
        if d is None:
            m = 1.0
    if d is None:
        d = 3 * m / (4 * np.pi * r**3)
    elif r is None:
        r = (3 * m / (4 * np.pi * d)) ** (1.0 / 3.0)
    else:
        m = 4 * np.pi * r**3 * d / 3
    return m, r, d


class Orbit:
    """Same conventions as oracles.orbit.Orbit; sin/cos pairs may be given instead of angles."""

    def __init__(self, c, b):
        self.M, self.R, self.rho = central(c)
        self.m = b.get("mass")
        mt = self.mt = self.M + (0.0 if self.m is None else self.m)
        if b.get("period") is not None:
            self.P = b["period"]
            self.a = (G * mt * self.P**2 / (4 * np.pi**2)) ** (1.0 / 3.0)
        else:
            self.a = b["semimajor"]
            self.P = 2 * np.pi * self.a * np.sqrt(self.a / (G * mt))
        self.n = 2 * np.pi / self.P
        e = self.e = 0.0 if b.get("ecc") is None else b["ecc"]
        if "omega" in b:
            self.sw, self.cw = np.sin(b["omega"]), np.cos(b["omega"])
        elif "sin_omega" in b:
            self.sw, self.cw = b["sin_omega"], b["cos_omega"]
        else:
            self.sw, self.cw = 0.0, 1.0
        if "Omega" in b:
            self.sO, self.cO = np.sin(b["Omega"]), np.cos(b["Omega"])
        elif "sin_Omega" in b:
            self.sO, self.cO = b["sin_Omega"], b["cos_Omega"]
        else:
            self.sO, self.cO = 0.0, 1.0
        # the eccentric anomaly of the transit, at the true anomaly pi/2 - omega
        E = atan2(np.sqrt((1 - e) * (1 + e)) * self.cw, e + self.sw)
        M0 = E - e * np.sin(E)
        rt = self.a * (1 - e * e) / (1 + e * self.sw)
        if "impact" in b:
            self.ci = b["impact"] * self.R / rt
            self.si = np.sqrt((1 - self.ci) * (1 + self.ci))
        elif "incl" in b:
            self.ci, self.si = np.cos(b["incl"]), np.sin(b["incl"])
        else:
            self.ci, self.si = 0.0, 1.0
        if "t_transit" in b:
            self.tp = b["t_transit"] - M0 / self.n
        elif "t_peri" in b:
            self.tp = b["t_peri"]
        else:
            self.tp = -M0 / self.n

    def rotate(self, x, y):
        x1, y1 = self.cw * x - self.sw * y, self.sw * x + self.cw * y
        X, Y, Z = x1, self.ci * y1, -self.si * y1
        return self.cO * X - self.sO * Y, self.sO * X + self.cO * Y, Z

    def relative(self, t):
        s, c = split(self.n * (t - self.tp), self.e)
        r = self.a * (1 - self.e**2) / (1 + self.e * c)
        return np.stack(self.rotate(-r * c, -r * s))

    def relative_velocity(self, t):
        s, c = split(self.n * (t - self.tp), self.e)
        k = self.n * self.a / np.sqrt(1 - self.e**2)
        return np.stack(self.rotate(k * s, -k * (c + self.e)))

    def rv(self, t, K):
        """Redshift of the central for the semi-amplitude K (in the units of K)."""
        s, c = split(self.n * (t - self.tp), self.e)
        return K * (self.cw * (c + self.e) - self.sw * s)


def directional(f, p, v):
    """Derivative of f at the dictionary p of floats along the dictionary v."""
    q = {k: x + 1j * H * v[k] for k, x in p.items()}
    return np.imag(f(q)) / H
