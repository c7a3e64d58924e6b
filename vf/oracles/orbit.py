"""Two-body reference orbit in numpy, from the documented conventions (sky plane X, Y; +Z towards the
observer; i = pi/2 edge on; omega the argument of periastron, transit at true anomaly pi/2 - omega;
Omega rotates the sky plane).  Units: day, R_sun, M_sun, radian."""
import math

import numpy as np

from . import kepler

DAY = 86400.0
GM_SUN = 1.3271244e20
R_SUN = 6.957e8
AU = 1.49597870700e11
G = GM_SUN * DAY**2 / R_SUN**3  # R_sun^3 / (M_sun day^2)
AU_R = AU / R_SUN
GSI = 6.67430e-11
M_SUN_KG = GM_SUN / GSI
M_JUP = 1.2668653e17 / GM_SUN
M_EARTH = 3.986004e14 / GM_SUN
R_JUP = 7.1492e7 / R_SUN
R_EARTH = 6.3781e6 / R_SUN


def central(c):
    """c holds two (or fewer, see the defaults) of mass, radius, density."""
    m, r, d = c.get("mass"), c.get("radius"), c.get("density")
    if m is None and r is None:
        r = 1.0
        if d is None:
            m = 1.0
    if d is None:
        d = 3 * m / (4 * math.pi * r**3)
    elif r is None:
        r = (3 * m / (4 * math.pi * d)) ** (1.0 / 3.0)
    else:
        m = 4 * math.pi * r**3 * d / 3
    return m, r, d


class Orbit:
    def __init__(self, c, b):
        self.M, self.R, self.rho = central(c)
        self.m = b.get("mass")
        self.mt = self.M + (self.m or 0.0)
        if b.get("period") is not None:
            self.P = b["period"]
            self.a = (G * self.mt * self.P**2 / (4 * math.pi**2)) ** (1.0 / 3.0)
        else:
            self.a = b["semimajor"]
            self.P = 2 * math.pi * math.sqrt(self.a**3 / (G * self.mt))
        self.n = 2 * math.pi / self.P
        self.circ = b.get("ecc") is None
        self.e = 0.0 if self.circ else b["ecc"]
        self.w = 0.0 if self.circ else b["omega"]
        self.O = b.get("Omega") or 0.0
        e, w = self.e, self.w
        # eccentric anomaly at transit, f = pi/2 - omega
        f = math.pi / 2 - w
        E = math.atan2(math.sqrt(1 - e * e) * math.sin(f), e + math.cos(f))
        self.M0 = E - e * math.sin(E)
        self.r_transit = self.a * (1 - e * e) / (1 + e * math.sin(w))
        if b.get("impact") is not None:
            self.ci = b["impact"] * self.R / self.r_transit
            self.si = math.sqrt(max(0.0, 1 - self.ci**2))
            self.b = b["impact"]
        elif b.get("incl") is not None:
            self.ci, self.si = math.cos(b["incl"]), math.sin(b["incl"])
            self.b = self.ci * self.r_transit / self.R
        else:
            self.ci, self.si, self.b = 0.0, 1.0, 0.0
        if b.get("t_transit") is not None:
            self.t0 = b["t_transit"]
            self.tp = self.t0 - self.M0 / self.n
        elif b.get("t_peri") is not None:
            self.tp = b["t_peri"]
            self.t0 = self.tp + self.M0 / self.n
        else:
            self.t0 = 0.0
            self.tp = -self.M0 / self.n

    def anomaly(self, t):
        t = np.asarray(t, kepler.L)
        s, c, _, _ = kepler.solve(self.n * (t - self.tp), self.e)
        return np.asarray(s, float), np.asarray(c, float)

    def rotate(self, x, y, ci=None, si=None):
        ci = self.ci if ci is None else ci
        si = self.si if si is None else si
        cw, sw = math.cos(self.w), math.sin(self.w)
        x1, y1 = cw * x - sw * y, sw * x + cw * y
        X, Y, Z = x1, ci * y1, -si * y1
        cO, sO = math.cos(self.O), math.sin(self.O)
        return cO * X - sO * Y, sO * X + cO * Y, Z

    def relative(self, t):
        """Position of the body relative to the central (R_sun).  The orbital-plane vector is
        (-cos f, -sin f): that puts the body in front (Z > 0) at f = pi/2 - omega."""
        s, c = self.anomaly(t)
        r = self.a * (1 - self.e**2) / (1 + self.e * c)
        return np.stack(self.rotate(-r * c, -r * s))

    def relative_velocity(self, t):
        s, c = self.anomaly(t)
        k = self.n * self.a / math.sqrt(1 - self.e**2)
        return np.stack(self.rotate(k * s, -k * (c + self.e)))

    def rv(self, t, K):
        """Radial velocity of the central, redshift positive, for semi-amplitude K."""
        s, c = self.anomaly(t)
        cf = math.cos(self.w) * c - math.sin(self.w) * s
        return K * (cf * 0 + (math.sin(self.w) * -s + math.cos(self.w) * (c + self.e)))

    def same_turn(self, t, like):
        """A transit at apastron is half a period from the periastron before it and from the one after
        it: there, epochs count up to a period."""
        if abs(math.sin(self.w) + 1) > 1e-7:
            return t
        return t - round((t - like) / self.P) * self.P

    def dfdM_max(self):
        return (1 + self.e) ** 2 / (1 - self.e**2) ** 1.5
