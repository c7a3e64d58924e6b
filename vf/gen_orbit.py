"""Generators for Keplerian systems (JSON-able parameter dictionaries) and their construction
through the public API."""
import math

import numpy as np

from .core import loguni, sym, uni


def st():
    from hypothesis import strategies

    return strategies


def sincos(w):
    """(sin, cos), with the exact values a user would write at the quarter turns."""
    for k in range(-4, 5):
        if w == k * math.pi / 2:
            return float(round(math.sin(w))), float(round(math.cos(w)))
    return math.sin(w), math.cos(w)


QUARTERS = [k * math.pi / 2 for k in (-1, 0, 1, 2, 3)]


def central_params():
    S = st()
    m, r, d = loguni(0.05, 20.0), loguni(0.05, 20.0), loguni(1e-3, 10.0)
    return S.one_of(
        S.fixed_dictionaries({"mass": m, "radius": r}),
        S.fixed_dictionaries({"mass": m, "density": d}),
        S.fixed_dictionaries({"radius": r, "density": d}),
        S.fixed_dictionaries({"density": d}),
        S.just({}),
    )


def opt(x):
    return st().one_of(st().none(), x)


def angles():
    return st().one_of(sym(math.pi), st().sampled_from([0.0, math.pi / 2, -math.pi / 2, math.pi, math.pi / 3]), sym(7.0))


def body_params(need_mass=False, emax=0.95, allow_retro=True):
    S = st()
    ecc = S.one_of(uni(0.0, 0.6), uni(0.0, emax), S.sampled_from([0.0, 0.3, emax]))
    mass = loguni(1e-8, 2.0)
    incl = S.one_of(uni(0.0, math.pi) if allow_retro else uni(0.0, math.pi / 2),
                    uni(1.4, math.pi / 2), S.sampled_from([0.0, math.pi / 2, math.pi / 3]))
    return S.fixed_dictionaries({
        "size": S.one_of(S.tuples(S.just("period"), loguni(0.1, 5000.0)), S.tuples(S.just("x_semimajor"), loguni(1.3, 1000.0))),
        "shape": S.one_of(S.none(), S.tuples(uni(0.01, 0.8), angles(), S.just("angle")), S.tuples(uni(0.01, 0.9), S.one_of(sym(math.pi), S.sampled_from(QUARTERS)), S.just("sincos")), S.tuples(ecc, angles(), S.sampled_from(["angle", "sincos"]))),
        "tilt": S.one_of(S.none(), S.tuples(S.just("incl"), incl), S.tuples(S.just("x_impact"), S.one_of(uni(0.0, 1.0), uni(0.0, 0.2), S.just(0.0)))),
        "node": S.one_of(S.none(), S.tuples(angles(), S.sampled_from(["angle", "sincos"]))),
        "epoch": S.one_of(S.none(), S.tuples(S.sampled_from(["t_transit", "t_peri"]), S.one_of(sym(50.0), sym(3000.0)))),
        "mass": mass if need_mass else opt(mass),
        "radius": opt(loguni(1e-3, 2.0)),
    })


def resolve(c, b):
    """Flatten a generated case to oracle parameters.  `x_semimajor` is in stellar radii and
    `x_impact` a fraction of the largest impact parameter the orbit allows, so that every generated
    orbit exists (|cos i| <= 1, pericentre outside the star is not required)."""
    from .oracles import orbit as O

    M, R, _ = O.central(c)
    p = {"mass": b["mass"], "radius": b["radius"]}
    kind, v = b["size"]
    if kind == "period":
        p["period"] = v
        a = (O.G * (M + (b["mass"] or 0)) * v * v / (4 * math.pi**2)) ** (1 / 3)
    else:
        p["semimajor"] = v * R
        a = v * R
    e, w = 0.0, 0.0
    if b["shape"] is not None:
        e, w = b["shape"][0], b["shape"][1]
        p["ecc"], p["omega"], p["omega_form"] = e, w, b["shape"][2]
    if b["tilt"] is not None:
        if b["tilt"][0] == "incl":
            p["incl"] = b["tilt"][1]
        else:
            bmax = a * (1 - e * e) / (1 + e * math.sin(w)) / R
            # small fractions of the orbit, or a grazing-to-central transit
            p["impact"] = min(b["tilt"][1] * 1.2, 0.95 * bmax * b["tilt"][1])
    if b["node"] is not None:
        p["Omega"], p["Omega_form"] = b["node"][0], b["node"][1]
    if b["epoch"] is not None:
        p[b["epoch"][0]] = b["epoch"][1]
    return p


def kwargs(p, units=False):
    """Keyword arguments of jaxoplanet's Body for oracle parameters p; `units` passes quantities in
    other units instead of bare numbers."""
    from jaxoplanet.units import unit_registry as ureg

    from .oracles import orbit as O

    q = (lambda x, u, f: (x / f) * u) if units else (lambda x, u, f: x)
    k = {}
    if p.get("period") is not None:
        k["period"] = q(p["period"], ureg.hour, 1 / 24)
    if p.get("semimajor") is not None:
        k["semimajor"] = q(p["semimajor"], ureg.au, O.AU_R)
    if p.get("ecc") is not None:
        k["eccentricity"] = p["ecc"]
        if p["omega_form"] == "angle":
            k["omega_peri"] = q(p["omega"], ureg.degree, math.pi / 180)
        else:
            k["sin_omega_peri"], k["cos_omega_peri"] = sincos(p["omega"])
    if p.get("incl") is not None:
        k["inclination"] = q(p["incl"], ureg.degree, math.pi / 180)
    if p.get("impact") is not None:
        k["impact_param"] = p["impact"]
    if p.get("Omega") is not None:
        if p["Omega_form"] == "angle":
            k["asc_node"] = q(p["Omega"], ureg.degree, math.pi / 180)
        else:
            k["sin_asc_node"], k["cos_asc_node"] = sincos(p["Omega"])
    if p.get("t_transit") is not None:
        k["time_transit"] = q(p["t_transit"], ureg.minute, 1 / 1440)
    if p.get("t_peri") is not None:
        k["time_peri"] = q(p["t_peri"], ureg.second, 1 / 86400)
    if p.get("mass") is not None:
        k["mass"] = q(p["mass"], ureg.M_jupiter, O.M_JUP)
    if p.get("radius") is not None:
        k["radius"] = q(p["radius"], ureg.R_earth, O.R_EARTH)
    return k


def ckwargs(c, units=False):
    from jaxoplanet.units import unit_registry as ureg

    from .oracles import orbit as O

    if not units:
        return dict(c)
    k = {}
    if "mass" in c:
        k["mass"] = c["mass"] * O.M_SUN_KG * ureg.kg
    if "radius" in c:
        k["radius"] = c["radius"] * O.R_SUN / 1e3 * ureg.km
    if "density" in c:
        k["density"] = c["density"] * O.M_SUN_KG / O.R_SUN**3 * ureg.kg / ureg.m**3
    return k


def times(o, phases):
    """Epochs (floats) at the given orbital phases/offsets, including the reference epochs."""
    return np.array([o.t0 + x * o.P for x in phases])


def phases():
    S = st()
    return S.lists(S.one_of(sym(0.5), S.sampled_from([0.0, 0.5, 0.25]), sym(20.0), sym(0.01)), min_size=1, max_size=8)
