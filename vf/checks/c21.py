"""C21: the radial velocity of a surface is the velocity field weighted by the visible light."""
import math

import numpy as np

from ..core import Sub, lists, pad, register, sym
from ..oracles import sph
from .c19 import args, build, surfaces, truth
from .c20 import integrals, occultor

ASSUMPTIONS = ["oracle: ratio of two Gauss quadratures over the visible part of the disc"]
NB = 6
KINDS = [(0, 0, 1, 1), (0, 1, 1, 1), (0, 2, 0, 0), (1, 0, 1, 1), (2, 1, 1, 1), (3, 2, 1, 1), (5, 0, 1, 1), (2, 0, 1, 0), (2, 1, 0, 1)]
TOL = {20: 2e-6, 60: 2e-8}


def velocity(x, y, inc, obl):
    """Line of sight velocity of solid rotation, in units of the equatorial one (receding > 0)."""
    return math.sin(inc) * (x * math.cos(obl) + y * math.sin(obl))


def make_rv(prec):
    import jax
    from hypothesis import strategies as st
    from jaxoplanet.starry.doppler import surface_radial_velocity

    fns = {}

    def get(kind, normalize, order, mode):
        key = (kind, normalize, order, mode)
        if key not in fns:
            def f(a, th, o):
                S = build(kind, a, normalize, period=None if mode == "still" else a["period"], phase=a["phase"], radius=a["radius"])
                if mode == "none":
                    return surface_radial_velocity(S, theta=th, order=order)
                if mode == "precise":
                    return surface_radial_velocity(S, o[3], o[0], o[1], o[2], th, order=order, higher_precision=True)
                return surface_radial_velocity(S, o[3], o[0], o[1], o[2], th, order=order)
            fns[key] = jax.jit(jax.vmap(f, in_axes=(None, None, 0)))
        return fns[key]

    dt = np.float64 if prec == "f64" else np.float32

    def cast(v):
        return {k: np.asarray(x, dt) for k, x in v.items()}

    def prop(case, ctx):
        s, normalize, order, mode = case["surface"], case["normalize"], case["order"], case["mode"]
        kind = tuple(s["kind"])
        if mode == "precise" and sum(kind[:2]) > 3:
            mode = "all"
        if mode != "all":
            order = 20
        occ = np.array([[b * math.sin(pa), b * math.cos(pa), z, r] for r, b, pa, z in pad(case["occ"], NB)]).astype(dt)
        got = np.asarray(get(kind, normalize, order, mode)(cast(args(s)), dt(s["theta"]), occ), float)
        if not ctx.f64:
            s = dict(s, **{k: (np.asarray(s[k], np.float32).astype(float).tolist() if isinstance(s[k], list) else float(np.float32(s[k])))
                           for k in ("y0", "y", "u", "inc", "obl", "theta", "amplitude", "period", "radius")})
        occ = occ.astype(float)
        if mode == "none":
            occ[:, 2] = -1.0
        light, _, norm = integrals(s, normalize, s["theta"], occ)
        veq = 0.0 if mode == "still" else 2 * math.pi * s["radius"] / s["period"]
        moved, _, _ = integrals(s, normalize, s["theta"], occ, velocity)
        scale = np.abs(truth(s, normalize)[0]).sum() * (1 + np.abs(s["u"]).sum())
        t = (TOL[order] if ctx.f64 else 4e-4) * scale
        k = 0
        for i in range(len(case["occ"])):
            b = math.hypot(*occ[i, :2])
            gone = occ[i, 2] > 0 and b <= occ[i, 3] - 1
            info = f"x, y, z, r = {occ[i].tolist()} kind {kind} mode {mode} order {order} normalize {normalize}"
            if gone and b < occ[i, 3] - 1 - 1e-6 * occ[i, 3]:
                ctx.close("velocity of a hidden surface", got[i], 0.0, 0.0, info=info)
                ctx.label("hidden")
                continue
            if abs(light[i]) < 300 * t:  # nothing left to weigh by
                ctx.label("almost no light")
                continue
            want = moved[i] / light[i]
            c = t + (1e-7 * scale if b < 1e-7 else 0)  # next to the centre the occultor is moved by 3e-8
            ctx.close("radial velocity", got[i], veq * want, veq * c / abs(light[i]) * (1 + abs(want)), info=info)
            part = occ[i, 2] > 0 and abs(1 - occ[i, 3]) < b < 1 + occ[i, 3] or b < 1 - occ[i, 3]
            ctx.label("occulted", part)
            ctx.label("centred", b == 0 and occ[i, 2] > 0)
            ctx.nt((part or kind[0] > 0) and veq > 0 and bool(kind[2]) and abs(math.sin(s["inc"])) > 1e-3)
        ctx.label(f"inclination {'' if kind[2] else 'not '}given")
        ctx.label(mode)

    kinds = KINDS if prec == "f64" else [(0, 2, 1, 1), (2, 1, 1, 1)]
    strat = st.fixed_dictionaries(dict(
        surface=surfaces(kinds), normalize=st.booleans(), order=st.sampled_from([20, 20, 20, 60]),
        mode=st.sampled_from(["all"] * 8 + ["none", "none", "still", "precise"]), occ=lists(occultor(prec), NB)))
    return strat, prop


def make_field(prec):
    """The velocity field itself, of solid or differential rotation (omega = omega_eq (1 - alpha sin^2(latitude)))."""
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.starry.doppler import rv_map_expansion

    dt = np.float64 if prec == "f64" else np.float32

    def prop(case, ctx):
        v, alpha = float(dt(case["veq"])), case["alpha"]
        inc, obl = (None if a is None else float(dt(a)) for a in (case["inc"], case["obl"]))
        alpha = None if alpha is None else float(dt(alpha))
        y = np.asarray(rv_map_expansion(veq=dt(v), inc=None if inc is None else jnp.asarray(inc, dt), obl=None if obl is None else jnp.asarray(obl, dt),
                                        alpha=None if alpha is None else jnp.asarray(alpha, dt)), float)
        ctx.true("degree", y.shape == ((4,) if alpha is None else (16,)), str(y.shape))
        x, yy, z = np.array([p for p in case["points"]]).T
        n = np.sqrt(x * x + yy * yy + z * z)
        ok = n > 0.1
        x, yy, z = x[ok] / n[ok], yy[ok] / n[ok], z[ok] / n[ok]
        i, o = inc or 0.0, obl or 0.0
        # the pole of the surface as seen on the sky; north is up, the observer along z
        pole = np.array([-math.sin(i) * math.sin(o), math.sin(i) * math.cos(o), math.cos(i)])
        lat = pole[0] * x + pole[1] * yy + pole[2] * z
        want = v * velocity(x, yy, i, o) * (1 - (alpha or 0.0) * lat**2)
        tol = (1e-13 if ctx.f64 else 3e-6) * abs(v) * (1 + abs(alpha or 0.0))
        ctx.close("line of sight velocity", sph.map_value(y, x, yy, z), want, tol, info=str({k: case[k] for k in ("veq", "inc", "obl", "alpha")}))
        ctx.label("differential", alpha is not None)
        ctx.label("inc given", inc is not None)
        ctx.nt(inc is not None and abs(math.sin(i)) > 1e-3 and v != 0)

    ang = st.one_of(st.none(), sym(7.0), st.sampled_from([0.0, math.pi / 2, -math.pi / 2, math.pi]))
    return st.fixed_dictionaries(dict(veq=sym(50.0), inc=ang, obl=ang, alpha=st.one_of(st.none(), sym(1.0), st.just(0.0)),
                                      points=st.lists(st.tuples(sym(1.0), sym(1.0), sym(1.0)), min_size=4, max_size=4))), prop


register("C21",
         Sub("field", make_field, prec=("f64", "f32"), quick=120, thorough=3000, shards=1, tshards=2, f32_scale=0.5, rule="an inclined rotating surface"),
         Sub("rv", make_rv, prec=("f64", "f32"), quick=150, thorough=4000, shards=6, tshards=7, f32_scale=0.3,
             rule="the equator moves along the line of sight and the light is not centrally symmetric (map or occultor)"))
