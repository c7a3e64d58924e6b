"""C20: light curves of surfaces with maps equal the integral over the visible disc."""
import math

import numpy as np

from ..core import Sub, ints, lists, loguni, pad, register, sym, uni
from ..oracles import disc, sph
from .c17 import angles
from .c19 import args, build, surfaces, truth

ASSUMPTIONS = ["oracle: Gauss quadrature of map x limb darkening over the whole disc, minus the part behind the occultor"]
NB = 6
KINDS = [(0, 0, 1, 1), (0, 1, 1, 1), (0, 2, 0, 0), (1, 0, 1, 1), (2, 0, 1, 1), (3, 2, 1, 1), (6, 1, 1, 1), (2, 3, 1, 0), (2, 1, 0, 1), (1, 2, 0, 0), (4, 2, 1, 1)]
TOL = {20: 8e-7, 60: 6e-9}


def occultor(prec="f64"):
    """(r, b, position angle, z): any overlap, contacts, behind, far away."""
    from hypothesis import strategies as st

    def out(t):
        r, x, d, k, s, pa, z = t
        b = [max(0.0, r - 1) + x * (1 + r - max(0.0, r - 1)), abs(1 - r) + s * d, 1 + r + s * d, r, x, x * 1e-6, 0.0,
             1 + r + 3 * x, max(0.0, r - 1) * x, r + s * d][k]
        return [r, abs(b), pa, z]

    d = loguni(1e-13, 0.3) if prec == "f64" else loguni(1e-3, 0.3)
    r = st.one_of(uni(0.01, 1.0), uni(0.01, 0.3), uni(0.5, 3.0), loguni(1e-3, 1.0), loguni(1.0, 50.0), st.sampled_from([0.5, 1.0]))
    if prec == "f32":
        r = uni(0.05, 0.6)
    ks = [0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9] if prec == "f64" else [0, 0, 0, 0, 2, 4, 7]
    z = st.sampled_from([1.0, 1.0, 1.0, 1.0, 30.0, 1e-3, -1.0, 0.0])
    return st.tuples(r, uni(0, 1), d, st.sampled_from(ks), st.sampled_from([1.0, -1.0]), angles(), z).map(out)


def integrals(s, normalize, theta, occ, weight=None):
    """(visible, whole) integrals over the disc of map x limb darkening (x weight)."""
    c, ori, ld, inc, obl = truth(s, normalize)
    O = ori(theta)

    def f(x, y, z):
        v = sph.map_value(c, *(O.T @ np.stack([x, y, z]))) * ld(z)
        return v if weight is None else v * weight(x, y, inc, obl)

    x, y, w = disc.full_nodes()
    z = np.sqrt(1 - x * x - y * y)
    whole = float(f(x, y, z) @ w)
    norm = math.pi / float(ld(z) @ w + 0 if s["u"] else math.pi)
    out = []
    for xo, yo, zo, r in occ:
        b = math.hypot(xo, yo)
        if zo <= 0 or b >= 1 + r:
            out.append(whole)
            continue
        if b <= r - 1:
            out.append(0.0)
            continue
        hx, hy, hz, hw = disc.hidden_nodes(b, r)
        # from the occultor at (0, b) to (xo, yo)
        cx, cy = (xo / b, yo / b) if b > 0 else (0.0, 1.0)
        out.append(whole - float(f(cy * hx + cx * hy, -cx * hx + cy * hy, hz) @ hw))
    return np.array(out), whole, norm


def make_flux(prec):
    import jax
    from hypothesis import strategies as st
    from jaxoplanet.starry.light_curves import surface_light_curve

    fns = {}

    def get(kind, normalize, order, mode):
        key = (kind, normalize, order, mode)
        if key not in fns:
            def f(a, th, o):
                S = build(kind, a, normalize)
                if mode == "none":
                    return surface_light_curve(S, theta=th, order=order)
                if mode == "x":  # the other coordinates left out
                    return surface_light_curve(S, o[3], x=o[0], z=o[2], theta=th, order=order)
                if mode == "y":
                    return surface_light_curve(S, o[3], y=o[1], z=o[2], theta=th, order=order)
                if mode == "precise":
                    return surface_light_curve(S, o[3], o[0], o[1], o[2], th, order=order, higher_precision=True)
                return surface_light_curve(S, o[3], o[0], o[1], o[2], th, order=order)
            fns[key] = jax.jit(jax.vmap(f, in_axes=(None, None, 0)))
        return fns[key]

    dt = np.float64 if prec == "f64" else np.float32

    def cast(v):
        return {k: np.asarray(x, dt) for k, x in v.items()}

    def prop(case, ctx):
        s, normalize, order, mode = case["surface"], case["normalize"], case["order"], case["mode"]
        kind = tuple(s["kind"])
        if mode == "precise" and sum(kind[:2]) > 4:
            mode = "all"
        if mode != "all":
            order = 20
        occ = np.array([[b * math.sin(pa), b * math.cos(pa), z, r] for r, b, pa, z in pad(case["occ"], NB)])
        if mode in "xy":
            occ[:, 1 if mode == "x" else 0] = 0.0
        occ = occ.astype(dt)
        got = np.asarray(get(kind, normalize, order, mode)(cast(args(s)), dt(s["theta"]), occ), float)
        if not ctx.f64:
            s = dict(s, **{k: (np.asarray(s[k], np.float32).astype(float).tolist() if isinstance(s[k], list) else float(np.float32(s[k])))
                           for k in ("y0", "y", "u", "inc", "obl", "theta", "amplitude")}, kind=s["kind"])
        occ = occ.astype(float)
        vis, whole, norm = integrals(s, normalize, s["theta"], occ)
        want = norm * (np.full(NB, whole) if mode == "none" else vis)
        c = truth(s, normalize)[0]
        scale = np.abs(c).sum() * (1 + np.abs(s["u"]).sum()) * norm
        tol = (TOL[order] if ctx.f64 else 2e-4) * scale
        for i in range(len(case["occ"])):
            c = tol + (1e-7 * scale if math.hypot(*occ[i, :2]) < 1e-7 else 0)  # next to the centre the occultor is moved by 3e-8
            ctx.close("flux", got[i], want[i], c, info=f"x, y, z, r = {occ[i].tolist()} kind {kind} mode {mode} order {order} normalize {normalize}")
            b = math.hypot(*occ[i, :2])
            part = occ[i, 2] > 0 and abs(1 - occ[i, 3]) < b < 1 + occ[i, 3]
            ctx.label("partial", part)
            ctx.label("behind", occ[i, 2] <= 0)
            ctx.label("hidden", occ[i, 2] > 0 and b <= occ[i, 3] - 1)
            ctx.label("centred", b == 0)
            ctx.nt(part and mode != "none")
        ctx.label(f"degree {kind[0]}")
        ctx.label(mode)

    kinds = KINDS if prec == "f64" else [(0, 2, 1, 1), (2, 1, 1, 1), (3, 2, 1, 1)]
    strat = st.fixed_dictionaries(dict(
        surface=surfaces(kinds), normalize=st.booleans(), order=st.sampled_from([20, 20, 20, 60]),
        mode=st.sampled_from(["all"] * 7 + ["none", "x", "y", "precise"]), occ=lists(occultor(prec), NB)))
    return strat, prop


register("C20",
         Sub("flux", make_flux, prec=("f64", "f32"), quick=170, thorough=5000, shards=6, tshards=7, f32_scale=0.3, rule="some occultor hides part of the disc"))
