"""C23: maps made from a description: spots, limb darkening."""
import math

import numpy as np

from ..core import Sub, ints, lists, loguni, pad, register, sym, uni
from ..oracles import disc, sph
from .c17 import angles
from .c20 import occultor

ASSUMPTIONS = ["oracle: the documented least-squares Legendre fit of the spot's profile, in numpy, as a function of the angular distance to the spot"]
NP = 12
# degree, points of the profile, steepness of its edge
SPOTS = [(0, None, None), (1, None, None), (3, None, None), (5, None, None), (4, 500, None), (3, 1000, 1000), (6, None, 50)]


def profile(deg, npts, fac):
    """r -> Legendre coefficients of the spot's profile (contrast 1)."""
    npts, fac = npts or 300, fac or 300
    th = np.linspace(0, math.pi, npts)
    B = np.stack([math.sqrt(2 * l + 1) * np.polynomial.legendre.legval(np.cos(th), [0] * l + [1]) for l in range(deg + 1)], 1)
    s = 0.5 if deg < 4 else 2.0 / deg
    l = np.arange(deg + 1)
    fit = np.exp(-0.5 * l * (l + 1) * s * s)[:, None] * np.linalg.solve(B.T @ B + 1e-9 * np.eye(deg + 1), B.T)

    def coeffs(r):
        b = 1 / (1 + np.exp(np.clip(-fac * (th - r), -700, 700))) - 1
        return fit @ b

    return coeffs


def spot_value(a, cosd):
    return np.polynomial.legendre.legval(cosd, a * np.sqrt(2 * np.arange(len(a)) + 1))


def centre(lat, lon):
    return np.array([math.cos(lat) * math.sin(lon), math.sin(lat), math.cos(lat) * math.cos(lon)])


def make_spot(prec):
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.starry.ylm import ylm_spot

    dt = np.float64 if prec == "f64" else np.float32
    fns = {}

    def get(kind):
        if kind not in fns:
            deg, npts, fac = kind
            kw = {k: v for k, v in (("npts", npts), ("spot_fac", fac)) if v}
            make = ylm_spot(deg, **kw)
            one = lambda p: make(p[0], p[1], p[2], p[3]).todense()

            def both(p, w):
                y, pull = jax.vjp(one, p)
                return y, jax.jacfwd(one)(p), pull(w)[0]
            fns[kind] = jax.jit(both), jax.jit(lambda p: make(p[0], p[1]).todense()), profile(*kind)
        return fns[kind]

    def prop(case, ctx):
        kind = tuple(case["kind"])
        deg = kind[0]
        p = np.array([case["contrast"], case["r"], case["lat"], case["lon"]], dt)
        both, middle, coeffs = get(kind)
        w = np.cos(np.arange((deg + 1) ** 2) + 1.0).astype(dt)
        y, J, gr = (np.asarray(v, float) for v in both(p, w))
        bare = np.asarray(middle(p), float) if deg <= 3 else None
        p = p.astype(float)
        ctx.true("number of coefficients", y.shape == ((deg + 1) ** 2,), y.shape)
        pts = pad(case["points"], NP)
        q = np.stack([np.cos(pts[:, 0]) * np.sin(pts[:, 1]), np.sin(pts[:, 0]), np.cos(pts[:, 0]) * np.cos(pts[:, 1])])
        q = np.concatenate([q, centre(p[2], p[3])[:, None], -centre(p[2], p[3])[:, None]], 1)

        def want(p):
            return (1 + p[0] * spot_value(coeffs(p[1]), centre(p[2], p[3]) @ q)) / math.pi

        size = 1 + abs(p[0]) * (1 + deg)
        tol = (1e-9 if ctx.f64 else 1e-4) * size
        ctx.close("intensity around the spot", sph.map_value(y, *q), want(p), tol, info=f"degree, points, steepness {kind}")
        ctx.close("mean intensity", y[0], 1 + p[0] * coeffs(p[1])[0], tol)
        if bare is not None:
            ctx.close("spot in the middle of the map by default", sph.map_value(bare, *q), want([p[0], p[1], 0.0, 0.0]), tol)
        # derivatives of the intensities
        G = np.stack([sph.map_value(J[:, i], *q) for i in range(4)])
        fac = kind[2] or 300
        th = math.pi / ((kind[1] or 300) - 1)
        smooth = fac * th < 3  # the sum over the profile's points varies smoothly with the radius
        for i, name in enumerate(["contrast", "radius", "latitude", "longitude"]):
            h = [1e-4, 1e-3 / fac * 10, 1e-4, 1e-4][i]
            e = np.eye(4)[i] * h
            num = (8 * (want(p + e) - want(p - e)) - (want(p + 2 * e) - want(p - 2 * e))) / (12 * h)
            gs = (1 + abs(p[0])) * (1 + deg) ** 2 * (1 if i != 1 else 1 + fac * th)
            if i == 1 and not smooth:
                ctx.true("finite derivative with respect to the radius", np.isfinite(G[i]))
                continue
            ctx.close(f"derivative with respect to the {name}", G[i], num, (1e-5 if ctx.f64 else 2e-3) * gs, info=f"{kind} at {p.tolist()}")
        ctx.close("reverse mode derivative", gr, w @ J, (1e-9 if ctx.f64 else 1e-3) * (1 + np.abs(J).sum(0)))
        ctx.label("at latitude or longitude 0", p[2] == 0 or p[3] == 0)
        ctx.label(f"degree {deg}")
        ctx.nt(deg >= 1 and abs(p[0]) > 0.01 and 0.02 < p[1] < 3.1)

    lat = st.one_of(sym(math.pi / 2), sym(math.pi / 2), st.sampled_from([0.0, 0.0, math.pi / 2, -math.pi / 2]), loguni(1e-9, 0.1))
    lon = st.one_of(sym(math.pi), st.just(0.0), angles())
    strat = st.fixed_dictionaries(dict(
        kind=st.sampled_from(SPOTS if prec == "f64" else SPOTS[:4]), contrast=st.one_of(uni(0, 1), sym(2.0), st.just(1.0)), r=st.one_of(uni(0.05, 1.0), uni(0.0, math.pi)),
        lat=lat, lon=lon, points=lists(st.tuples(sym(math.pi / 2), sym(math.pi)), NP)))
    return strat, prop


def make_limb(prec):
    import jax
    from hypothesis import strategies as st
    from jaxoplanet.core.limb_dark import light_curve
    from jaxoplanet.starry.light_curves import surface_light_curve
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm

    fns = {}

    def get(n):
        if n not in fns:
            def f(y, u, o):
                a = surface_light_curve(Surface(y=Ylm.from_dense(y, normalize=False), normalize=False), o[3], o[0], o[1], o[2])
                b = surface_light_curve(Surface(u=u), o[3], o[0], o[1], o[2])
                return a, b
            fns[n] = jax.jit(jax.vmap(f, in_axes=(None, None, 0)))
        return fns[n]

    z, _ = disc.gl(20)
    z = 0.5 * (z + 1)
    s = np.sqrt(1 - z * z)
    phi = np.arange(20) * 1.7

    def prop(case, ctx):
        u = case["u"]
        n = len(u)
        total = math.pi * (1 - sum(2 * v / ((i + 2) * (i + 3)) for i, v in enumerate(u)))
        if abs(total) < 0.05:
            from ..core import Reject
            raise Reject("the star emits nothing")
        Y = Ylm.from_limb_darkening(np.array(u) if case["array"] else tuple(u))
        y = np.asarray(Y.todense(), float)
        scale = (1 + np.abs(u).sum()) / abs(total) * 4**n
        ctx.true("degree", Y.deg == n and y.shape == ((n + 1) ** 2,), f"{Y.deg}, {y.shape}")
        want = (1 - sum(v * (1 - z) ** (i + 1) for i, v in enumerate(u))) / total
        ctx.close("intensity on the disc", sph.map_value(y, s * np.cos(phi), s * np.sin(phi), z), want, 1e-12 * scale, info=f"u = {u}")
        x, yy, w = disc.full_nodes()
        ctx.close("flux of the disc", sph.map_value(y, x, yy, np.sqrt(1 - x * x - yy * yy)) @ w, 1.0, 1e-12 * scale)
        occ = np.array([[b * math.sin(pa), b * math.cos(pa), zo, r] for r, b, pa, zo in pad(case["occ"], 4)])
        a, b = (np.asarray(v, float) for v in get(n)(y, np.array(u), occ))
        ctx.close("occulted: as a map and as limb darkening", a, b, 2e-6 * scale, info=f"u = {u}, occultors {occ.tolist()}")
        ctx.nt(n >= 1 and max(map(abs, u)) > 0.01)
        ctx.label(f"{n} coefficients")

    strat = st.fixed_dictionaries(dict(u=ints(0, 6).flatmap(lambda n: st.lists(sym(0.7), min_size=n, max_size=n)), array=st.booleans(),
                                       occ=lists(occultor(prec), 4)))
    return strat, prop


register("C23",
         Sub("spot", make_spot, prec=("f64", "f32"), quick=120, thorough=6000, shards=5, tshards=5, f32_scale=0.3, rule="a spot of visible contrast on a map that can hold one"),
         Sub("limb", make_limb, quick=60, thorough=3000, shards=2, tshards=4, rule="some limb darkening"))
