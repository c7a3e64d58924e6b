"""C19: what a surface looks like: intensities, rendered images, orientation, amplitude."""
import math

import numpy as np

from ..core import Sub, ints, lists, loguni, pad, register, sym, uni
from ..oracles import sph
from .c17 import angles

ASSUMPTIONS = ["oracle: the map evaluated in its own frame at the inversely rotated point, times limb darkening and amplitude"]
NP = 8
RES = 9
# degree of the map, number of limb darkening coefficients, inclination given, obliquity given
KINDS = [(0, 0, 1, 1), (1, 0, 1, 1), (2, 0, 1, 1), (3, 2, 1, 1), (5, 1, 1, 1), (2, 3, 1, 0), (2, 1, 0, 1), (3, 0, 0, 0), (0, 2, 1, 1), (4, 2, 1, 0)]


def surfaces(kinds=KINDS, small=False):
    """Parameters of a surface; y00 away from zero."""
    from hypothesis import strategies as st

    def of(k):
        ny, nu = (k[0] + 1) ** 2, k[1]
        dense = st.lists(sym(0.3 if small else 1.0), min_size=ny - 1, max_size=ny - 1)
        one = st.tuples(ints(0, max(0, ny - 2)), sym(0.3 if small else 1.0)).map(lambda t: [t[1] * (i == t[0]) for i in range(ny - 1)])
        return st.fixed_dictionaries(dict(
            kind=st.just(k), y0=st.one_of(st.just(1.0), uni(0.2, 3.0)), y=st.one_of(dense, dense, one),
            u=st.lists(sym(0.5), min_size=nu, max_size=nu), inc=st.one_of(uni(0, math.pi), angles()), obl=angles(), theta=angles(),
            amplitude=uni(0.1, 3.0), period=loguni(0.1, 100.0), phase=sym(7.0), radius=loguni(0.1, 10.0)))

    return st.sampled_from(kinds).flatmap(of)


def near_pole(s):
    """The same surface seen almost from the pole."""
    return dict(s, inc=math.pi - s["amplitude"] * 1e-3 * (s["inc"] / 4) ** 4, obl=s["obl"] * 1e-3)


def build(s, a, normalize, **kw):
    """The surface of parameters `a` (a dict of scalars, traced or not)."""
    import jax.numpy as jnp
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.starry.ylm import Ylm

    k = s["kind"] if isinstance(s, dict) else s
    return Surface(y=Ylm.from_dense(a["y"], normalize=False), inc=a["inc"] if k[2] else None, obl=a["obl"] if k[3] else None,
                   u=tuple(a["u"][i] for i in range(k[1])), amplitude=a["amplitude"], normalize=normalize, **kw)


def args(s):
    return dict(y=np.array([s["y0"]] + s["y"]), inc=s["inc"], obl=s["obl"], u=np.array(s["u"]), amplitude=s["amplitude"],
                period=s["period"], phase=s["phase"], radius=s["radius"])


def truth(s, normalize):
    """(coefficients with amplitude, orientation(theta), limb darkening profile, inc, obl)."""
    k = s["kind"]
    inc, obl = (s["inc"] if k[2] else 0.0), (s["obl"] if k[3] else 0.0)
    c = np.array([s["y0"]] + s["y"]) * (1.0 if normalize else s["amplitude"])

    def ld(mu):
        return 1 - sum(u * (1 - mu) ** (i + 1) for i, u in enumerate(s["u"]))

    return c, (lambda th: sph.orientation(inc, obl, th)), ld, inc, obl


def make_image(prec):
    import jax
    from hypothesis import strategies as st

    fns = {}

    def get(kind, normalize, rv, turned):
        key = (kind, normalize, rv, turned)
        if key not in fns:
            def f(a, th):
                S = build(kind, a, normalize, period=a["period"], phase=a["phase"], radius=a["radius"])
                return S.render(th if turned else None, RES, rv=rv)
            fns[key] = jax.jit(f)
        return fns[key]

    g = np.linspace(-1, 1, RES)
    X, Y = np.meshgrid(g, g)  # rows: y upwards, columns: x
    rho2 = X**2 + Y**2
    edge = np.abs(rho2 - 1) < 1e-12
    inside = (rho2 < 1) & ~edge

    def prop(case, ctx):
        s, normalize, rv, turned = case["surface"], case["normalize"], case["mode"] == 2, case["mode"] != 1
        kind = tuple(s["kind"])
        th = s["theta"] if turned else 0.0
        img = np.asarray(get(kind, normalize, rv, turned)(args(s), th), float)
        ctx.true("shape of the image", img.shape == (RES, RES), img.shape)
        ctx.true("pixels off the disc", np.isnan(img[~inside & ~edge]), "not NaN")
        c, ori, ld, inc, obl = truth(s, normalize)
        x, y = X[inside], Y[inside]
        z = np.sqrt(1 - x * x - y * y)
        q = ori(th).T @ np.stack([x, y, z])
        want = sph.map_value(c, *q) * ld(z)
        if rv:
            veq = 2 * math.pi * s["radius"] / s["period"]
            want = want * veq * math.sin(inc) * (x * math.cos(obl) + y * math.sin(obl))
        scale = np.abs(c).sum() * (1 + np.abs(s["u"]).sum()) * (veq if rv else 1)
        ctx.close("image", img[inside], want, 1e-6 * scale, info=f"kind {kind} normalize {normalize} rv {rv}")
        ctx.label("radial velocity", rv)
        ctx.label(f"inclination {'' if kind[2] else 'not '}given")
        ctx.nt(kind[0] >= 1 and (not rv or abs(math.sin(inc)) > 1e-3))

    strat = st.fixed_dictionaries(dict(surface=surfaces(), normalize=st.booleans(), mode=st.sampled_from([0, 0, 0, 1, 2, 2])))
    return strat, prop


def make_point(prec):
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st

    fns = {}

    def get(kind, normalize):
        if (kind, normalize) not in fns:
            def f(a, lat, lon):
                S = build(kind, a, normalize, period=a["period"], phase=a["phase"], radius=a["radius"])
                return S.intensity(lat, lon), S.rotational_phase(lat), S.veq, S.amplitude, S.y.todense(), jnp.asarray(S.inc), jnp.asarray(S.obl)
            fns[kind, normalize] = jax.jit(f)
        return fns[kind, normalize]

    def prop(case, ctx):
        s, normalize = case["surface"], case["normalize"]
        kind = tuple(s["kind"])
        pts = pad(case["points"], NP)
        lat, lon = pts[:, 0], pts[:, 1]
        got, phase, veq, amp, y, inc_, obl_ = (np.asarray(v, float) for v in get(kind, normalize)(args(s), lat, lon))
        c, ori, ld, inc, obl = truth(s, normalize)
        p = np.stack([np.cos(lat) * np.sin(lon), np.sin(lat), np.cos(lat) * np.cos(lon)])
        mu = (ori(0.0) @ p)[2]
        want = sph.map_value(c, *p)
        scale = np.abs(c).sum()
        if kind[1]:
            want = want * ld(mu)
            scale = scale * (1 + np.abs(s["u"]).sum())
        vis = (mu > 1e-6) | (kind[1] == 0)  # limb darkening means nothing on the far side
        got = np.asarray(got, float).reshape(-1)
        ctx.close("intensity at a latitude and longitude", got[vis], want[vis], 1e-6 * scale, info=f"kind {kind}")
        ctx.close("rotational phase", phase, 2 * math.pi * lat / s["period"] + s["phase"], 1e-12 * (1 + np.abs(2 * math.pi * lat / s["period"]) + abs(s["phase"])))
        ctx.close("equatorial velocity", veq, 2 * math.pi * s["radius"] / s["period"], 1e-13 * (1 + 2 * math.pi * s["radius"] / s["period"]))
        raw = np.array([s["y0"]] + s["y"])
        ctx.close("amplitude", amp, s["y0"] if normalize else s["amplitude"], 1e-14)
        ctx.close("coefficients", y, raw / s["y0"] if normalize else raw, 1e-13 * (1 + np.abs(raw / s["y0"])))
        ctx.close("inclination", inc_, inc, 1e-14 * (1 + abs(inc)))
        ctx.close("obliquity", obl_, obl, 1e-14 * (1 + abs(obl)))
        ctx.label("far side", (mu < 0).any())
        ctx.label("pole", (np.abs(np.abs(lat) - math.pi / 2) < 1e-9).any())
        ctx.nt(kind[0] >= 1 and bool(vis.any()))

    lat = st.one_of(sym(math.pi / 2), sym(math.pi / 2), st.sampled_from([0.0, math.pi / 2, -math.pi / 2]))
    strat = st.fixed_dictionaries(dict(surface=st.one_of(surfaces(), surfaces(), surfaces().map(near_pole)), normalize=st.booleans(), points=lists(st.tuples(lat, angles()).map(list), NP)))
    return strat, prop


def make_show(prec):
    import os

    os.environ.setdefault("MPLBACKEND", "Agg")
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from hypothesis import strategies as st
    from jaxoplanet.starry.core.polynomials import Pijk
    from jaxoplanet.starry.orbit import SurfaceBody
    from jaxoplanet.starry.visualization import show_surface
    from jaxoplanet.starry.ylm import Ylm

    def prop(case, ctx):
        s, what, phase_on = case["surface"], case["what"], case["include_phase"]
        kind = tuple(s["kind"])
        th = s["theta"]
        c, ori, ld, inc, obl = truth(s, True)
        raw = c.copy()
        if what in ("array", "ylm", "pijk"):
            ori, ld, phase = (lambda t: sph.orientation(math.pi / 2, 0.0, t)), (lambda mu: 1.0), 0.0
        else:
            obj = build(kind, args(s), True, period=s["period"], phase=s["phase"])
            phase = s["phase"]
            if what == "body":
                obj = SurfaceBody(period=1.0, surface=obj, radius=s["radius"])
        res, n, white = case["res"], case["n"], case["white"]
        rad = s["radius"] if what == "body" or case["radius"] else 1.0
        kw = dict(radius=rad) if case["radius"] and what != "body" else {}
        if what in ("array", "ylm", "pijk") and case["no mean"]:
            c = raw = np.concatenate([[0.0], c[1:]])
        if what in ("array", "ylm", "pijk"):
            obj = {"array": lambda: raw, "ylm": lambda: Ylm.from_dense(raw, normalize=False),
                   "pijk": lambda: Pijk.from_dense(sph.A1(kind[0]) @ raw, degree=kind[0])}[what]()
        fig = plt.figure(figsize=(1, 1))
        try:
            ax = fig.add_subplot(1, 2, 1)
            other = None
            if case["other"]:  # the axes given are not the current ones
                other = fig.add_subplot(1, 2, 2)
                kw["ax"] = ax
            im = show_surface(obj, theta=th, res=res, n=n, include_phase=phase_on, white_contour=white, return_im=True, **kw)
            ctx.true("axes of the image", im.axes is ax)
            if other is not None:
                ctx.true("nothing on the other axes", not other.lines and not other.images, f"{len(other.lines)} lines")
            img = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
            extent, origin = [float(v) for v in im.get_extent()], im.origin
            lines = [np.array(l.get_xydata(), float) for l in ax.lines]
            limits = [*ax.get_xlim(), *ax.get_ylim()]
        finally:
            plt.close(fig)
        ctx.close("extent of the image", extent, np.array([-1, 1, -1, 1]) * rad, 1e-12 * rad)
        ctx.true("origin of the image", origin == "lower", origin)
        ctx.true("the image is in view", limits[0] <= -rad and limits[1] >= rad and limits[2] <= -rad and limits[3] >= rad, f"{limits} {rad}")
        g = np.linspace(-1, 1, res)
        X, Y = np.meshgrid(g, g)
        ins = X**2 + Y**2 < 1 - 1e-12
        x, y = X[ins], Y[ins]
        z = np.sqrt(1 - x * x - y * y)
        turn = th + (phase if phase_on else 0.0)
        q = ori(turn).T @ np.stack([x, y, z])
        scale = np.abs(c).sum() * (1 + np.abs(s["u"]).sum())
        ctx.close("image shown", img[ins], sph.map_value(c, *q) * ld(z), 1e-6 * scale, info=f"{what} kind {kind}")
        if n is None:
            ctx.true("no lines", not lines, len(lines))
        else:
            if what == "body":  # fewer lines on small bodies; how many is free, but they divide the sphere evenly
                n = next((k for k in range(1, 60) if len(lines) == 3 * k + 2 + white), None)
                ctx.true("number of lines", n is not None, len(lines))
            ctx.true("number of lines", len(lines) == 3 * n + 2 + white, f"{len(lines)} for {n}")
            near = 1e-9 * (1 + abs(turn))
            seen = 0
            for l in lines:
                l = l[~np.isnan(l).any(axis=1)] / rad
                d = np.hypot(*l.T)
                ctx.true("lines within the disc", not (d > 1 + 1e-9).any(), f"{d.max() if d.size else 0}")
                l = l[d < 0.99]
                if len(l) > 2:
                    f = ori(turn).T @ np.stack([l[:, 0], l[:, 1], np.sqrt(1 - (l**2).sum(axis=1))])
                    lat = np.abs(np.abs(f[1])[None] - np.abs(np.cos(math.pi * np.arange(n + 1) / n))[:, None]).max(axis=1).min() < near
                    k = math.pi * (0.5 + np.arange(2 * n) / n)  # in one half plane through the axis
                    lon = np.abs(f[0][None] * np.cos(k)[:, None] - f[2][None] * np.sin(k)[:, None]).max(axis=1).min() < near
                    ctx.true("a line of latitude or longitude", lat or lon, f"{f.T.tolist()}")
                    seen += 1
            ctx.label("lines seen", seen > n)
        ctx.label(what)
        ctx.nt(kind[0] >= 1)

    strat = st.fixed_dictionaries(dict(surface=surfaces(KINDS[1:6]), what=st.sampled_from(["surface", "body", "array", "ylm", "pijk"]),
                                       include_phase=st.booleans(), res=ints(4, 14), n=st.sampled_from([None, 3, 6]),
                                       other=st.booleans(), white=st.booleans(), radius=st.booleans(), **{"no mean": st.booleans()}))
    return strat, prop


def make_lines(prec):
    from hypothesis import strategies as st
    from jaxoplanet.starry import utils

    def prop(case, ctx):
        n, pts, radius = tuple(case["n"]), case["pts"], case["radius"]
        lat, lon = utils.lon_lat_lines(n=n if case["pair"] else n[0], pts=pts, radius=radius)
        nlat, nlon = n if case["pair"] else (n[0], 2 * n[0])
        lat, lon = np.asarray(lat, float), np.asarray(lon, float)
        ctx.true("number of lines", lat.shape[:2] == (nlat + 1, 3) and lon.shape[:2] == (nlon, 3), f"{lat.shape} {lon.shape}")
        for name, L in (("latitude", lat), ("longitude", lon)):
            ctx.close(f"{name} lines on the sphere", np.linalg.norm(L, axis=1), radius + 0 * L[:, 0], 1e-13 * radius)
        ctx.close("latitudes", lat[:, 2], (radius * np.cos(np.pi * np.arange(nlat + 1) / nlat))[:, None] + 0 * lat[:, 2], 1e-13 * radius)
        phi = 2 * np.pi * np.arange(nlon) / nlon
        ctx.close("longitudes", lon[:, 0] * np.sin(phi)[:, None] - lon[:, 1] * np.cos(phi)[:, None], 0 * lon[:, 0], 1e-13 * radius)
        ctx.true("longitudes", lon[:, 0] * np.cos(phi)[:, None] + lon[:, 1] * np.sin(phi)[:, None] > -1e-13, "on the wrong side")
        # the lines turn with the map
        inc, obl, th = case["angles"]
        E = np.eye(3)[None] * np.array([1.0, 1.0, 1.0])[:, None] + np.zeros((1, 3, 3))  # one line through the three axes
        R = np.asarray(utils.rotate_lines(E, inc, obl, th), float)
        R0 = np.asarray(utils.rotate_lines(E, math.pi / 2, 0.0, 0.0), float)
        ctx.true("shape of the rotated lines", R.shape == E.shape, R.shape)
        R, R0 = R[0], R0[0]
        ctx.close("a rotation", R0 @ R0.T, np.eye(3), 1e-13)
        ctx.close("pole of the unrotated lines", np.abs(R0[:, 2]), [0, 1, 0], 1e-13)
        ctx.close("lines turned with the map", R, sph.orientation(inc, obl, th) @ R0, 1e-12 * (1 + abs(th) + abs(inc) + abs(obl)))
        # grid of the images
        res = case["res"]
        (la, lo), (x, y, z) = utils.ortho_grid(res)
        la, lo, x, y, z = (np.asarray(v, float).ravel() for v in (la, lo, x, y, z))
        g = np.linspace(-1, 1, res)
        X, Y = (v.ravel() for v in np.meshgrid(g, g))
        ins = X**2 + Y**2 < 1 - 1e-12
        off = X**2 + Y**2 > 1 + 1e-12
        ctx.close("x of the grid", x, X, 1e-14)
        ctx.close("y of the grid", y[ins], Y[ins], 1e-14)
        ctx.true("off the disc", np.isnan(y[off]) & np.isnan(z[off]), "")
        ctx.close("z of the grid", z[ins] ** 2, 1 - X[ins] ** 2 - Y[ins] ** 2, 1e-14)
        ctx.close("latitude of the grid", np.sin(la[ins]), Y[ins], 1e-12)
        ctx.close("longitude of the grid", np.cos(la[ins]) * np.sin(lo[ins]), X[ins], 1e-7)
        ctx.nt(abs(math.sin(th)) > 1e-3)

    strat = st.fixed_dictionaries(dict(n=st.tuples(ints(1, 8), ints(1, 12)).map(list), pair=st.booleans(), pts=ints(4, 40), radius=loguni(0.1, 10.0),
                                       angles=st.tuples(uni(0, math.pi), angles(), angles()).map(list), res=ints(2, 12)))
    return strat, prop


register("C19",
         Sub("image", make_image, quick=120, thorough=4000, shards=4, tshards=6, rule="a map that is not uniform (rotating across the line of sight for velocities)"),
         Sub("point", make_point, quick=90, thorough=4000, shards=3, tshards=6, rule="a visible point of a map that is not uniform"),
         Sub("show", make_show, quick=60, thorough=900, shards=3, tshards=4, rule="a map that is not uniform"),
         Sub("lines", make_lines, quick=150, thorough=2000, shards=1, tshards=2, rule="a proper rotation"))
