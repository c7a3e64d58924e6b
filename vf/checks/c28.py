"""C28: results do not depend on what was computed before, and nothing changes its arguments."""
import json
import math
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from ..core import Fail, Sub, ints, register

ASSUMPTIONS = ["metamorphic: the same calls in the opposite order in another process, and again in the same process",
               "what the calls return is judged by the other properties"]


class Pool:
    """Objects shared by the calls of one history, with what they were when they were made."""

    def __init__(self):
        self.objects, self.before, self.calculators = {}, {}, {}

    def get(self, key, make):
        if key not in self.objects:
            self.objects[key] = make()
            self.before[key] = snapshot(self.objects[key])
        return self.objects[key]

    def changed(self):
        return [str(k) for k, v in self.objects.items() if not same(snapshot(v), self.before[k])]


def snapshot(v):
    import jax

    if isinstance(v, dict):
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [snapshot(x) for x in v]
    if isinstance(v, np.ndarray):
        return v.copy()
    if type(v).__name__ == "matrix":  # mpmath
        return [str(x) for x in v]
    leaves, td = jax.tree_util.tree_flatten(v)
    return [str(td)] + [np.array(x) if hasattr(x, "shape") else x for x in leaves]


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    return type(a) is type(b) and (a == b or a is b)


def settings():
    import jax
    import matplotlib
    from jaxoplanet.starry.multiprecision import mp

    return [mp.dps, bool(jax.config.jax_enable_x64), str(jax.config.jax_default_matmul_precision), bool(jax.config.jax_debug_nans), json.dumps(np.geterr()),
            np.random.get_state()[1].tolist(), np.random.get_state()[2], json.dumps(np.get_printoptions(), default=str), json.dumps(dict(matplotlib.rcParams), default=str),
            json.dumps(dict(jax.config.values), default=str), dict(os.environ)]


def operations():
    """name -> (number of variants, f(pool, variant) -> function of one number)"""
    import contextlib
    import io

    import jax
    import jax.numpy as jnp
    from jaxoplanet.core.kepler import kepler as solve
    from jaxoplanet.core.limb_dark import light_curve as core_flux
    from jaxoplanet.light_curves import limb_dark, transforms
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.orbits.ttv import TTVOrbit, compute_expected_transit_times
    from jaxoplanet.starry import light_curves as SL, utils as SU, ylm as Y
    from jaxoplanet.starry.core import basis, polynomials, rotation, solution, wigner3j
    from jaxoplanet.starry.doppler import radial_velocity, surface_radial_velocity
    from jaxoplanet.starry.multiprecision import flux as mpflux, mp
    from jaxoplanet.starry.orbit import SurfaceBody, SurfaceSystem
    from jaxoplanet.starry.surface import Surface
    from jaxoplanet.units import quantity_input, unit_registry as ureg

    ops = {}

    def op(n, traced=True):
        def deco(f):
            ops[f.__name__] = (n, f, traced)
            return f
        return deco

    def mag(t):
        return jax.tree_util.tree_map(lambda q: q.magnitude if hasattr(q, "magnitude") else q, t, is_leaf=lambda q: hasattr(q, "magnitude"))

    T = np.array([-0.3, -0.02, 0.0, 0.013, 0.2])
    dense = lambda n, k=0.0: 1.0 / (1 + np.arange(n) + k) * np.where(np.arange(n) % 3 == 1, -1, 1)  # noqa: E731

    @op(4)
    def kepler(pool, v):
        M = pool.get(("anomalies", v % 2), lambda: np.linspace(-3, 3 + v % 2, 7))
        return lambda x: solve(M, (0.2, 0.7)[v // 2] + 0.01 * x)

    @op(8)
    def occultation(pool, v):
        u = pool.get(("coefficients", v % 4), lambda: np.array([0.3, 0.2, -0.1, 0.05])[:v % 4])
        return lambda x: core_flux(u, np.array([0.0, 0.5, 0.95, 1.3]) + 0.01 * x, 0.1 + 0.01 * x, **({} if v < 4 else {"order": 20}))

    def central(pool, k=0):
        return pool.get(("central", k), lambda: Central(mass=1.1 + k, radius=0.9))

    def body(i):
        kw = [dict(period=3.0, radius=0.1, impact_param=0.2, time_transit=0.1, mass=0.02), dict(period=5.0, radius=0.05, time_transit=0.0, eccentricity=0.3, omega_peri=0.4, mass=0.01),
              dict(period=7.0, radius=0.2, mass=0.001, inclination=1.55, time_transit=-0.1)][i]
        return Body(**kw)

    def system(pool, v, k=0):
        c = central(pool, k)
        bs = pool.get(("bodies", v), lambda: [body(i) for i in range(v + 1)])
        return pool.get(("system", v, k), lambda: System(c, bodies=bs))

    @op(8)
    def orbits(pool, v):
        if v > 5:  # another star with the same bodies
            S = system(pool, v - 6, 1)
            return lambda x: mag(dict(rel=S.relative_position(T + x), mass=S.bodies[0].central.mass, semi=S.bodies[0].semimajor))
        S = system(pool, v % 3)
        if v < 3:
            return lambda x: mag(dict(rel=S.relative_position(T + 0.1 * x), vel=S.relative_velocity(T + x), cen=S.central_position(T + x), rv=S.radial_velocity(T + x)))
        return lambda x: mag(dict(rel=S.bodies[0].position(T + x), semi=S.bodies[-1].semimajor, rv=S.bodies[0].radial_velocity(T + x, semiamplitude=2.0)))

    @op(3)
    def extended(pool, v):
        S = system(pool, v % 2)
        b = pool.get("another body", lambda: body(2))
        more = lambda x: S.add_body(b) if v < 2 else S.add_body(period=9.0 + x, radius=0.3)  # noqa: E731
        return lambda x: mag(more(x).relative_position(T + x))

    @op(6)
    def transits(pool, v):
        S = system(pool, v % 3)
        u = pool.get(("limb darkening", v // 3), lambda: [0.3, 0.2, 0.1][:1 + v // 3])
        return lambda x: limb_dark.light_curve(S, *u)(T + 0.01 * x)

    @op(6, traced=False)
    def exposures(pool, v):
        S = system(pool, 1)
        f = pool.get("a light curve", lambda: limb_dark.light_curve(S, 0.3, 0.1))
        kw = [dict(order=0), dict(order=1), dict(order=2), dict(num_samples=3), dict(num_samples=5), {}][v]
        return lambda x: transforms.integrate(f, exposure_time=0.02 + 0.001 * x, **kw)(T)

    @op(5)
    def interpolated(pool, v):
        if v > 2:
            args, kw = pool.get("arguments", lambda: ([0.1],)), pool.get("keyword arguments", lambda: dict(scale=2.0))
            g = lambda t, offset, scale=1.0: offset + scale * (t.magnitude if hasattr(t, "magnitude") else t) ** 2  # noqa: E731
            return lambda x: transforms.interpolate(g, period=3.0 + 0.01 * x, time_transit=0.1, num_samples=20 + 5 * v, args=args[0], kwargs=kw)(T)
        S = system(pool, 0)
        f = limb_dark.light_curve(S.bodies[0], 0.3, 0.1)
        return lambda x: transforms.interpolate(f, period=3.0 + 0.01 * x, time_transit=0.1, num_samples=(50, 60, 70)[v], duration=0.3)(T)

    @op(4)
    def shapes(pool, v):
        def f(x):
            o = TransitOrbit(period=3.0 + x, duration=0.1 if v % 2 else None, speed=None if v % 2 else 5.0, time_transit=0.0, impact_param=0.1, radius_ratio=0.1 if v < 2 else None)
            return mag(dict(pos=o.relative_position(T), flux=limb_dark.light_curve(o, 0.2)(T)))
        if v >= 2:
            def f(x):  # noqa: F811
                o = TransitOrbit(period=jnp.array([3.0, 4.0]) + x, duration=0.1, time_transit=0.0, impact_param=0.1 * v, radius_ratio=0.1)
                return mag(dict(pos=o.relative_position(0.03), flux=limb_dark.light_curve(o, 0.2)(0.03)))
        return f

    @op(4, traced=False)
    def timing(pool, v):
        tt = pool.get("transit times", lambda: (np.array([0.0, 3.1, 5.9, 9.05]), np.array([1.0, 6.0, 11.2])))
        tv = pool.get("timing variations", lambda: (np.array([0.02, 0.1, -0.06]),))
        ind = pool.get("indices", lambda: (np.array([0, 1, 2, 3]), np.array([0, 1, 2])))

        def f(x):
            if v == 3:
                o = TTVOrbit(period=3.0 + x, time_transit=0.1, ttvs=tv, duration=0.1, impact_param=0.1, radius_ratio=0.1)
            elif v == 2:
                o = TTVOrbit(transit_times=tt[:1], duration=0.1 + x, impact_param=0.1, radius_ratio=0.1)
            else:
                kw = dict(transit_inds=ind) if v else {}
                o = TTVOrbit(transit_times=tt, duration=jnp.array([0.1, 0.2]) + x, impact_param=jnp.array([0.1, 0.2]), radius_ratio=jnp.array([0.1, 0.05]), **kw)
            return mag(dict(tt=o.transit_times, ttvs=o.ttvs, P=o.linear_period, flux=limb_dark.light_curve(o, 0.2)(T)))
        return f

    @op(3, traced=False)
    def expected(pool, v):
        P = pool.get(("periods", v), lambda: np.array([3.0, 5.0, 0.7])[:v + 1])
        return lambda x: [np.asarray(t) for t in compute_expected_transit_times(-4.0 + x, 9.0, P[:v + 1], 0.1 * P[:v + 1])]

    @op(5)
    def bases(pool, v):
        def f(x):
            c = jnp.asarray(dense((v + 1) ** 2)) + x
            return dict(A1=basis.A1(v).todense() @ c, A2=basis.A2_inv(v).todense() @ c, U=jnp.asarray(dense(v + 1)) @ jnp.asarray(basis.U(v)), rT=solution.rT(v), at=basis.poly_basis(v)(0.1, 0.2, 0.3 + x))
        return f

    @op(6)
    def integrals(pool, v):
        return lambda x: solution.solution_vector(v % 3 + 1, **([{}, {"order": 50}][v // 3]))(jnp.array([0.0, 0.3, 0.95]) + 0.01 * x, 0.2 + 0.01 * x)

    @op(8)
    def rotations(pool, v):
        c = pool.get(("map to turn", v % 4), lambda: dense((v % 4 + 1) ** 2))
        if v < 4:
            return lambda x: [rotation.dot_rotation_matrix(v % 4, 0.6, 0.0, 0.8, 0.3 + x)(c), rotation.dot_rotation_matrix(v % 4, 0.0, 1.0, 0.0, 0.3 + x)(c)]
        return lambda x: [rotation.left_project(v % 4, 1.0, 0.2, 0.3 + x, 0.1, c), rotation.right_project(v % 4, None if v % 2 else 1.0, None if v % 2 else 0.1, 0.3 + x, 0.1, c),
                          rotation.dot_rz(v % 4, 0.4 + x)(c)]

    @op(8, traced=False)
    def coupling(pool, v):
        if v > 3:  # one calculator for all symbols
            W = wigner3j.Wigner3jCalculator
            make = pool.calculators.setdefault("3j", W(4, 4))
            return lambda x: [np.array(make.calculate(*k)) for k in ((4, 3, 1, -1), (1, 1, 1, 0), (2, v - 4, 0, 0), (v - 4, 1, 0, 1))]
        return lambda x: [float(wigner3j.Wigner3j(j, 2, v, 0, 0, 0)) for j in range(0, 4)] + [float(wigner3j.clebsch_gordan(2, 1, v, -1 if v else 0, j, 0 if v else 1)) for j in range(0, 4)]

    def maps(pool, v):
        d = pool.get(("map data", v), lambda: [{(0, 0): 1.5, (1, 0): 0.3}, {(0, 0): 1.0, (2, -1): 0.2, (1, 1): -0.4}, {(0, 0): 2.0, (3, 2): 0.1}, {(0, 0): 0.7}][v])
        return pool.get(("map", v), lambda: Y.Ylm(d))

    @op(8)
    def algebra(pool, v):
        a, b = maps(pool, v % 4), maps(pool, (v + 1 + v // 4) % 4)

        def f(x):
            k = a * (2.0 + x)
            return dict(product=(a * b).todense(), scaled=k.todense(), unit=k.normalize().todense(), own=a.normalize().todense(), sparse=a.tosparse().todense(), value=k[(0, 0)], deg=a.deg)
        return f

    @op(3, traced=False)
    def dark_maps(pool, v):
        u = pool.get(("limb darkening of a map", v), lambda: np.array([0.3, 0.2, 0.1])[:v + 1])
        return lambda x: Y.Ylm.from_limb_darkening(u).todense()

    @op(4)
    def polys(pool, v):
        c = pool.get(("polynomial", v % 2), lambda: np.array([1.0, 0.2, -0.3, 0.4, 0.1, 0.0, 0.5, 0.6, -0.7][:(v % 2 + 2) ** 2]))
        P = pool.get(("Pijk", v % 2), lambda: polynomials.Pijk.from_dense(c))
        Q = pool.get(("Pijk", "dict"), lambda: polynomials.Pijk({(0, 0, 0): 1.0, (1, 0, 0): 0.5}))
        if v < 2:
            return lambda x: [(P * Q).todense(), (P + Q).todense(), P.todense() * x]
        return lambda x: polynomials.polynomial_product_matrix(jnp.asarray(c) + x, v % 2 + 1)

    @op(6, traced=False)
    def spot_matrices(pool, v):
        kw = [{}, dict(npts=60), dict(npts=60, smoothing=0.9), dict(smoothing=0.3), dict(npts=40), dict(eps=1e-3)][v]
        return lambda x: [np.asarray(k) for k in Y.Bp((3, 5)[v % 2], **kw)]

    @op(6)
    def spots(pool, v):
        make = pool.get(("spot maker", v % 3), lambda: Y.ylm_spot((2, 3, 3)[v % 3], **([{}, {}, {"spot_fac": 100}][v % 3])))
        return lambda x: make(0.3 + x, 0.5, 0.1 * (v // 3), 0.2).todense()

    def surface(pool, v):
        y = maps(pool, v % 4)
        return pool.get(("surface", v), lambda: Surface(y=y, u=(0.2, 0.1)[:v % 3], inc=1.1 if v % 2 else None, obl=0.2 if v % 2 else None, period=3.0, amplitude=1.0 + v, normalize=v % 2 == 0))

    @op(6)
    def images(pool, v):
        S = surface(pool, v % 4)
        return lambda x: dict(image=S.render(0.1 + x, (4, 5)[v // 3]), rv=S.render(0.1 + x, 4, rv=True), at=S.intensity(0.1 + x, 0.2), phase=S.rotational_phase(T + x))

    @op(8)
    def surfaces(pool, v):
        S = surface(pool, v % 4)
        kw = {} if v < 4 else {"order": 10}
        return lambda x: dict(flux=SL.surface_light_curve(S, 0.3, 0.2 + x, 0.4, 1.0, 0.3, **kw), whole=SL.surface_light_curve(S, theta=0.3 + x), rv=surface_radial_velocity(S, 0.3, 0.2, 0.4, 1.0, 0.3 + x, **kw))

    @op(8, traced="compiled")
    def worlds(pool, v):
        S1, S2 = surface(pool, 1), surface(pool, 0)
        c = central(pool, v // 6)
        bs = pool.get(("bodies with surfaces", v % 2), lambda: [(body(0), S2), (SurfaceBody(period=4.0, radius=0.3, surface=S1, time_transit=0.0), None)][:1 + v % 2])
        W = pool.get(("world", v % 2, v // 6), lambda: SurfaceSystem(c, S1, bodies=bs))
        if v < 2 or v > 5:
            return lambda x: SL.light_curve(W)(T + x)
        if v < 4:
            return lambda x: radial_velocity(W)(T + x)
        return lambda x: emission(W)(T + x) if v == 4 else SL.light_curve(W.add_body(body(1), surface=S2))(T + x)

    @op(3)
    def units(pool, v):
        t = pool.get(("a quantity", v), lambda: np.array([10.0, 20.0]) * (v + 1))
        unit = [ureg.day, ureg.hour, ureg.minute][v]

        @quantity_input(a=unit, b=ureg.R_sun)
        def f(a, b=None):
            return a.to(ureg.day).magnitude * (1.0 if b is None else b.magnitude)
        return lambda x: [f(t + x), f(jnp.asarray(t) * ureg.hour, 2.0), f((jnp.asarray(t) + x) * ureg.second, b=3.0 * ureg.R_earth)]

    @op(6, traced=False)
    def digits(pool, v):
        y = pool.get(("map of the reference", v % 2), lambda: dense((v % 2 + 1) ** 2))

        def f(x):
            with contextlib.redirect_stdout(io.StringIO()):
                g = mpflux.flux(ydeg=v % 2, udeg=v // 2, **({"inc": 1.0, "obl": 0.3} if v > 3 else {}))
                kw = dict(u=[0.3, 0.1][:v // 2], phi=0.2)
                return [float(g(b, 0.3, y=y, **kw) if v % 2 else g(b, 0.3, **kw)) for b in (0.2, 0.9, 2.0)]
        return f

    @op(3, traced=False)
    def graphics(pool, v):
        lines = pool.get(("lines", v), lambda: SU.lon_lat_lines(n=3 + v, pts=5))
        return lambda x: [[np.asarray(SU.rotate_lines(k, 1.0, 0.1, 0.2 + x)) for k in lines], SU.ortho_grid(3 + v), np.asarray(SU.y1d_to_2d(v + 1, dense((v + 2) ** 2)))]

    @op(4, traced=False)
    def figures(pool, v):
        import matplotlib

        back = matplotlib.get_backend()
        import matplotlib.pyplot as plt
        from jaxoplanet.starry.visualization import show_surface

        def f(x):
            fig, ax = plt.subplots()
            try:
                show_surface(surface(pool, v), ax=ax, **([dict(theta=x), dict(theta=x, n=(2, 3)), dict(n=4), dict(res=20, include_phase=False)][v]))
                return [np.asarray(k.get_array()) for k in ax.images] + [np.asarray(k.get_xydata()) for k in ax.lines] + [back]
            finally:
                plt.close(fig)
        return f

    @op(4, traced=False)
    def rejected(pool, v):
        """Calls that are refused, part of the way through."""
        bad = [lambda: Body(period=1.0, semimajor=2.0, inclination=1.0, impact_param=0.3), lambda: system(pool, 1).relative_position(T * ureg.kg),
               lambda: transforms.integrate(lambda t: t, exposure_time=0.1, order=7)(T), lambda: polynomials.Pijk.from_dense(np.ones(5))][v]

        def f(x):
            try:
                r = bad()
            except Exception as e:
                return [type(e).__name__]
            return [type(r).__name__]
        return f

    return ops


CONTEXTS = ["plain", "plain", "compiled", "differentiated", "mapped"]
X = [0.0, 0.013]


def evaluate(ops, pool, call):
    import jax
    import jax.numpy as jnp

    name, v, c, i = call
    n, make, traced = ops[name]
    how = CONTEXTS[c] if traced is True else traced or "plain"
    x = X[i]
    try:
        f = make(pool, v % n)
        if how == "plain":
            out = f(x)
        elif how == "compiled":
            out = jax.jit(f)(x)
        elif how == "differentiated":
            out = jax.jvp(f, (x,), (1.0,))
        else:
            out = jax.vmap(f)(jnp.array([x, 0.5]))
        leaves = jax.tree_util.tree_leaves(out)
        return [k if isinstance(k, str) else np.asarray(k) for k in leaves if getattr(k, "dtype", None) != jax.dtypes.float0]
    except Exception as e:
        import traceback

        return ["raised", f"{type(e).__name__}: {str(e)[:200]}", traceback.format_exc()[-1500:]]


def child():
    """Evaluate the calls of standard input one after another; twice each, the second time at the end."""
    from .. import boot

    boot.boot()
    from jaxoplanet.starry.multiprecision import mp

    mp.dps = 32  # set by the user, not what the package starts with
    with open(sys.argv[1]) as fp:
        calls = [tuple(c) for c in json.load(fp)]
    ops = operations()
    pool = Pool()
    start = settings()
    out = []
    for k, c in enumerate(calls + calls):
        r = evaluate(ops, pool, c)
        ch = pool.changed()
        now = settings()
        out.append((c, r, ch, [i for i, (a, b) in enumerate(zip(start, now)) if a != b]))
        if ch:
            break
    with open(sys.argv[2], "wb") as fp:
        pickle.dump(out, fp)


NAMES = ["kepler", "occultation", "orbits", "extended", "transits", "exposures", "interpolated", "shapes", "timing", "expected", "bases", "integrals", "rotations", "coupling",
         "algebra", "dark_maps", "polys", "spot_matrices", "spots", "images", "surfaces", "worlds", "units", "digits", "graphics", "figures", "rejected"]
SETTINGS = ["mpmath digits", "x64", "matmul precision", "debug_nans", "numpy errors", "random state", "random position", "numpy printing", "matplotlib", "jax configuration", "environment"]


def make(prec):
    from hypothesis import strategies as st

    from .. import boot

    counts = {k: (n, traced) for k, (n, _, traced) in operations().items()}

    def prop(case, ctx):
        calls = list(dict.fromkeys((k, v % counts[k][0], c if counts[k][1] is True else 0, i) for k, v, c, i in case["calls"]))
        with tempfile.TemporaryDirectory(dir=os.path.join(boot.ROOT, ".work")) as d:
            procs = []
            for k, order in enumerate((calls, calls[::-1])):
                i, o, e = (os.path.join(d, f"{n}{k}") for n in ("in", "out", "err"))
                with open(i, "w") as fp:
                    json.dump(order, fp)
                with open(e, "w") as fp:
                    procs.append((subprocess.Popen([sys.executable, "-c", "from vf.checks.c28 import child; child()", i, o], cwd=boot.ROOT, env=boot.child_env(prec), stdout=fp, stderr=fp), o, e))
            res = []
            for p, o, e in procs:
                rc = p.wait()
                if rc != 0 or not os.path.exists(o):
                    with open(e) as fp:
                        raise RuntimeError(f"child ended with {rc}: {fp.read()[-1500:]}")
                with open(o, "rb") as fp:
                    res.append(pickle.load(fp))
        first = {}
        for which, r in zip(("in order", "in the opposite order"), res):
            for k, (c, values, changed, other) in enumerate(r):
                lab = f"{c} evaluated {which}, call {k + 1}"
                if values and isinstance(values[0], str) and values[0] == "raised":
                    raise Fail(f"{lab}: {values[1]}\n{values[2]}")
                if changed:
                    raise Fail(f"{lab}: changed {changed}")
                if other:
                    raise Fail(f"{lab}: changed {[SETTINGS[i] for i in other]}")
                if c in first:
                    was = first[c][1]
                    ctx.true(f"{lab}: as many values as {first[c][0]}", len(values) == len(was), f"{len(values)} and {len(was)}")
                    for a, b in zip(values, was):
                        if isinstance(a, str) or isinstance(b, str):
                            ctx.true(f"{lab}: as {first[c][0]}", isinstance(a, str) and isinstance(b, str) and a == b, f"{a} and {b}")
                            continue
                        ctx.true(f"{lab}: shape as {first[c][0]}", a.shape == b.shape, f"{a.shape} and {b.shape}")
                        ctx.true(f"{lab}: type as {first[c][0]}", a.dtype == b.dtype, f"{a.dtype} and {b.dtype}")
                        nan = np.isnan(b)
                        ctx.true(f"{lab}: not a number as {first[c][0]}", np.array_equal(nan, np.isnan(a)))
                        ctx.close("value", a[~nan], b[~nan], 1e3 * ctx.eps * (1 + (np.abs(b[~nan]).max() if (~nan).any() else 0)), info=f"{lab}: as {first[c][0]}")
                else:
                    first[c] = (which + f", call {k + 1}", values)
        for n, v, c, i in calls:
            ctx.label(n)
        ctx.nt(len(calls) > 1)

    return histories(4, 12), prop


def histories(least, most):
    from hypothesis import strategies as st

    def focus(t):
        # several calls of few operations, so that they differ in one argument only
        names, picks = t
        return [(names[a % len(names)], v, c, i) for a, v, c, i in picks]

    call = st.tuples(ints(0, 3), ints(0, 7), ints(0, 4), ints(0, 1))
    return st.fixed_dictionaries(dict(calls=st.tuples(st.lists(ints(0, len(NAMES) - 1).map(lambda i: NAMES[i]), min_size=1, max_size=3), st.lists(call, min_size=least, max_size=most)).map(focus)))


def make_arguments(prec):
    """Many short histories in one process: what the calls were given is as it was, and they can be repeated."""
    from jaxoplanet.starry.multiprecision import mp

    ops = operations()

    def prop(case, ctx):
        calls = list(dict.fromkeys((k, v % ops[k][0], c if ops[k][2] is True else 0, i) for k, v, c, i in case["calls"]))
        mp.dps = 27  # set by the user, not what the package starts with
        pool, start, first = Pool(), settings(), {}
        for c in calls + calls[:1]:
            values = evaluate(ops, pool, c)
            ctx.true("a call", not (values and isinstance(values[0], str) and values[0] == "raised"), f"{c}: {values[1:]}")
            changed, now = pool.changed(), settings()
            ctx.true("arguments", not changed, f"{c} changed {changed}")
            ctx.true("settings", now == start, f"{c} changed {[SETTINGS[i] for i, (a, b) in enumerate(zip(start, now)) if a != b]}")
            for a, b in zip(values, first.setdefault(c, values)):
                if isinstance(a, str):
                    ctx.true("the same again", a == b, f"{c}: {a} and {b}")
                else:
                    ctx.true("the same again", np.array_equal(a, b, equal_nan=True), f"{c}: {a} and {b}")
        for n, v, c, i in calls:
            ctx.label(n)
        ctx.nt(len(calls) > 1)

    return histories(2, 5), prop


register("C28", Sub("history", make, prec=("f64", "f32"), quick=32, thorough=600, shards=4, tshards=6, f32_scale=0.3, rule="at least two different calls"))
register("C28", Sub("arguments", make_arguments, quick=120, thorough=4000, shards=4, tshards=8, rule="at least two different calls"))
