"""C24: objects and observables are transparent to JAX's transformations."""
import math

import numpy as np

from ..core import Fail, Sub, ints, lists, loguni, register, sym, uni
from . import c22
from .c19 import args, build, surfaces

ASSUMPTIONS = ["metamorphic: one evaluation traced whole against eager, object as argument, rebuilt from leaves, batched and mapped evaluations"]


def kepler(n=2):
    from hypothesis import strategies as st

    one = st.fixed_dictionaries(dict(period=loguni(0.5, 100.0), t0=sym(5.0), impact=uni(0, 1.0), ecc=st.one_of(st.just(0.0), uni(0.01, 0.6)), omega=sym(3.1),
                                     node=sym(3.0), mass=loguni(1e-4, 0.5), radius=uni(0.02, 0.5)))
    return st.fixed_dictionaries(dict(M=uni(0.3, 3), R=uni(0.5, 1.2), bodies=st.lists(one, min_size=n, max_size=n), u=st.lists(uni(0, 0.4), min_size=2, max_size=2)))


def transit(n=2):
    from hypothesis import strategies as st

    one = st.fixed_dictionaries(dict(period=loguni(0.5, 100.0), t0=sym(5.0), impact=uni(0, 1.0), dur=uni(0.02, 0.1), radius=uni(0.02, 0.5)))
    return st.fixed_dictionaries(dict(bodies=st.lists(one, min_size=n, max_size=n), u=st.lists(uni(0, 0.4), min_size=2, max_size=2),
                                      ttv=st.lists(sym(0.05), min_size=5, max_size=5)))


def scenarios():
    """name -> (strategy of parameters, parameters -> tree of arrays, build, observe(object, time, u))"""
    import jax.numpy as jnp
    from jaxoplanet.light_curves import limb_dark, transforms
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.orbits.keplerian import Body, Central, System
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.orbits.ttv import TTVOrbit
    from jaxoplanet.starry.doppler import radial_velocity, surface_radial_velocity
    from jaxoplanet.starry.light_curves import light_curve, surface_light_curve
    from jaxoplanet.starry.ylm import Ylm, ylm_spot

    def mag(t):
        import jax
        return jax.tree_util.tree_map(lambda q: q.magnitude if hasattr(q, "magnitude") else q, t, is_leaf=lambda q: hasattr(q, "magnitude"))

    def bodies(a, **over):
        return [dict(period=b["period"], time_transit=b["t0"], impact_param=b["impact"] * 0.5, eccentricity=b["ecc"], omega_peri=b["omega"], asc_node=b["node"],
                     mass=b["mass"], radius=b["radius"], **over) for b in a["bodies"]]

    def system(a):
        S = System(Central(mass=a["M"], radius=a["R"]))
        for k in bodies(a):
            S = S.add_body(Body(**k))
        return S

    def mixed(a):
        k1, k2 = bodies(a)
        for k in ("eccentricity", "omega_peri", "asc_node"):
            del k2[k]
        return System(Central(mass=a["M"], radius=a["R"]), bodies=[Body(**k1)]).add_body(Body(**k2))

    def orbit_values(S, t, u):
        return mag(dict(rel=S.relative_position(t), pos=S.position(t), vel=S.relative_velocity(t), cen=S.central_position(t), rv=S.radial_velocity(t)))

    def lc(S, t, u):
        return mag(dict(flux=limb_dark.light_curve(S, u)(t), order=limb_dark.light_curve(S, u, order=20)(t)))

    def exposure(S, t, u):
        return mag(transforms.integrate(limb_dark.light_curve(S, u), exposure_time=0.01, num_samples=5, order=1)(t))

    def tr(a):
        b = a["bodies"]
        g = lambda k: jnp.stack([x[k] for x in b])  # noqa: E731
        return TransitOrbit(period=g("period"), duration=g("dur") * g("period"), time_transit=g("t0"), impact_param=g("impact"), radius_ratio=g("radius"))

    def tr_values(o, t, u):
        return mag(dict(pos=o.relative_position(t), vel=o.relative_velocity(t) if hasattr(o, "relative_velocity") else 0.0, flux=limb_dark.light_curve(o, u)(t)))

    def ttv(a):
        b = a["bodies"][0]
        return TTVOrbit(transit_times=(b["t0"] + b["period"] * (jnp.arange(5) + a["ttv"]),), duration=b["dur"] * b["period"],
                        impact_param=b["impact"], radius_ratio=b["radius"])

    def ttv2(a):
        b = a["bodies"][0]
        return TTVOrbit(period=b["period"], time_transit=b["t0"], ttvs=(a["ttv"] * b["period"],), duration=b["dur"] * b["period"],
                        impact_param=b["impact"], radius_ratio=b["radius"])

    def ttv_values(o, t, u):
        return mag(dict(pos=o.relative_position(t), flux=limb_dark.light_curve(o, u)(t), ttvs=o.ttvs, tt=o.transit_times, P=o.linear_period, T=o.linear_t0))

    def surf(kind, norm):
        def f(a):
            return build(kind, a["s"], norm, period=a["s"]["period"], phase=a["s"]["phase"], radius=a["s"]["radius"])
        return f

    def surf_values(S, t, u):
        th = S.rotational_phase(t)
        return dict(flux=surface_light_curve(S, 0.4, 0.3, 0.5, 1.0, th), full=surface_light_curve(S, theta=th), hid=surface_light_curve(S, 2.0, 0.1, 0.1, 1.0, th),
                    rv=surface_radial_velocity(S, 0.4, 0.3, 0.5, 1.0, th), image=S.render(th, 5), at=S.intensity(u[0], u[1]), phase=th, veq=S.veq)

    def ylm(a):
        return Ylm.from_dense(a["s"]["y"], normalize=False)

    def ylm_values(y, t, u):
        v = dict(dense=y.todense(), turned=rotated(y, t).todense(), double=(y * 2.0).todense(), unit=y.normalize().todense(), square=(y * y).todense())
        return v

    def rotated(y, t):
        from jaxoplanet.starry.core.rotation import dot_rotation_matrix
        return Ylm.from_dense(dot_rotation_matrix(y.deg, 0.0, 1.0, 0.3, t)(y.todense()), normalize=False)

    def spot(a):
        return ylm_spot(4)(a["s"]["amplitude"], 0.3 + 0.1 * a["s"]["y0"] if "y0" in a["s"] else 0.5, a["s"]["inc"] - 1, a["s"]["obl"])

    def spot_values(y, t, u):
        return dict(dense=y.todense())

    def sys_(i, what):
        cfg = c22.CONFIGS[i]

        def f(S, t, u):
            return dict(v=what(S)(t))
        return (lambda a: c22.system(cfg, a)), f

    def s_strat(*kinds):
        from hypothesis import strategies as st
        return st.fixed_dictionaries(dict(s=surfaces(list(kinds))))

    def s_tree(a):
        return dict(s=args(a["s"]))

    out = dict(
        kepler=(kepler(), None, system, orbit_values), mixed=(kepler(), None, mixed, orbit_values),
        flux=(kepler(), None, system, lc), exposure=(kepler(), None, mixed, exposure),
        transit=(transit(), None, tr, tr_values), ttv=(transit(), None, ttv, ttv_values), ttv_from_ttvs=(transit(), None, ttv2, ttv_values),
        surface=(s_strat((2, 1, 1, 1)), s_tree, surf((2, 1, 1, 1), True), surf_values),
        bare_surface=(s_strat((1, 2, 0, 0)), s_tree, surf((1, 2, 0, 0), False), surf_values),
        ylm=(s_strat((2, 0, 1, 1)), s_tree, ylm, ylm_values), spot=(s_strat((0, 0, 1, 1)), s_tree, spot, spot_values))
    for name, i, what in (("system_flux", 0, light_curve), ("system_rv", 0, radial_velocity), ("system_emission", 0, emission), ("system_dark", 3, light_curve),
                          ("system_none", 5, light_curve), ("system_flux_2", 2, light_curve)):
        b, o = sys_(i, what)
        out[name] = (c22.strategy([i]), lambda a: c22.prepare(a)[1], b, o)
    return out


GROUPS = dict(orbits=["kepler", "mixed", "flux", "exposure", "transit", "ttv", "ttv_from_ttvs"], surfaces=["surface", "bare_surface", "ylm", "spot"],
              systems=["system_flux", "system_rv", "system_emission", "system_dark", "system_none", "system_flux_2"])
MODES = ["eager", "argument", "leaves", "batch", "batched object", "mapped", "differentiated", "scanned"]


def maker(group):
    def make(prec):
        import jax
        import jax.numpy as jnp
        from hypothesis import strategies as st

        sc = {k: v for k, v in scenarios().items() if k in GROUPS[group]}
        fns = {}

        def once(key, f):
            if key not in fns:
                fns[key] = jax.jit(f)
            return fns[key]

        def prop(case, ctx):
            name, mode = case["what"], case["mode"]
            _, tree, mk, observe = sc[name]
            to = (lambda a: jax.tree_util.tree_map(lambda v: np.asarray(v, float), tree(a) if tree else a, is_leaf=lambda v: isinstance(v, list) and (not v or not isinstance(v[0], (dict, list)))))
            a, b = to(case["a"]), to(case["b"])
            t, t2 = case["t"]
            u = np.array(case["u"])
            whole = once((name, "whole"), lambda a, t, u: observe(mk(a), t, u))
            want, want2 = whole(a, t, u), whole(b, t2, u)

            def same(what, got, want, i=None):
                gl, gt = jax.tree_util.tree_flatten(got)
                wl, wt = jax.tree_util.tree_flatten(want)
                if gt != wt:
                    raise Fail(f"{name}: {what}: structure {gt}, expected {wt}")
                for g, w in zip(gl, wl):
                    g, w = np.asarray(g, float), np.asarray(w, float)
                    g = g if i is None else g[i]
                    nan = np.isnan(w)
                    ctx.true(f"{name}: {what}: not a number where the other is", g.shape == w.shape and np.array_equal(np.isnan(g), nan), f"{g} {w}")
                    size = np.abs(w[~nan]).max() if (~nan).any() else 0.0
                    # rounding of times in orbits of short period, amplified next to contacts
                    ctx.close(f"{name}: {what}", g[~nan], w[~nan], 1e-8 * (size + 1e-3))

            if mode == "eager":
                same("evaluated eagerly", observe(mk(a), t, u), want)
            elif mode == "argument":
                f = once((name, "observe"), observe)
                oa, ob = mk(a), mk(b)
                ctx.true(f"{name}: structure of the object", jax.tree_util.tree_structure(oa) == jax.tree_util.tree_structure(ob), "depends on the values of its parameters")
                same("object passed to a compiled function", f(oa, t, u), want)
                same("another object passed to the same compiled function", f(ob, t2, u), want2)
            elif mode == "leaves":
                obj = mk(a)
                leaves, td = jax.tree_util.tree_flatten(obj)
                again = jax.tree_util.tree_unflatten(td, leaves)
                same("rebuilt from its leaves", once((name, "observe"), observe)(again, t, u), want)
                made = once((name, "make"), mk)(a)
                same("built by a compiled function", once((name, "observe"), observe)(made, t, u), want)
                got = jax.tree_util.tree_flatten(made)
                ctx.true(f"{name}: number of leaves", len(got[0]) == len(leaves), f"{len(got[0])} and {len(leaves)}")
                for x, y in zip(got[0], leaves):
                    ctx.close(f"{name}: parameters of the object built by a compiled function", x, y, 1e-9 * (1 + np.abs(np.asarray(y, float))))
            elif mode == "batch":
                both = jax.tree_util.tree_map(lambda x, y: np.stack([x, y]), a, b)
                got = once((name, "batch"), lambda ab, tt, u: jax.vmap(lambda a, t: observe(mk(a), t, u))(ab, tt))(both, np.array([t, t2]), u)
                same("batch of objects, first", got, want, 0)
                same("batch of objects, second", got, want2, 1)
            elif mode == "batched object":
                oa, ob = mk(a), mk(b)
                both = jax.tree_util.tree_map(lambda x, y: jnp.stack([jnp.asarray(x), jnp.asarray(y)]), oa, ob)
                got = once((name, "objects"), lambda ob, tt, u: jax.vmap(lambda o, t: observe(o, t, u))(ob, tt))(both, np.array([t, t2]), u)
                same("stacked objects, first", got, want, 0)
                same("stacked objects, second", got, want2, 1)
            elif mode in ("mapped", "scanned"):
                # the times one by one, and as a batch
                def f(a, tt, u):
                    o = mk(a)
                    if mode == "mapped":
                        return jax.vmap(lambda t: observe(o, t, u))(tt)
                    return jax.lax.scan(lambda c, t: (c, observe(o, t, u)), 0.0, tt)[1]
                got = once((name, mode), f)(a, np.array([t, t2]), u)
                same(f"{mode} over times, first", got, want, 0)
                same(f"{mode} over times, second", got, whole(a, t2, u), 1)
            else:
                def f(a, t, u):
                    return jax.jvp(lambda t: observe(mk(a), t, u), (t,), (1.0,))[0]
                same("evaluated with its derivative", once((name, mode), f)(a, t, u), want)

                def g(a, t, u):
                    return jax.vjp(lambda a: observe(mk(a), t, u), a)[0]
                same("evaluated for reverse differentiation", once((name, mode, "r"), g)(a, t, u), want)
            ctx.label(name)
            ctx.label(mode)
            ctx.nt()

        def near(k):
            # times around the transits of the first body, where there is one
            def f(c):
                a = c["a"]
                b = a.get("bodies")
                if b and isinstance(b, list) and c["close"]:
                    return dict(c, t=[b[0]["t0"] + x * 0.02 * b[0]["period"] for x in c["t"]])
                return c
            return f

        def of(name):
            s = sc[name][0]
            return st.fixed_dictionaries(dict(what=st.just(name), mode=st.sampled_from(MODES), a=s, b=s, close=st.booleans(),
                                              t=st.lists(sym(5.0), min_size=2, max_size=2), u=st.lists(uni(0.05, 0.4), min_size=2, max_size=2))).map(near(name))

        return st.sampled_from(sorted(sc)).flatmap(of), prop

    return make


register("C24",
         Sub("orbits", maker("orbits"), quick=60, thorough=1500, shards=3, tshards=7, rule="every case"),
         Sub("surfaces", maker("surfaces"), quick=36, thorough=1200, shards=2, tshards=7, rule="every case"),
         Sub("systems", maker("systems"), quick=24, thorough=900, shards=3, tshards=7, rule="every case"))
