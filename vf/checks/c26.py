"""C26: derivatives of the observables of surfaces."""
import math

import numpy as np

from ..core import Sub, ints, lists, pad, register, sym
from . import c22
from .c19 import args, build, surfaces
from .c20 import occultor

ASSUMPTIONS = ["oracle: fourth-order differences of the observable itself (its values are decided by C20-C22), along random directions"]
NB = 5
KINDS = [(0, 2, 1, 1), (0, 0, 0, 0), (2, 1, 1, 1), (2, 1, 0, 1), (1, 2, 1, 0)]
H = 2e-5
SHIFTS = np.array([-2, -1, 1, 2]) * H


def difference(v):
    return (8 * (v[2] - v[1]) - (v[3] - v[0])) / (12 * H)


def directions(groups):
    """Weights of the groups of parameters in the direction, and a seed for the components."""
    from hypothesis import strategies as st

    return st.tuples(st.one_of(st.just(list(range(groups))), ints(0, groups - 1).map(lambda i: [i])), ints(0, 10**6))


def make_surface(what):
    def maker(prec):
        import jax
        import jax.numpy as jnp
        from hypothesis import strategies as st
        from jaxoplanet.starry.doppler import surface_radial_velocity
        from jaxoplanet.starry.light_curves import surface_light_curve

        fns = {}

        def get(kind):
            if kind not in fns:
                def f(a, rest, o):
                    S = build(kind, a, True, period=a["period"], radius=1.0)
                    g = surface_light_curve if what == "flux" else surface_radial_velocity
                    return g(S, o[3], o[0], o[1], o[2], rest)

                def all_(a, th, o, va, vth, vo):
                    p, v = (a, th, o), (va, vth, vo)
                    val, fwd = jax.jvp(f, p, v)
                    rev = jax.grad(f, argnums=(0, 1, 2))(*p)
                    along = sum(jnp.vdot(x, y) for x, y in zip(jax.tree_util.tree_leaves(rev), jax.tree_util.tree_leaves(v)))
                    near = jax.vmap(lambda t: f(*jax.tree_util.tree_map(lambda x, y: x + t * y, p, v)))(SHIFTS)
                    flat = jnp.concatenate([jnp.ravel(x) for x in jax.tree_util.tree_leaves(rev)])
                    return val, fwd, along, near, flat
                fns[kind] = jax.jit(jax.vmap(all_, in_axes=(None, None, 0, None, None, None)))
            return fns[kind]

        NAMES = ["y", "inc", "obl", "u", "amplitude", "period", "theta", "occ"]

        def prop(case, ctx):
            s = case["surface"]
            kind = tuple(s["kind"])
            a = {k: np.asarray(v, float) for k, v in args(s).items() if k in NAMES}
            occ = np.array([[b * math.sin(pa), b * math.cos(pa), z, r] for r, b, pa, z in pad(case["occ"], NB)])
            which, seed = case["direction"]
            rng = np.random.default_rng(seed)
            on = {NAMES[i % len(NAMES)] for i in which}
            va = {k: rng.uniform(-1, 1, v.shape) * (k in on) for k, v in a.items()}
            va["period"] = va["period"] * 0.1 * a["period"]
            vth = rng.uniform(-1, 1) * ("theta" in on)
            vo = rng.uniform(-1, 1, 4) * np.array([1, 1, 0, 1]) * ("occ" in on)
            vo[3] *= 0.5
            val, fwd, along, near, flat = (np.asarray(v, float) for v in get(kind)(a, s["theta"], occ, va, vth, vo))
            size = (np.abs(s["y"]).sum() / s["y0"] + 1) * s["y0"] * (1 + np.abs(s["u"]).sum()) * (1 + kind[0]) ** 2
            for i in range(len(case["occ"])):
                x, y, z, r = occ[i]
                b = math.hypot(x, y)
                info = f"x, y, z, r = {occ[i].tolist()} kind {kind} direction {sorted(on)}"
                ctx.true("value and derivatives are finite", np.isfinite(val[i]) and np.isfinite(fwd[i]) and np.all(np.isfinite(flat[i])), f"{val[i]}, {fwd[i]}, {flat[i].tolist()}; {info}")
                gap = min(abs(b - abs(1 - r)), abs(b - 1 - r)) if z > 0 else abs(z)
                small = r if z > 0 else 1.0
                if what == "rv":
                    light = abs(case_light(s, occ[i]))
                    if light < 0.02 * size:
                        ctx.label("little light")
                        continue
                    scale = size * (size / light) ** 2 * 2 * math.pi / s["period"]
                else:
                    scale = size
                ctx.close("forward and reverse mode", fwd[i], along[i], 1e-8 * scale * (1 + (1 / max(gap, 1e-9)) ** 0.5), info=info)
                if min(gap, abs(b - r) + (b > 1)) < 1e-2 or small < 0.02 or r > 20:
                    ctx.label("near a contact")
                    continue
                if b == 0 and r > 1:
                    continue
                # the fifth derivative of the flux grows like gap^(1/2 - 5 + 1)
                tol = scale * (1e-6 + 1e-4 * H * (H / gap) ** 3 / gap ** 0.5 / small + 1e-6 / small)
                ctx.close(f"derivative of the {what}", fwd[i], difference(near[i]), tol, info=info)
                ctx.label("centred", b == 0 and z > 0)
                part = z > 0 and abs(1 - r) < b < 1 + r
                ctx.label("partial", part)
                ctx.nt(abs(fwd[i]) > 1e-3 * size)

        def case_light(s, o):
            from .c20 import integrals
            vis, _, norm = integrals(s, True, s["theta"], o[None])
            return vis[0] * norm

        strat = st.fixed_dictionaries(dict(surface=surfaces(KINDS), occ=lists(occultor(prec), NB), direction=directions(len(NAMES))))
        return strat, prop

    return maker


def make_system(what):
    def maker(prec):
        import jax
        import jax.numpy as jnp
        from hypothesis import strategies as st
        from jaxoplanet.light_curves.emission import light_curve as emission
        from jaxoplanet.starry.doppler import radial_velocity
        from jaxoplanet.starry.light_curves import light_curve

        make = {"flux": light_curve, "rv": radial_velocity, "emission": emission}[what]
        fns = {}

        def get(i):
            if i not in fns:
                def f(a, t):
                    return make(c22.system(c22.CONFIGS[i], a))(t)

                def all_(a, t, v, vt, w):
                    val, fwd = jax.jvp(f, (a, t), (v, vt))
                    rev = jax.grad(lambda a, t: jnp.sum(w * f(a, t)), argnums=(0, 1))(a, t)
                    along = sum(jnp.vdot(x, y) for x, y in zip(jax.tree_util.tree_leaves(rev), jax.tree_util.tree_leaves((v, vt))))
                    near = jax.vmap(lambda h: f(*jax.tree_util.tree_map(lambda x, y: x + h * y, (a, t), (v, vt))))(0.01 * SHIFTS)
                    return val, fwd, along, near, jnp.concatenate([jnp.ravel(x) for x in jax.tree_util.tree_leaves(rev)])
                fns[i] = jax.jit(all_)
            return fns[i]

        def prop(case, ctx):
            cfg, a, t, orbits, bs = c22.prepare(case["system"])
            t = np.asarray(t).reshape(-1)[0]
            if case["exact"] and orbits:
                t = orbits[case["system"]["times"][0][0] % len(orbits)].t0
            a = jax.tree_util.tree_map(lambda x: np.asarray(x, float), a)
            leaves, tree = jax.tree_util.tree_flatten(a)
            which, seed = case["direction"]
            rng = np.random.default_rng(seed)
            v = [rng.uniform(-1, 1, x.shape) * 0.3 * np.where(np.abs(x) > 0, np.minimum(np.abs(x), 1), 0.3) * (len(which) > 1 or i % 8 == which[0]) for i, x in enumerate(leaves)]
            v = jax.tree_util.tree_unflatten(tree, v)
            for b in v["bodies"]:
                b["ecc"] = np.where(b["ecc"] >= 0, np.abs(b["ecc"]), 0) * 0.1
            vt = rng.uniform(-1, 1) * 0.02
            n = len(cfg[1]) + 1
            w = rng.uniform(0.5, 1, n)
            # eccentricity 0 is on the edge of the domain and impact 0 on an axis of symmetry: stay inside
            a_in = dict(a, bodies=[dict(b, ecc=np.maximum(b["ecc"], 0.02)) for b in a["bodies"]])
            val, fwd, along, near, flat = (np.asarray(q, float) for q in get(case["system"]["config"])(a_in, t, v, vt, w))
            info = f"configuration {case['system']['config']}, time {t!r}"
            ctx.true("value and derivatives are finite", np.isfinite(val).all() and np.isfinite(fwd).all() and np.isfinite(flat).all(), f"{val.tolist()} {fwd.tolist()}; {info}")
            size = 1 + np.abs(fwd).max()
            ctx.close("forward and reverse mode", along, w @ fwd, 1e-6 * size, info=info)
            # differences mean something where all shifted values lie on one smooth curve
            d1 = (8 * (near[2] - near[1]) - (near[3] - near[0])) / (12 * 0.01 * H)
            d2 = (near[2] - near[1]) / (2 * 0.01 * H)
            noise = np.abs(val) * 1e-15 / (0.01 * H)
            for k in range(n):
                if abs(d1[k] - d2[k]) > 1e-4 * (1 + abs(d1[k])):
                    ctx.label("not smooth here")
                    continue
                ctx.close(f"derivative of the {what}", fwd[k], d1[k], 1e-2 * abs(d1[k] - d2[k]) + 2e-4 * (1 + abs(fwd[k])) + 1e4 * noise[k] * 1e-3, info=f"observable {k}; {info}")
                ctx.nt(abs(fwd[k]) > 1e-2)
            ctx.label("exact time of transit", case["exact"] and bool(orbits))

        cfgs = [2, 3] if what != "rv" else [2]
        strat = st.fixed_dictionaries(dict(system=c22.strategy(cfgs), exact=st.booleans(), direction=directions(8)))
        return strat, prop

    return maker


def make_appearance(prec):
    """Derivatives of intensities: at a point of the map, and of a rendered image."""
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st

    fns = {}

    def get(kind):
        if kind not in fns:
            def f(a, th, p):
                S = build(kind, a, True, period=a["period"], radius=a["radius"])
                # pixels off the disc are not numbers, so images are differentiated forwards only
                return jnp.concatenate([jnp.atleast_1d(S.intensity(p[0], p[1])), S.render(th, 5)[jnp.array([1, 2, 3]), jnp.array([2, 1, 3])],
                                        S.render(th, 5, rv=True)[jnp.array([1, 2]), jnp.array([2, 2])]])

            def all_(a, th, p, va, vth, vp):
                q, v = (a, th, p), (va, vth, vp)
                val, fwd = jax.jvp(f, q, v)
                rev = jax.grad(lambda a, p: jnp.ravel(build(kind, a, True, period=a["period"], radius=a["radius"]).intensity(p[0], p[1]))[0], argnums=(0, 1))(a, p)
                along = sum(jnp.vdot(x, y) for x, y in zip(jax.tree_util.tree_leaves(rev), jax.tree_util.tree_leaves((va, vp))))
                near = jax.vmap(lambda t: f(*jax.tree_util.tree_map(lambda x, y: x + t * y, q, v)))(10 * SHIFTS)
                return val, fwd, along, near, jnp.concatenate([jnp.ravel(x) for x in jax.tree_util.tree_leaves(rev)])
            fns[kind] = jax.jit(all_)
        return fns[kind]

    def prop(case, ctx):
        s = case["surface"]
        kind = tuple(s["kind"])
        a = {k: np.asarray(v, float) for k, v in args(s).items()}
        which, seed = case["direction"]
        rng = np.random.default_rng(seed)
        names = ["y", "inc", "obl", "u", "period", "radius", "theta", "point"]
        on = {names[i] for i in which}
        va = {k: rng.uniform(-1, 1, v.shape) * (k in on) for k, v in a.items()}
        va["period"], va["radius"] = va["period"] * 0.1 * a["period"], va["radius"] * 0.1 * a["radius"]
        vth, vp = rng.uniform(-1, 1) * ("theta" in on), rng.uniform(-1, 1, 2) * ("point" in on)
        # off the limb, where the square root of limb darkening has no derivative
        p = np.array(case["point"])
        val, fwd, along, near, flat = (np.asarray(v, float) for v in get(kind)(a, s["theta"], p, va, vth, vp))
        info = f"kind {kind} inc {s['inc']!r} obl {s['obl']!r} theta {s['theta']!r} point {p.tolist()} direction {sorted(on)}"
        size = (np.abs(s["y"]).sum() + s["y0"]) * (1 + np.abs(s["u"]).sum()) * (1 + kind[0]) ** 3 / min(1.0, s["y0"])
        size = size * np.array([1, 1, 1, 1, *[1 + 2 * math.pi * s["radius"] / s["period"]] * 2])
        ctx.true("value and derivatives are finite", np.isfinite(val).all() and np.isfinite(fwd).all() and np.isfinite(flat).all(), f"{val.tolist()} {fwd.tolist()} {flat.tolist()}; {info}")
        ctx.close("forward and reverse mode", along, fwd[0], 1e-7 * size[0], info=info)
        d = (8 * (near[2] - near[1]) - (near[3] - near[0])) / (12 * 10 * H)
        ctx.close("derivatives of the intensities", fwd, d, 1e-6 * size, info=info)
        ctx.label("seen from the pole", s["inc"] == 0 or not kind[2])
        ctx.label("equator on", abs(s["inc"] - math.pi / 2) < 1e-12)
        ctx.nt(bool(np.any(np.abs(fwd) > 1e-2)))

    strat = st.fixed_dictionaries(dict(surface=surfaces([(2, 1, 1, 1), (1, 2, 0, 1), (3, 0, 1, 0), (2, 0, 0, 0)]), direction=directions(8),
                                       point=st.tuples(st.one_of(sym(1.4), st.sampled_from([0.0, 0.3])), sym(3.0)).map(list)))
    return strat, prop


register("C26",
         Sub("appearance", make_appearance, quick=60, thorough=2000, shards=1, tshards=4, rule="some intensity varies along the direction"),
         Sub("flux", make_surface("flux"), quick=120, thorough=4000, shards=4, tshards=7, rule="the flux varies along the direction"),
         Sub("rv", make_surface("rv"), quick=80, thorough=3000, shards=2, tshards=7, rule="the velocity varies along the direction"),
         Sub("system", make_system("flux"), quick=30, thorough=1500, shards=1, tshards=6, rule="an observable varies along the direction"),
         Sub("emission", make_system("emission"), quick=30, thorough=1500, shards=1, tshards=4, rule="an observable varies along the direction"))
