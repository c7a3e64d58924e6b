"""C12: exposure-time integration of any light-curve function."""
import math

import numpy as np

from ..core import Fail, Sub, ints, loguni, pad, register, sym, uni

ASSUMPTIONS = ["reference: composite midpoint, trapezoid and Simpson rules written out in numpy, and the exact "
               "averages of sinusoids and polynomials"]
NT = 4


def rule_ref(order, n):
    n = int(n)
    n = n + (1 - n % 2)
    if order:
        n = max(n, 3)
    if order == 0:
        x = (np.arange(n) + 0.5) / n - 0.5
        w = np.ones(n)
    else:
        x = np.arange(n) / (n - 1) - 0.5
        if order == 1:
            w = np.full(n, 1.0)
            w[0] = w[-1] = 0.5
        else:
            w = np.array([1.0 if k in (0, n - 1) else (4.0 if k % 2 else 2.0) for k in range(n)])
    return x, w / w.sum()


def make_stencil(prec):
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.light_curves.transforms import integrate
    from jaxoplanet.units import unit_registry as ureg

    def prop(case, ctx):
        fr, ph, po = case["freq"], case["phase"], np.array(case["poly"])
        out = case["out"]
        a, b = case["a"], case["b"]

        def fn(t, lib, *args, **kw):
            # smooth + polynomial + a step, scaled by the arguments
            sc, off = (args[0] if args else 1.0), kw.get("off", 0.0)
            v = lib.sin(fr * t + ph) + ((po[3] * t + po[2]) * t + po[1]) * t + po[0]
            if case["step"]:
                v = v + lib.where(t > case["edge"], 1.0, 0.0)
            v = v * sc + off
            return v

        def lc(time, *args, **kw):
            t = time.to(ureg.day).magnitude
            v = fn(t, jnp, *args, **kw)
            if out == "vector":
                return jnp.stack([v, 2 * v, t])
            if out == "matrix":
                return jnp.stack([jnp.stack([v, 2 * v, t]), jnp.stack([t, -v, 3 * v])])
            if out == "quantity":
                return v * ureg.day
            return v

        args = (a,) if case["use_a"] else ()
        kw = {"off": b} if case["use_b"] else {}
        E = case["exp"]
        eq = E * 1440 * ureg.minute if case["units"] else E
        opts = {}
        if case["order"] is not None:
            opts["order"] = case["order"]
        if case["n"] is not None:
            opts["num_samples"] = case["n"]
        order, n = case["order"] or 0, case["n"] if case["n"] is not None else 7
        t = pad(case["times"], NT)
        shape = [(NT,), (2, 2), (), (2, 1, 2), (NT, 1)][case["shape"]]
        tt = t.reshape(shape) if shape else t[0]
        tq = jnp.asarray(tt * 24) * ureg.hour if case["tunits"] else jnp.asarray(tt)
        got = integrate(lc, exposure_time=eq, **opts)(tq, *args, **kw)
        if out == "quantity":
            got = got.to(ureg.day).magnitude
        got = np.asarray(got)
        x, w = rule_ref(order, n)
        near = np.zeros(np.shape(tt), bool)
        full = np.asarray(tt)[..., None] + x * E
        if case["step"]:
            near = np.min(np.abs(full - case["edge"]), axis=-1) < 1e-9
        val = fn(full, np, *args, **kw)
        V = (val * w).sum(-1)
        T = (full * w).sum(-1)
        if out == "vector":
            want = np.stack([V, 2 * V, T], axis=-1)
        elif out == "matrix":
            want = np.stack([np.stack([V, 2 * V, T], axis=-1), np.stack([T, -V, 3 * V], axis=-1)], axis=-2)
        else:
            want = V
        scale = np.abs(val).max() + np.abs(full).max() + 1
        slope = (abs(fr) + np.abs(po).sum() * 3 * (1 + np.abs(full).max()) ** 2) * abs(a if case["use_a"] else 1) + 1
        tol = 1e-13 * scale + 4e-16 * (np.abs(full).max() + E) * slope + near.any() * 10
        inf = f"order={case['order']} num_samples={case['n']} exposure={E} out={out}"
        ctx.close("exposure-averaged flux", got, want, 10 * tol, info=inf)
        if not case["step"]:
            # the exact average over [t - E/2, t + E/2], within the error bound of the rule
            sc, off = (a if args else 1.0), (b if kw else 0.0)
            P = np.polynomial.Polynomial(po).integ()
            lo, hi = np.asarray(tt) - E / 2, np.asarray(tt) + E / 2
            s = np.sinc(fr * E / 2 / np.pi) * np.sin(fr * np.asarray(tt) + ph)
            pl = po[0] + np.asarray(tt) * po[1] + po[2] * (np.asarray(tt) ** 2 + E**2 / 12) + po[3] * (np.asarray(tt) ** 3 + np.asarray(tt) * E**2 / 4)
            exact = (s + pl) * sc + off
            m = max(int(n) + (1 - int(n) % 2), 3 if order else 1)
            f2 = fr**2 + 2 * abs(po[2]) + 6 * abs(po[3]) * (np.abs(full).max() + E)
            h = E / m if order == 0 else E / (m - 1)
            bound = {0: h**2 / 24 * f2, 1: h**2 / 12 * f2, 2: h**4 / 180 * fr**4}[order] * abs(sc)
            g0 = got if out not in ("vector", "matrix") else got[..., 0] if out == "vector" else got[..., 0, 0]
            ctx.close("true average within the error of the rule", g0, exact, bound * 1.001 + 20 * tol, info=inf)
        ctx.label(f"order {order}")
        ctx.label(out)
        ctx.label("keyword argument", bool(kw))
        ctx.label("even sample count", n % 2 == 0)
        ctx.nt(E * fr > 1e-2)

    return st.fixed_dictionaries({
        "freq": loguni(0.1, 60.0), "phase": sym(math.pi), "poly": st.lists(sym(1.0), min_size=4, max_size=4),
        "step": st.booleans(), "edge": sym(1.0), "out": st.sampled_from(["scalar", "vector", "matrix", "quantity"]),
        "a": uni(0.5, 2.0), "b": sym(1.0), "use_a": st.booleans(), "use_b": st.booleans(),
        "exp": loguni(1e-3, 0.5), "units": st.booleans(), "tunits": st.booleans(),
        "order": st.sampled_from([None, 0, 1, 2]), "n": st.one_of(st.none(), st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 15, 21, 3.0])),
        "times": st.lists(sym(2.0), min_size=1, max_size=NT), "shape": ints(0, 4)}), prop


def make_lightcurve(prec):
    """Integrated transits against dense averages; conservation of the lost flux."""
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.light_curves.limb_dark import light_curve
    from jaxoplanet.light_curves.transforms import integrate
    from jaxoplanet.orbits import TransitOrbit

    def prop(case, ctx):
        D = case["D"]
        o = TransitOrbit(period=10.0, duration=D, time_transit=case["t0"], impact_param=case["b"], radius_ratio=case["r"])
        lc = light_curve(o, 0.3, 0.1)
        E = case["E"] * D
        n = 41
        g = integrate(lc, exposure_time=E, order=case["order"], num_samples=n)
        ctx.true("no exposure time leaves the function alone", integrate(lc) is lc and integrate(lc, exposure_time=None) is lc)
        t = case["t0"] + np.array([-0.5, 0.0, case["x"], 0.5]) * D
        got = np.asarray(g(jnp.asarray(t)))
        fine = (np.arange(400) + 0.5) / 400 - 0.5
        dense = np.asarray(lc(jnp.asarray(t[:, None] + fine * E))).mean(1)
        depth = case["r"] ** 2 * 1.6
        # total variation of a transit is twice its depth: error <= TV * spacing
        ctx.close("average over the exposure", got, dense, 2 * depth * (1.5 / (n - 1) + 1 / 400) + 1e-9, info=str(case))
        ctx.true("never deeper than the instantaneous light curve", np.all(got >= dense.min() * 0 - float(-np.asarray(lc(jnp.asarray(case["t0"])))) - 1e-6), f"{got}")
        # an exposure inside the flat or out-of-transit part changes nothing
        far = np.asarray(g(jnp.asarray([case["t0"] + D / 2 + E, case["t0"] - D / 2 - E, case["t0"] + 4.0])))
        ctx.close("out of transit", far, 0.0, 1e-14)
        ctx.nt(E > 0.05 * D)

    return st.fixed_dictionaries({"D": uni(0.05, 0.5), "t0": sym(5.0), "b": uni(0, 0.9), "r": uni(0.01, 0.2), "E": uni(0.01, 1.0),
                                  "order": ints(0, 2), "x": sym(0.6)}), prop


def make_reject(prec):
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.light_curves.transforms import integrate

    def prop(case, ctx):
        for what, kw in {"order": dict(order=case["order"], exposure_time=case["E"]),
                         "vector exposure": dict(exposure_time=jnp.asarray([case["E"]] * case["k"]))}.items():
            try:
                integrate(lambda t: t, **kw)
            except ValueError:
                continue
            raise Fail(f"accepted {what}: {kw}")
        ctx.nt()

    return st.fixed_dictionaries({"order": st.sampled_from([-1, 3, 4, 7]), "E": uni(0.01, 1.0), "k": ints(1, 3)}), prop


register("C12",
         Sub("stencil", make_stencil, quick=200, thorough=5000, shards=4, tshards=5, rule="exposure longer than 1% of the period of variation"),
         Sub("lightcurve", make_lightcurve, quick=60, thorough=1500, shards=2, tshards=2, rule="exposure above 5% of the transit duration"),
         Sub("reject", make_reject, quick=20, thorough=60, shards=1, tshards=1, rule="every case is invalid"))
