"""C13: light curves interpolated from a pre-computed transit."""
import math

import numpy as np

from ..core import Fail, Sub, ints, loguni, pad, register, sym, uni

ASSUMPTIONS = ["reference: numpy linear interpolation of the function on the stated grid, after folding on the period",
               "the pre-computed window starts and ends at the same flux (out of transit), as it does for a transit"]
NT = 8


def make_interp(prec):
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.light_curves.limb_dark import light_curve
    from jaxoplanet.light_curves.transforms import integrate, interpolate
    from jaxoplanet.orbits import TransitOrbit
    from jaxoplanet.units import unit_registry as ureg

    def prop(case, ctx):
        P, t0, D = case["P"], case["t0"], case["D"]
        full = case["window"] is None
        W = P if full else min(max(case["window"], 1.02) * D * P, P)  # the window covers the transit
        Dt = D * P if not full else min(D * P, 0.9 * P)
        u = case["units"]
        q = (lambda v: v * 24 * ureg.hour) if u else (lambda v: v)
        calls = []
        kind = case["kind"]
        orb = TransitOrbit(period=P, duration=Dt, time_transit=t0, impact_param=case["b"], radius_ratio=case["r"])
        tr = light_curve(orb, 0.3, 0.2)
        if kind == "transit":
            f = tr
            val = lambda t: np.asarray(tr(jnp.asarray(t)))
        elif kind == "integrated":
            f = integrate(tr, exposure_time=0.002 * Dt, num_samples=3)
            val = lambda t: np.asarray(f(jnp.asarray(t)))
        else:  # any function that is flat at the ends of the window
            fr, a = case["freq"], case["a"]

            def shape(t, lib):
                s = (t - t0) / W
                return (lib.cos(2 * np.pi * round(fr) * s) - 1) * (1 + a * lib.sin(2 * np.pi * s)) + 3.0 * (0 if kind == "asym" else 0)

            def f(time, k=1.0, *, off=0.0):
                calls.append(1)
                t = time.to(ureg.day).magnitude
                v = shape(t, jnp) * k + off
                return v * ureg.day if kind == "quantity" else v

            k = case["a"] + 2.0
            val = lambda t: shape(t, np) * (k if case["use"] else 1.0) + (0.25 if case["use"] else 0.0)
        extra = {}
        if kind in ("asym", "quantity") and case["use"]:
            extra = dict(args=(case["a"] + 2.0,), kwargs={"off": 0.25})
        n = case["n"]
        kw = dict(period=q(P), time_transit=q(t0), num_samples=n, **extra)
        if not full:
            kw["duration"] = q(W)
        g = interpolate(f, **kw)
        grid = t0 + W * np.linspace(-0.5, 0.5, n)
        fl = val(grid)
        # times over many orbits, the grid points and the ends of the window among them
        t = []
        for kind_t, x, j in case["times"]:
            t.append(t0 + j * P + {"in": x * W / 2, "any": x * P, "grid": grid[int(abs(x) * (n - 1))] - t0, "edge": math.copysign(W / 2 * (1 - 1e-9), x)}[kind_t])
        t = pad(t, NT)
        got = g(jnp.asarray(t * 24) * ureg.hour if u else jnp.asarray(t))
        if kind == "quantity":
            got = got.to(ureg.day).magnitude
        got = np.asarray(got)
        d = t - t0 - np.round((t - t0) / P) * P
        want = np.interp(t0 + d, grid, fl)
        out = np.abs(d) > W / 2
        want = np.where(out, fl[0], want)
        slope = np.abs(np.diff(fl)).max() / (W / (n - 1))
        tol = 1e-12 * (1 + np.abs(fl).max()) + slope * 1e-15 * (np.abs(t) + abs(t0) + P) * 30 + abs(fl[0] - fl[-1]) * 1.0001
        ctx.close("interpolated flux", got, want, tol, info=f"{kind} P={P} t0={t0} window={W} n={n} t={t}")
        # converges to the function itself, with the error of linear interpolation
        if kind in ("asym", "quantity"):
            fm = (2 * np.pi / W) ** 2 * (round(case["freq"]) + 1) ** 2 * 4 * (case["a"] + 2.0)
            true = np.where(out, fl[0], val(t0 + d))
            ctx.close("error of linear interpolation", got, true, (W / (n - 1)) ** 2 / 8 * fm + tol, info=str(case["kind"]))
        ctx.label(kind)
        ctx.label("outside the window", bool(out.any()))
        ctx.label("full period", full)
        ctx.nt(bool((~out & (np.abs(got - fl[0]) > 1e-6)).any()))

    tm = st.tuples(st.sampled_from(["in", "in", "any", "grid", "edge"]), sym(1.0), ints(-40, 40))
    return st.fixed_dictionaries({
        "P": loguni(0.5, 100.0), "t0": st.one_of(sym(5.0), sym(1000.0)), "D": uni(0.02, 0.3), "b": uni(0, 0.9), "r": uni(0.02, 0.3),
        "window": st.one_of(st.none(), uni(1.02, 2.0)), "n": st.one_of(ints(3, 60), ints(60, 400)), "units": st.booleans(),
        "kind": st.sampled_from(["transit", "integrated", "asym", "quantity"]), "freq": uni(1.0, 3.0), "a": uni(0.0, 0.9),
        "use": st.booleans(), "times": st.lists(tm, min_size=1, max_size=NT)}), prop


register("C13", Sub("interp", make_interp, quick=240, thorough=6000, shards=6, tshards=7, rule="some time where the interpolated flux differs from the baseline"))
