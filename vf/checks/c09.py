"""C09: orbits described by their transit shape."""
import math

import numpy as np

from ..core import Fail, Sub, ints, loguni, pad, register, sym, uni

ASSUMPTIONS = ["the closed-form straight-line transit geometry is written out again in the check"]
NT = 12


def make_geometry(prec):
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.light_curves.limb_dark import light_curve
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.units import unit_registry as ureg

    def prop(case, ctx):
        n = len(case["planets"])
        vec = case["vector"]
        pl = case["planets"] if vec else case["planets"][:1]
        P = np.array([p["P"] for p in pl])
        r = np.array([p["r"] for p in pl])
        b = np.array([p["b"] * (1 + p["r"]) for p in pl])
        t0 = np.array([p["t0"] for p in pl])
        dur = np.array([p["dur"] * p["P"] for p in pl])  # a fraction of the period
        eps = ctx.eps
        dt_ = np.float64 if ctx.f64 else np.float32
        P, r, b, t0, dur = (v.astype(dt_).astype(float) for v in (P, r, b, t0, dur))
        chord = np.sqrt(np.maximum((1 + r - b) * (1 + r + b), 0))
        speed = 2 * np.where(chord > 0, chord, 1.0) / dur  # a planet that misses still moves
        f = (lambda v: jnp.asarray(v)) if vec else (lambda v: float(v[0]))
        u = case["units"]
        q = (lambda v, un, k: f(v / k) * un) if u else (lambda v, un, k: f(v))
        kw = dict(period=q(P, ureg.hour, 1 / 24))
        if case["by"] == "duration":
            kw["duration"] = q(dur, ureg.minute, 1 / 1440)
        else:
            kw["speed"] = q(speed, 1 / ureg.hour, 24)
        if case["give"][0]:
            kw["time_transit"] = q(t0, ureg.second, 1 / 86400)
        else:
            t0 = np.zeros_like(t0)
        if case["give"][1]:
            kw["impact_param"] = f(b)
            if case["give"][2]:
                kw["radius_ratio"] = f(r)
            else:
                kw["impact_param"] = f(np.clip(b, -0.95, 0.95))
                b, r = np.clip(b, -0.95, 0.95), np.zeros_like(r)
        else:
            b = np.zeros_like(b)
            if case["give"][2]:
                kw["radius_ratio"] = f(r)
            else:
                r = np.zeros_like(r)
        chord = np.sqrt(np.maximum((1 + r - b) * (1 + r + b), 0))
        if case["by"] == "duration":
            speed = 2 * chord / dur
        else:
            dur = 2 * chord / speed
        o = TransitOrbit(**kw)
        shape = (len(pl),) if vec else ()
        un = (lambda v: v) if vec else (lambda v: v[0])
        # contact geometry: sqrt loses accuracy for grazing transits
        rel = 20 * eps / np.maximum(1 - np.abs(b) / (1 + r), 4 * eps)
        ctx.true("shape", o.shape == shape)
        ctx.close("duration", o.duration.to(ureg.day).magnitude, un(dur), un(dur * rel))
        ctx.close("speed", o.speed.to(1 / ureg.day).magnitude, un(speed), un(speed * rel))
        ctx.close("period", o.period.to(ureg.day).magnitude, un(P), un(8 * eps * P))
        ctx.close("central radius", o.central_radius.magnitude, np.ones(shape), 0)
        ctx.close("radius", o.radius.magnitude * np.ones(shape), un(r), un(4 * eps * r))
        # observed at: around contacts, centres and random times, many orbits away
        off, orb = pad(case["offsets"], NT), np.round(pad(case["orbits"], NT))
        for k, (x, j) in enumerate(zip(off, orb)):
            t = t0[0] + j * P[0] + x * dur[0] / 2 if case["near"][k % len(case["near"])] else t0[0] + (j + x) * P[0]
            t = float(dt_(t))
            X, Y, Z = o.relative_position(t * 24 * ureg.hour if u else t)
            m = np.round((t - t0) / P)
            d = t - t0 - m * P
            terr = 6 * eps * (abs(t) + np.abs(t0) + 2 * P)
            edge = np.abs(np.abs(d) - P / 2) < terr  # half way between transits either copy is right
            gx = np.atleast_1d(np.asarray(X.magnitude, float))
            wx = np.where(edge, np.where(gx * d < 0, d - np.sign(d) * P, d), d) * speed
            ctx.close("x", X.magnitude, un(wx), un(speed * terr + np.abs(wx) * rel + 1e-30), info=f"t={t} {kw}")
            ctx.close("y", Y.magnitude, un(b), un(8 * eps * np.abs(b)))
            z = np.atleast_1d(np.asarray(Z.magnitude, float))
            sure = np.abs(np.abs(d) - dur / 2) > terr + dur * rel + np.where(edge, 1, 0)
            ctx.true("in front during the transit, and only then", np.all(np.where(sure, (z > 0) == (np.abs(d) < dur / 2), True)),
                     f"t={t} dt={d} duration={dur} z={z}")
            ctx.label("in transit", bool(np.any(np.abs(d) < dur / 2)))
            ctx.label("at contact", bool(np.any(np.abs(np.abs(d) / dur - 0.5) < 1e-9)))
            if not vec:
                fl = float(light_curve(o, *case["u"])(t))
                if abs(d[0]) > dur[0] / 2 + terr[0] + dur[0] * rel[0] or (abs(b[0]) > 1 + r[0]):
                    ctx.true("no flux lost outside the transit", abs(fl) <= 100 * eps, f"t={t} flux={fl} {kw}")
                elif abs(d[0]) < dur[0] * 0.45 and r[0] > 0.02 and abs(b[0]) < 0.95 * (1 + r[0]):
                    ctx.true("flux lost during the transit", fl < 0, f"t={t} flux={fl} {kw}")
                    # time-reversal symmetry about mid-transit
                    t2 = float(dt_(t - 2 * d[0]))
                    f2 = float(light_curve(o, *case["u"])(t2))
                    slope = speed[0] * (terr[0] + 6 * eps * abs(t2)) * 3
                    ctx.close("symmetric about mid-transit", f2, fl, 50 * eps + 4 * math.sqrt(slope) if slope > 1e-6 else 1e-9 + 20 * math.sqrt(slope) + 50 * eps, info=f"t={t} {kw}")
        ctx.label("vector", vec)
        ctx.label("grazing", bool(np.any(np.abs(b) > 1 - r)))
        ctx.nt(bool(np.any((b != 0) & (r > 0))))

    planet = st.fixed_dictionaries({
        "P": loguni(0.3, 500.0), "r": st.one_of(uni(0.0, 0.2), uni(0.0, 0.9)),
        "b": st.one_of(uni(0.0, 0.8), uni(0.8, 0.999), uni(1.001, 1.3), uni(-0.999, 0.0)), "t0": st.one_of(sym(5.0), sym(3000.0)),
        "dur": st.one_of(loguni(1e-3, 0.2), uni(0.05, 0.6))})
    return st.fixed_dictionaries({
        "planets": st.lists(planet, min_size=1, max_size=3), "vector": st.booleans(), "units": st.booleans(),
        "by": st.sampled_from(["duration", "speed"]).flatmap(lambda s: st.just(s)),
        "give": st.lists(st.sampled_from([True, True, True, False]), min_size=3, max_size=3),
        "offsets": st.lists(st.one_of(sym(1.0), sym(1.2), st.sampled_from([0.0, 1.0, -1.0, 0.5])), min_size=1, max_size=5),
        "orbits": st.lists(sym(40.0), min_size=1, max_size=5), "near": st.lists(st.booleans(), min_size=1, max_size=4),
        "u": st.lists(uni(0.0, 0.4), min_size=2, max_size=2)}), prop


def make_missing(prec):
    from hypothesis import strategies as st
    from jaxoplanet.orbits.transit import TransitOrbit

    def prop(case, ctx):
        kw = {k: case[k] for k in case if case[k] is not None}
        try:
            TransitOrbit(**kw)
        except ValueError:
            ctx.nt()
            return
        raise Fail(f"accepted without a speed or a duration: {kw}")

    o = lambda s: st.one_of(st.none(), s)
    return st.fixed_dictionaries({"period": uni(0.1, 10.0), "time_transit": o(sym(2.0)), "impact_param": o(uni(0, 1)),
                                  "radius_ratio": o(uni(0, 0.5))}), prop


register("C09",
         Sub("geometry", make_geometry, prec=("f64", "f32"), quick=240, thorough=6000, shards=3, tshards=4,
             rule="non-zero impact parameter and radius ratio"),
         Sub("missing", make_missing, quick=30, thorough=100, shards=1, tshards=1, rule="every case lacks both speed and duration"))
