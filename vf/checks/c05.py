"""C05: positions on Keplerian orbits."""
import math

import numpy as np

from .. import gen_orbit as g
from ..core import Sub, pad, register, sym, uni
from ..oracles import orbit as O

NT = 8
ASSUMPTIONS = [
    "oracle: independent numpy two-body model with an extended-precision Kepler solver and the "
    "IAU/CODATA constants written out again",
]


def ang_tol(o, t, eps):
    """Error of the true anomaly from rounding the mean anomaly and from the solver itself."""
    d = o.dfdM_max()
    return 30 * eps / (1 - o.e) ** 2 + 8 * eps * d * (np.abs(o.n * (t - o.tp)) + np.abs(o.n * t) + abs(o.n * o.tp) + 10) + 50 * eps


def make_position(prec):
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.orbits.keplerian import Body, Central, System
    from jaxoplanet.units import unit_registry as ureg

    def mag(v, u):
        return np.stack([np.asarray(x.to(u).magnitude, float) for x in v])

    def prop(case, ctx):
        c, b = case["central"], case["body"]
        p = g.resolve(c, b)
        o = O.Orbit(c, p)
        sysm = System(Central(**g.ckwargs(c, case["units"]))).add_body(**g.kwargs(p, case["units"]))
        body = sysm.bodies[0]
        t = g.times(o, pad(case["phases"], NT))
        dt = np.float64 if ctx.f64 else np.float32
        t = t.astype(dt).astype(float)
        tt = jnp.asarray(t) if not case["units"] else jnp.asarray(t * 24) * ureg.hour
        want = o.relative(t)
        dist = np.sqrt((want**2).sum(0))
        tol = (ang_tol(o, t, ctx.eps) * (1 + o.e) / (1 - o.e) + 100 * ctx.eps) * o.a * 2
        if p.get("impact") is not None:
            # sin(i) = sqrt(1 - cos(i)^2) loses accuracy for nearly face-on orbits
            tol = tol + 8 * ctx.eps / max(o.si, math.sqrt(ctx.eps)) * o.a * (1 + o.e)
        got = body.relative_position(tt)
        ctx.close("relative position", mag(got, ureg.R_sun), want, tol, info=str(p))
        ctx.close("system relative position", mag(sysm.relative_position(tt), ureg.R_sun), want[:, None, :], tol, info=str(p))
        ctx.close("body position", mag(body.position(tt), ureg.R_sun), want * (o.M / o.mt), tol, info=str(p))
        if p["mass"] is not None:
            ctx.close("central position", mag(body.central_position(tt), ureg.R_sun), -want * (o.m / o.mt),
                      tol * o.m / o.mt + 1e-300, info=str(p))
        # the reference transit: conjunction, in front, at the stated impact parameter
        x, y, z = mag(body.relative_position(jnp.asarray(o.t0)), ureg.R_sun)
        tol0 = float(np.max(ang_tol(o, np.array([o.t0]), ctx.eps) * (1 + o.e) / (1 - o.e) + 100 * ctx.eps) * o.a * 2)
        tol0 += 8 * ctx.eps / max(o.si, math.sqrt(ctx.eps)) * o.a * (1 + o.e)
        ctx.close("projected separation at transit / R_star", math.hypot(x, y) / o.R, abs(o.b), tol0 / o.R)
        ctx.close("impact parameter property", float(body.impact_param.magnitude), o.b, 1e-10 * (1 + abs(o.b)) if ctx.f64 else 1e-3 * (1 + abs(o.b)))
        if o.si * o.r_transit > 10 * tol0:
            ctx.true("in front of the star at transit", z > 0, f"z={z}")
        # the stated epochs
        ctx.close("time of transit", o.same_turn(float(body.time_transit.to(ureg.day).magnitude), o.t0), o.t0, 1e-12 * (abs(o.t0) + o.P) + 20 * ctx.eps * (abs(o.t0) + o.P))
        ctx.close("time of periastron mod P", math.remainder(float(body.time_peri.to(ureg.day).magnitude) - o.tp, o.P), 0.0, 50 * ctx.eps * (abs(o.tp) + o.P))
        xp = mag(body.relative_position(jnp.asarray(o.tp)), ureg.R_sun)
        ctx.close("distance at periastron", math.sqrt((xp**2).sum()), o.a * (1 - o.e), tol0)
        # separation and position angle
        rho, th = body.relative_angles(tt)
        rho = np.asarray(rho.to(ureg.R_sun).magnitude, float)
        th = np.asarray(th.magnitude, float)
        ctx.close("rho cos theta", rho * np.cos(th), want[0], 2 * tol)
        ctx.close("rho sin theta", rho * np.sin(th), want[1], 2 * tol)
        # parallax turns lengths into arcsec (semi-major axis in au times parallax)
        pl = case["parallax"]
        ap = body.relative_position(tt, parallax=pl if not case["units"] else (pl * 1e3) * ureg.mas if hasattr(ureg, "mas") else pl)
        ctx.close("astrometric position", mag(ap, ureg.arcsec), want / O.AU_R * pl, tol / O.AU_R * pl + 1e-300)
        # the parallax may also be a property of the body
        sp = System(Central(**g.ckwargs(c))).add_body(parallax=pl, **g.kwargs(p))
        ctx.close("astrometric position (body parallax)", mag(sp.bodies[0].relative_position(tt), ureg.arcsec), want / O.AU_R * pl, tol / O.AU_R * pl + 1e-300)
        tb = tol / O.AU_R * pl + 1e-300
        frames = [("relative_position", 1.0), ("position", o.M / o.mt)]
        if p["mass"] is not None:
            frames.append(("central_position", -o.m / o.mt))
        for name, f in frames:
            wa = want * (f / O.AU_R * pl)
            ctx.close(f"astrometric {name}", mag(getattr(body, name)(tt, parallax=pl), ureg.arcsec), wa, tb * abs(f) + 1e-300, info=str(p))
            ctx.close(f"astrometric {name} (body parallax)", mag(getattr(sp.bodies[0], name)(tt), ureg.arcsec), wa, tb * abs(f) + 1e-300, info=str(p))
            ctx.close(f"astrometric system {name} (body parallax)", mag(getattr(sp, name)(tt), ureg.arcsec), wa[:, None, :], tb * abs(f) + 1e-300, info=str(p))
        rho, th = sp.bodies[0].relative_angles(tt)
        rho = np.asarray(rho.to(ureg.arcsec).magnitude, float)
        th = np.asarray(th.magnitude, float)
        ctx.close("rho cos theta (arcsec)", rho * np.cos(th), want[0] / O.AU_R * pl, 2 * tb)
        ctx.close("rho sin theta (arcsec)", rho * np.sin(th), want[1] / O.AU_R * pl, 2 * tb)
        ctx.label("eccentric", o.e > 0)
        ctx.label("t_peri", p.get("t_peri") is not None)
        ctx.label("impact", p.get("impact") is not None)
        ctx.label("node", p.get("Omega") is not None)
        ctx.label("semimajor given", p.get("semimajor") is not None)
        ctx.label("quantities", case["units"])
        ctx.label("mass", p["mass"] is not None)
        ctx.nt(o.e > 0 and abs(math.sin(o.w)) > 1e-3)

    return st.fixed_dictionaries({
        "central": g.central_params(), "body": g.body_params(), "phases": g.phases(),
        "units": st.booleans(), "parallax": uni(1e-3, 1.0)}), prop


register("C05",
         Sub("position", make_position, prec=("f64",), quick=480, thorough=12000, shards=8, tshards=8,
             rule="eccentric orbit with omega off the node line"))
