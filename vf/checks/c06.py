"""C06: velocities, momentum and radial velocity."""
import math

import numpy as np

from .. import gen_orbit as g
from ..core import Sub, loguni, pad, register, sym, uni
from ..oracles import orbit as O
from .c05 import ang_tol

NT = 8
ASSUMPTIONS = ["oracle: closed-form two-body velocities in numpy; jax.jacfwd of the reported positions as a second opinion"]


def make_velocity(prec):
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.orbits.keplerian import Body, Central, System
    from jaxoplanet.units import unit_registry as ureg

    V = ureg.R_sun / ureg.day

    def mag(v, u):
        return np.stack([np.asarray(x.to(u).magnitude, float) for x in v])

    def prop(case, ctx):
        c, b = case["central"], case["body"]
        p = g.resolve(c, b)
        o = O.Orbit(c, p)
        sysm = System(Central(**g.ckwargs(c, case["units"]))).add_body(**g.kwargs(p, case["units"]))
        body = sysm.bodies[0]
        t = g.times(o, pad(case["phases"], NT))
        tt = jnp.asarray(t) if not case["units"] else jnp.asarray(t * 24) * ureg.hour
        want = o.relative_velocity(t)
        k0 = o.n * o.a / math.sqrt(1 - o.e**2)
        tol = (ang_tol(o, t, ctx.eps) + 100 * ctx.eps) * 4 * k0
        if p.get("impact") is not None:
            tol = tol + 16 * ctx.eps / max(o.si, math.sqrt(ctx.eps)) * k0
        ctx.close("relative velocity", mag(body.relative_velocity(tt), V), want, tol, info=str(p))
        vb = mag(body.velocity(tt), V)
        ctx.close("body velocity", vb, want * (o.M / o.mt), tol, info=str(p))
        ctx.close("system velocity", mag(sysm.velocity(tt), V), vb[:, None, :], tol)
        vc = mag(body.central_velocity(tt), V)
        ctx.close("central velocity", vc, -want * (o.m / o.mt), tol * o.m / o.mt, info=str(p))
        # barycentric frame: no net momentum
        ctx.close("momentum", o.m * vb + o.M * vc, 0.0, 2 * tol * o.m)
        # redshift convention: RV of the central = -Vz
        rv = np.asarray(body.radial_velocity(tt).to(V).magnitude, float)
        ctx.close("radial velocity", rv, want[2] * (o.m / o.mt), tol * o.m / o.mt)
        ctx.close("system radial velocity", np.asarray(sysm.radial_velocity(tt).to(V).magnitude, float), rv[None], tol * o.m / o.mt)
        K = k0 * o.m / o.mt * o.si
        ctx.close("RV from its semi-amplitude", rv, o.rv(t, K), 2 * tol * o.m / o.mt)
        # with a parallax, proper motions (arcsec / day)
        pl = case["parallax"]
        sp = System(Central(**g.ckwargs(c))).add_body(parallax=pl, **g.kwargs(p)).bodies[0]
        A = ureg.arcsec / ureg.day
        ctx.close("relative proper motion", mag(sp.relative_velocity(tt), A), want / O.AU_R * pl, tol / O.AU_R * pl)
        ctx.close("body proper motion", mag(sp.velocity(tt), A), want / O.AU_R * pl * o.M / o.mt, tol / O.AU_R * pl)
        ctx.nt(o.e > 0.01 and o.si > 0.01)
        ctx.label("eccentric", o.e > 0)
        ctx.label("node", p.get("Omega") is not None)

    return st.fixed_dictionaries({
        "central": g.central_params(), "body": g.body_params(need_mass=True), "phases": g.phases(),
        "units": st.booleans(), "parallax": uni(1e-3, 1.0)}), prop


def make_derivative(prec):
    """Reported velocities are the time derivatives of the reported positions."""
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.orbits.keplerian import Central, System
    from jaxoplanet.units import unit_registry as ureg

    V = ureg.R_sun / ureg.day

    def prop(case, ctx):
        c, b = case["central"], case["body"]
        p = g.resolve(c, b)
        o = O.Orbit(c, p)
        body = System(Central(**g.ckwargs(c))).add_body(**g.kwargs(p)).bodies[0]
        t = g.times(o, pad(case["phases"], 4))
        k0 = o.n * o.a / math.sqrt(1 - o.e**2)
        tol = (ang_tol(o, t, ctx.eps) + 200 * ctx.eps) * 20 * k0 / (1 - o.e) ** 1.5
        for pre, f in (("relative_", 1.0), ("", o.M / o.mt), ("central_", o.m / o.mt)):
            pos = getattr(body, pre + "position")
            d = jax.vmap(jax.jacfwd(lambda x: jnp.stack([q.to(ureg.R_sun).magnitude for q in pos(x)])))(jnp.asarray(t))
            v = np.stack([np.asarray(q.to(V).magnitude) for q in getattr(body, pre + "velocity")(jnp.asarray(t))])
            ctx.close(pre + "velocity = d(position)/dt", v, np.asarray(d).T, tol * f)
        ctx.nt(o.e > 0.01)

    return st.fixed_dictionaries({
        "central": g.central_params(), "body": g.body_params(need_mass=True, emax=0.9), "phases": g.phases()}), prop


def make_semiamplitude(prec):
    """A semi-amplitude (argument or property of the body) replaces mass and inclination."""
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.orbits.keplerian import Central, System
    from jaxoplanet.units import unit_registry as ureg

    V = ureg.R_sun / ureg.day

    def prop(case, ctx):
        c, b = case["central"], case["body"]
        p = g.resolve(c, b)
        o = O.Orbit(c, p)
        K = case["K"]
        body = System(Central(**g.ckwargs(c))).add_body(**g.kwargs(p)).bodies[0]
        t = g.times(o, pad(case["phases"], NT))
        tt = jnp.asarray(t)
        want = o.rv(t, K)
        tol = (ang_tol(o, t, ctx.eps) + 100 * ctx.eps) * 4 * K
        got = body.radial_velocity(tt, semiamplitude=K)
        ctx.true("a bare semi-amplitude gives a bare result", not hasattr(got, "magnitude"))
        ctx.close("RV (bare K)", np.asarray(got), want, tol)
        got = body.radial_velocity(tt, semiamplitude=K * ureg.m / ureg.s)
        ctx.close("RV (K in m/s)", np.asarray(got.to(ureg.m / ureg.s).magnitude), want, tol)
        # stored on the body, in R_sun/day
        b2 = System(Central(**g.ckwargs(c))).add_body(radial_velocity_semiamplitude=K, **g.kwargs(p)).bodies[0]
        ctx.close("RV (stored K)", np.asarray(b2.radial_velocity(tt).to(V).magnitude), want, tol)
        vz = np.asarray(b2.central_velocity(tt)[2].to(V).magnitude)
        ctx.close("central Vz (stored K)", vz, -want, tol)
        # on the sky, turned by the node
        W = case["node"]
        for src, more in (("argument", {}), ("stored", dict(radial_velocity_semiamplitude=K))):
            at, turned = (System(Central(**g.ckwargs(c))).add_body(**more, **g.kwargs(dict(p, Omega=w, Omega_form="angle"))).bodies[0] for w in (None, W))
            args = {} if more else dict(semiamplitude=K * V)
            v0, v1 = (np.stack([np.asarray(q.to(V).magnitude, float) for q in x.central_velocity(tt, **args)]) for x in (at, turned))
            R = np.array([[math.cos(W), -math.sin(W), 0], [math.sin(W), math.cos(W), 0], [0, 0, 1]])
            ctx.close(f"the node turns the velocity ({src})", v1, R @ v0, 50 * ctx.eps * np.abs(v0).max(), info=f"node {W!r} {p}")
        # K is half of the peak to peak amplitude
        f = np.linspace(0, 1, 721)
        E = 2 * math.pi * f
        M = E - o.e * np.sin(E)
        full = np.asarray(body.radial_velocity(jnp.asarray(o.tp + M / o.n), semiamplitude=K))
        ctx.close("half peak-to-peak", 0.5 * (full.max() - full.min()), K, K * (1e-4 + 2e-3 * (o.e > 0.8)) * (1 + 1 / (1 - o.e)))
        if p["mass"] is not None:
            for q, src, args in (("argument", body, dict(semiamplitude=K * V)), ("stored", b2, {})):
                vb = np.asarray(src.velocity(tt, **args)[2].to(V).magnitude)
                vr = np.asarray(src.relative_velocity(tt, **args)[2].to(V).magnitude)
                ctx.close(f"body Vz from K ({q})", vb, want * o.M / o.m, tol * o.M / o.m)
                ctx.close(f"relative Vz from K ({q})", vr, want * o.mt / o.m, tol * o.mt / o.m)
        ctx.nt(o.e > 0.01)
        ctx.label("mass", p["mass"] is not None)

    return st.fixed_dictionaries({
        "central": g.central_params(), "body": g.body_params(emax=0.9), "phases": g.phases(), "K": loguni(1e-3, 1e3), "node": sym(3.0)}), prop


register("C06",
         Sub("velocity", make_velocity, quick=320, thorough=8000, shards=4, tshards=6,
             rule="eccentric and not face on"),
         Sub("derivative", make_derivative, quick=80, thorough=2000, shards=2, tshards=4, rule="eccentric"),
         Sub("semiamplitude", make_semiamplitude, quick=160, thorough=4000, shards=2, tshards=4, rule="eccentric"))
