"""C11: limb-darkened light curves of orbiting bodies."""
import math

import numpy as np

from .. import gen_orbit as g
from ..core import Fail, Sub, ints, loguni, pad, register, sym, uni
from ..oracles import limbdark as ref
from ..oracles import orbit as O
from .c03 import coeffs

ASSUMPTIONS = ["oracles: the two-body model of C05 and the eclipse quadrature of C03"]
NT = 6


def transiting():
    """Bodies that transit: sizes, shapes and nodes of any kind, small impact parameter."""
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "size": st.one_of(st.tuples(st.just("period"), loguni(0.5, 500.0)), st.tuples(st.just("x_semimajor"), loguni(2.0, 300.0))),
        "shape": st.one_of(st.none(), st.tuples(uni(0.0, 0.6), sym(math.pi), st.sampled_from(["angle", "sincos"]))),
        "tilt": st.one_of(st.tuples(st.just("x_impact"), uni(0.0, 1.0)), st.tuples(st.just("incl"), uni(1.45, math.pi / 2)), st.none()),
        "node": st.one_of(st.none(), st.tuples(sym(math.pi), st.sampled_from(["angle", "sincos"]))),
        "epoch": st.one_of(st.none(), st.tuples(st.sampled_from(["t_transit", "t_peri"]), sym(100.0))),
        "mass": st.one_of(st.none(), loguni(1e-6, 0.5)),
        "k": st.one_of(uni(0.01, 0.3), loguni(1e-3, 3.0))})


def setup(case):
    """Oracle orbits and body keyword arguments for a generated system."""
    c = case["central"]
    _, R, _ = O.central(c)
    ps, os_ = [], []
    for b in case["bodies"]:
        p = g.resolve(c, {**b, "radius": b["k"] * R})
        ps.append(p)
        os_.append(O.Orbit(c, p))
    return c, R, ps, os_


def observation_times(case, orbs, n):
    """In and around the primary and secondary eclipses of one of the bodies, and anywhere."""
    out = []
    for i, x, kind, j in case["times"]:
        o = orbs[i % len(orbs)]
        b = case["bodies"][i % len(orbs)]
        k = b["k"]
        # crossing time of the disc at the transit distance and the speed there
        v = o.n * o.a / math.sqrt(1 - o.e**2) * (1 + o.e * math.sin(o.w) if not o.circ else 1.0)
        half = (1 + k) * o.R / v
        if kind == "primary":
            t = o.t0 + 1.1 * x * half + j * o.P
        elif kind == "secondary":
            f2 = -0.5 * math.pi - (o.w if not o.circ else 0.5 * math.pi * 0)
            E = 2 * math.atan2(math.sqrt(1 - o.e) * math.sin(f2 / 2), math.sqrt(1 + o.e) * math.cos(f2 / 2))
            tm = (E - o.e * math.sin(E)) / o.n + o.tp if not o.circ else o.t0 + 0.5 * o.P
            t = tm + x * half + j * o.P
        else:
            t = o.t0 + x * o.P
        out.append(t)
    return pad(out, n)


def times_strategy():
    from hypothesis import strategies as st

    return st.lists(st.tuples(ints(0, 2), sym(1.0), st.sampled_from(["primary", "primary", "primary", "secondary", "any"]), ints(-3, 3)),
                    min_size=1, max_size=NT)


def make_flux(prec):
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.core.limb_dark import light_curve as core_lc
    from jaxoplanet.light_curves.limb_dark import light_curve
    from jaxoplanet.orbits.keplerian import Central, System
    from jaxoplanet.units import unit_registry as ureg

    def prop(case, ctx):
        c, R, ps, orbs = setup(case)
        n = len(orbs)
        sysm = System(Central(**g.ckwargs(c)))
        for p in ps:
            sysm = sysm.add_body(**g.kwargs(p, case["units"]))
        u = case["u"]
        form = case["form"]
        if form == "scalars" or not u:
            ua = tuple(u)
        elif form == "array":
            ua = (jnp.asarray(u),)
        else:
            ua = (jnp.asarray(u[:1]), *u[1:])
        t = observation_times(case, orbs, NT)
        shape = [(NT,), (2, 3), (), (1, 3, 2), (3, 1, 2)][case["shape"]]
        tt = t.reshape(shape) if shape else t[0]
        tq = jnp.asarray(tt) if not case["units"] else jnp.asarray(tt * 1440) * ureg.minute
        got = np.asarray(light_curve(sysm, *ua)(tq))
        want = np.zeros((len(t), n))
        tol = np.zeros((len(t), n))
        inside = False
        for i, o in enumerate(orbs):
            xyz = o.relative(t)
            sep = np.hypot(xyz[0], xyz[1]) / R
            d = o.dfdM_max()
            perr = (1e-13 / (1 - o.e) ** 2 + 1e-14 * d * (np.abs(o.n * (t - o.tp)) + np.abs(o.n * t) + 10)) * (1 + o.e) / (1 - o.e) * o.a / R
            perr = perr + 8e-16 / max(o.si, 1e-8) * o.a / R
            k = ps[i]["radius"] / R
            # the sign of z is not resolved where it vanishes
            zerr = perr * R
            for m in range(len(t)):
                if abs(xyz[2][m]) <= 4 * zerr[m] and sep[m] < 1 + k:
                    want[m, i] = np.nan
                    continue
                want[m, i] = ref.light_curve(u, sep[m], k) if xyz[2][m] > 0 else 0.0
                tol[m, i] = (6e-6 if len(u) > 0 else 1e-9) + 3 * perr[m]
                inside |= want[m, i] < -1e-9
        want = want.reshape(shape + (n,)) if shape else want[0]
        tol = tol.reshape(shape + (n,)) if shape else tol[0]
        ctx.true("shape of the light curve", got.shape == want.shape, f"{got.shape} for times {shape} and {n} bodies")
        ok = np.isfinite(want)
        ctx.close("flux against quadrature", np.where(ok, got, 0), np.where(ok, want, 0), tol, info=str(ps))
        # the same, body by body, and against the core function at the projected separation
        for i, b in enumerate(sysm.bodies):
            one = np.asarray(light_curve(b, *ua, order=20)(tq))
            ctx.true("shape for a single body", one.shape == shape)
            x, y, z = b.relative_position(tq)
            s = jnp.sqrt(x.magnitude**2 + y.magnitude**2) / R
            cl = np.where(np.asarray(z.magnitude) > 0, np.asarray(core_lc(jnp.asarray(u, dtype=float), s, ps[i]["radius"] / R, order=20)), 0.0)
            okb = ok[..., i] & np.isfinite(one)
            ctx.true("finite", np.all(np.isfinite(one)))
            ctx.close("flux of one body", np.where(okb, one, 0), np.where(okb, cl, 0), 1e-8, info=str(ps[i]))
            ctx.close("system against single body", np.where(okb, got[..., i], 0), np.where(okb, one, 0), 6e-6 if u else 1e-9, info=str(ps[i]))
        ctx.label("in eclipse", inside)
        ctx.label(f"{n} bodies")
        ctx.label(form)
        ctx.nt(inside)

    return st.fixed_dictionaries({
        "central": g.central_params(), "bodies": st.lists(transiting(), min_size=1, max_size=3),
        "u": st.sampled_from([0, 1, 2, 2, 4]).flatmap(coeffs), "form": st.sampled_from(["scalars", "array", "mixed"]),
        "units": st.booleans(), "shape": ints(0, 4), "times": times_strategy()}), prop


def make_finite(prec):
    """Fluxes and their gradients are finite for every configuration, central transits included."""
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.light_curves.limb_dark import light_curve
    from jaxoplanet.orbits import TransitOrbit
    from jaxoplanet.orbits.keplerian import Central, System

    def kep(t, b, r, e, w, P, u1, u2):
        s = System(Central(mass=1.0, radius=1.0)).add_body(period=P, impact_param=b, radius=r, eccentricity=e, omega_peri=w, time_transit=0.0)
        return light_curve(s.bodies[0], u1, u2)(t)

    def tra(t, b, r, e, w, P, u1, u2):
        o = TransitOrbit(period=P, duration=0.1 * P + 0.0 * (e + w), time_transit=0.0, impact_param=b, radius_ratio=r)
        return light_curve(o, u1, u2)(t)

    f = {n: jax.jit(jax.vmap(jax.value_and_grad(fn, tuple(range(8))))) for n, fn in (("keplerian", kep), ("transit", tra))}

    def prop(case, ctx):
        names = ["t", "b", "r", "e", "w", "P", "u1", "u2"]
        rows = []
        for x in case["rows"]:
            P = x["P"]
            r = x["r"]
            b = {"zero": 0.0, "any": x["x"] * (1 + r), "inner": abs(1 - r), "outer": 1 + r}[x["b"]]
            if case["which"] == "transit" and b >= (1 + r) * (1 - 1e-6):
                b = 0.5 * (1 + r)  # no chord, no duration
            rows.append([x["t"] * 0.05 * P, b, r, x["e"], x["w"], P, x["u"][0], x["u"][1]])
        a = pad(rows, 8)
        v, gr = f[case["which"]](*[jnp.asarray(a[:, i]) for i in range(8)])
        ctx.true("flux finite", np.isfinite(np.asarray(v)), str(a))
        for n, x in zip(names, gr):
            x = np.asarray(x)
            ctx.true(f"{case['which']}: d flux / d {n} finite", np.isfinite(x), f"{x} for rows {a}")
        if case["which"] == "keplerian":
            z = (a[:, 0] == 0) & (a[:, 1] == 0)
            ctx.close("symmetric about a central transit: d flux/dt", np.where(z, np.asarray(gr[0]), 0), 0.0 * a[:, 0], 1e-6)
        ctx.label(case["which"])
        ctx.nt(bool(((a[:, 1] == 0) & (a[:, 0] == 0)).any()))

    row = st.fixed_dictionaries({
        "t": st.one_of(st.just(0.0), sym(1.0), st.sampled_from([1.0, -1.0])), "b": st.sampled_from(["zero", "any", "inner", "outer"]),
        "x": uni(0, 1), "r": st.one_of(uni(0.01, 0.3), st.sampled_from([0.5, 1.0, 0.1])), "e": st.one_of(st.just(0.0), uni(0, 0.5)),
        "w": sym(math.pi), "P": loguni(0.5, 100.0), "u": st.tuples(uni(0, 0.5), uni(0, 0.5))})
    return st.fixed_dictionaries({"which": st.sampled_from(["keplerian", "transit"]), "rows": st.lists(row, min_size=1, max_size=8)}), prop


register("C11",
         Sub("flux", make_flux, quick=240, thorough=6000, shards=6, tshards=6, rule="some body in eclipse at some time"),
         Sub("finite", make_finite, quick=300, thorough=6000, shards=2, tshards=2, rule="an exactly central alignment"))
