"""C07: derived orbital elements, equivalent parameterizations, rejection of contradictory input."""
import math

import numpy as np

from .. import gen_orbit as g
from ..core import Fail, Sub, ints, loguni, pad, register, sym, uni
from ..oracles import orbit as O

ASSUMPTIONS = ["IAU/CODATA constants written out in the oracle"]


def make_derived(prec):
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.orbits.keplerian import Central, System
    from jaxoplanet.units import unit_registry as ureg

    def m(x, u):
        return float(x.to(u).magnitude)

    def prop(case, ctx):
        c, b, un = case["central"], case["body"], case["units"]
        p = g.resolve(c, b)
        o = O.Orbit(c, p)
        cen = Central(**g.ckwargs(c, un))
        ctx.close("central mass", m(cen.mass, ureg.M_sun), o.M, 1e-12 * o.M)
        ctx.close("central radius", m(cen.radius, ureg.R_sun), o.R, 1e-12 * o.R)
        ctx.close("central density", m(cen.density, ureg.M_sun / ureg.R_sun**3), o.rho, 1e-12 * o.rho)
        sysm = System(cen).add_body(**g.kwargs(p, un))
        x = sysm.bodies[0]
        ctx.close("period", m(x.period, ureg.day), o.P, 1e-11 * o.P)
        ctx.close("semi-major axis", m(x.semimajor, ureg.R_sun), o.a, 1e-11 * o.a)
        ctx.close("total mass", m(x.total_mass, ureg.M_sun), o.mt, 1e-12 * o.mt)
        ctx.close("Kepler's third law", 4 * math.pi**2 * m(x.semimajor, ureg.R_sun)**3
                  / (O.G * m(x.total_mass, ureg.M_sun) * m(x.period, ureg.day)**2), 1.0, 1e-10)
        i = math.atan2(o.si, o.ci)
        # sin i from sqrt(1 - cos^2 i): accurate to sqrt(eps) when nearly face on
        ctx.close("inclination", m(x.inclination, ureg.radian), i, 1e-12 + 1e-15 / max(o.si, 1e-8))
        ctx.close("impact parameter", m(x.impact_param, ureg.dimensionless), o.b, 1e-11 * (1 + abs(o.b)) * (1 + 1 / (1 - o.e)))
        ctx.close("time of transit", o.same_turn(m(x.time_transit, ureg.day), o.t0), o.t0, 1e-11 * (abs(o.t0) + o.P))
        ctx.close("time of periastron", o.same_turn(m(x.time_peri, ureg.day), o.tp), o.tp, 1e-11 * (abs(o.tp) + o.P + abs(o.t0)))
        ctx.close("central radius of the body", m(x.central_radius, ureg.R_sun), o.R, 1e-12 * o.R)
        if o.circ:
            ctx.true("no omega on a circular orbit", x.omega_peri is None)
        else:
            ctx.close("omega mod 2 pi", math.remainder(m(x.omega_peri, ureg.radian) - o.w, 2 * math.pi), 0, 1e-14 * 64)
        if p["radius"] is not None:
            ctx.close("radius", m(x.radius, ureg.R_sun), p["radius"], 1e-13 * p["radius"])
        # recover the central from the orbit
        kw = dict(period=o.P, semimajor=o.a, radius=o.R)
        if p["mass"] is not None:
            kw["body_mass"] = p["mass"]
        back = Central.from_orbital_properties(**kw)
        ctx.close("mass from the orbit", m(back.mass, ureg.M_sun), o.M, 1e-10 * o.mt)
        ctx.close("radius from the orbit", m(back.radius, ureg.R_sun), o.R, 1e-13 * o.R)
        ctx.close("density from the orbit", m(back.density, ureg.M_sun / ureg.R_sun**3), o.rho, 1e-10 * o.rho * o.mt / o.M)
        ctx.nt(not o.circ and o.e > 0.01)
        ctx.label("circular", o.circ)

    return st.fixed_dictionaries({"central": g.central_params(), "body": g.body_params(), "units": st.booleans()}), prop


def make_equivalent(prec):
    """Two descriptions of one orbit give one trajectory."""
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.orbits.keplerian import Body, Central, System
    from jaxoplanet.units import unit_registry as ureg

    def pos(c, k, t):
        b = System(Central(**c)).add_body(**k).bodies[0]
        return np.stack([np.asarray(v.to(ureg.R_sun).magnitude) for v in b.relative_position(jnp.asarray(t))])

    def prop(case, ctx):
        c, b = case["central"], case["body"]
        p = g.resolve(c, b)
        o = O.Orbit(c, p)
        base = g.kwargs(p)
        t = g.times(o, pad(case["phases"], 4))
        alt = dict(base)
        flips = []
        if case["flip"][0]:
            flips.append("size")
            if "period" in alt:
                del alt["period"]
                alt["semimajor"] = o.a
            else:
                del alt["semimajor"]
                alt["period"] = o.P
        if case["flip"][1] and not o.circ:
            flips.append("omega")
            if "omega_peri" in alt:
                del alt["omega_peri"]
                alt["sin_omega_peri"], alt["cos_omega_peri"] = g.sincos(o.w)
            else:
                del alt["sin_omega_peri"], alt["cos_omega_peri"]
                alt["omega_peri"] = o.w + 2 * math.pi * case["turns"]
        if case["flip"][2] and p.get("Omega") is not None:
            flips.append("node")
            if "asc_node" in alt:
                del alt["asc_node"]
                alt["sin_asc_node"], alt["cos_asc_node"] = math.sin(o.O), math.cos(o.O)
            else:
                del alt["sin_asc_node"], alt["cos_asc_node"]
                alt["asc_node"] = o.O
        if case["flip"][3]:
            flips.append("tilt")
            if "impact_param" in alt:
                del alt["impact_param"]
                alt["inclination"] = math.atan2(o.si, o.ci)
            elif abs(o.ci) < 0.999:
                # (face on, cos(inclination) = 1 + rounding has no inclination)
                alt.pop("inclination", None)
                alt["impact_param"] = o.b
        if case["flip"][4]:
            flips.append("epoch")
            if "time_peri" in alt:
                del alt["time_peri"]
                alt["time_transit"] = o.t0
            else:
                alt.pop("time_transit", None)
                alt["time_peri"] = o.tp + o.P * case["turns"]
        if case["flip"][5] and o.circ:
            flips.append("e=0")
            w = case["w0"]
            # a circular orbit is an eccentric one with e = 0 and any omega
            alt["eccentricity"], alt["omega_peri"] = 0.0, w
            if "time_peri" in alt:
                del alt["time_peri"]
                alt["time_transit"] = o.t0
        M, R, rho = O.central(c)
        calt = [{"mass": M, "radius": R}, {"mass": M, "density": rho}, {"radius": R, "density": rho}][case["c"]]
        tol = 1e-9 * o.a * (1 + np.abs(o.n * (t - o.tp))) * o.dfdM_max() / (1 - o.e) ** 2 + 1e-7 * o.a * (o.si < 1e-3)
        ctx.close("same orbit, other parameters: " + "+".join(flips), pos(calt, alt, t), pos(c, base, t), tol, info=f"{base} vs {alt}")
        for f in flips:
            ctx.label(f)
        ctx.nt(len(flips) >= 2)

    return st.fixed_dictionaries({
        "central": g.central_params(), "body": g.body_params(emax=0.8), "phases": g.phases(),
        "flip": st.lists(st.booleans(), min_size=6, max_size=6), "turns": ints(-2, 2),
        "c": ints(0, 2), "w0": sym(3.0)}), prop


def make_reject(prec):
    """Contradictory or incomplete descriptions raise instead of giving some orbit."""
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.orbits.keplerian import Body, Central, System

    def raises(what, fn):
        try:
            fn()
        except (ValueError, TypeError, AssertionError, AttributeError):
            return
        raise Fail(f"{what}: accepted")

    # name -> (keys to remove, keys to add) turning a valid body into an invalid one
    def breakers(k, x):
        out = {}
        ps = {"period": 1.0 + abs(x), "semimajor": 2.0 + abs(x)}
        out["period and semimajor"] = {**k, **{n: ps[n] for n in ps if n not in k}}
        out["neither period nor semimajor"] = {n: v for n, v in k.items() if n not in ps}
        no_om = {n: v for n, v in k.items() if n not in ("omega_peri", "sin_omega_peri", "cos_omega_peri", "eccentricity")}
        out["eccentricity without omega"] = {**no_om, "eccentricity": 0.2}
        out["omega without eccentricity"] = {**no_om, "omega_peri": x}
        out["sin/cos omega without eccentricity"] = {**no_om, "sin_omega_peri": math.sin(x), "cos_omega_peri": math.cos(x)}
        out["sin omega without cos"] = {**no_om, "eccentricity": 0.2, "sin_omega_peri": math.sin(x)}
        out["cos omega without sin"] = {**no_om, "eccentricity": 0.2, "cos_omega_peri": math.cos(x)}
        out["omega twice"] = {**no_om, "eccentricity": 0.2, "omega_peri": x, "sin_omega_peri": math.sin(x), "cos_omega_peri": math.cos(x)}
        out["omega and sin omega"] = {**no_om, "eccentricity": 0.2, "omega_peri": x, "sin_omega_peri": math.sin(x)}
        no_an = {n: v for n, v in k.items() if n not in ("asc_node", "sin_asc_node", "cos_asc_node")}
        out["sin node without cos"] = {**no_an, "sin_asc_node": math.sin(x)}
        out["cos node without sin"] = {**no_an, "cos_asc_node": math.cos(x)}
        out["node twice"] = {**no_an, "asc_node": x, "sin_asc_node": math.sin(x), "cos_asc_node": math.cos(x)}
        out["node and cos node"] = {**no_an, "asc_node": x, "cos_asc_node": math.cos(x)}
        no_t = {n: v for n, v in k.items() if n not in ("impact_param", "inclination")}
        out["impact and inclination"] = {**no_t, "impact_param": 0.1, "inclination": 1.5}
        no_e = {n: v for n, v in k.items() if n not in ("time_transit", "time_peri")}
        out["two epochs"] = {**no_e, "time_transit": x, "time_peri": x}
        n0 = sorted(k)[0]
        out["vector " + n0] = {**k, n0: jnp.asarray([float(k[n0])] * 2)}
        return out

    def prop(case, ctx):
        p = g.resolve(case["central"], case["body"])
        k = g.kwargs(p)
        Body(**k)  # the valid description is accepted
        br = breakers(k, case["x"])
        names = sorted(br)
        name = names[case["which"] % len(names)]
        raises(f"Body with {name}: {br[name]}", lambda: Body(**br[name]))
        raises(f"System.add_body with {name}", lambda: System().add_body(**br[name]))
        v = abs(case["x"]) + 0.5
        cb = {
            "mass only": dict(mass=v), "radius only": dict(radius=v),
            "mass, radius and density": dict(mass=v, radius=v, density=v),
            "vector mass": dict(mass=jnp.asarray([v, v]), radius=v),
            "vector radius": dict(mass=v, radius=jnp.asarray([v, v])),
            "vector density": dict(radius=v, density=jnp.asarray([v, v])),
        }
        cn = sorted(cb)[case["cwhich"] % len(cb)]
        raises(f"Central with {cn}", lambda: Central(**cb[cn]))
        ctx.label(name.split(" ")[0] if name.startswith("vector") else name)
        ctx.label("central: " + cn)
        ctx.nt()

    return st.fixed_dictionaries({
        "central": st.just({}), "body": g.body_params(), "x": sym(3.0), "which": ints(0, 15),
        "cwhich": ints(0, 5)}), prop


register("C07",
         Sub("derived", make_derived, quick=320, thorough=8000, shards=2, tshards=3, rule="eccentric orbit"),
         Sub("equivalent", make_equivalent, quick=320, thorough=8000, shards=3, tshards=3, rule="at least two parameters re-expressed"),
         Sub("reject", make_reject, quick=200, thorough=3000, shards=1, tshards=2, rule="every case is an invalid description"))
