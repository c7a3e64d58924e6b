"""C27: derivatives of orbits and of the light curves of orbits with respect to every parameter."""
import math

import numpy as np

from ..core import Sub, ints, loguni, pad, register, sym, uni
from ..gen_orbit import sincos
from ..oracles import jet
from ..oracles import limbdark as ld
from .c12 import rule_ref

ASSUMPTIONS = [
    "oracle: the documented orbit written out in numpy and differentiated by the complex step; the flux by the chain rule "
    "with line integrals along the occultor's limb",
    "accuracy of the flux derivatives is not judged within 1e-6 of a contact point; finiteness is judged everywhere",
]
NT = 6
# central, size, shape, tilt, node, epoch, mass of the body given
KINDS = [
    (("mass", "radius"), "period", None, None, None, None, False),
    (("mass", "radius"), "period", "angle", "impact", None, "t_transit", False),
    (("radius", "density"), "semimajor", "sincos", "incl", "angle", "t_peri", True),
    (("mass", "density"), "period", "sincos", "impact", "sincos", "t_transit", True),
    (("mass", "radius"), "semimajor", "angle", "impact", "angle", "t_peri", False),
    (("density",), "period", None, "impact", None, "t_transit", True),
]
NAMES = {"ecc": "eccentricity", "omega": "omega_peri", "sin_omega": "sin_omega_peri", "cos_omega": "cos_omega_peri",
         "Omega": "asc_node", "sin_Omega": "sin_asc_node", "cos_Omega": "cos_asc_node", "impact": "impact_param",
         "incl": "inclination", "t_transit": "time_transit", "t_peri": "time_peri", "pradius": "radius", "pmass": "mass"}
SPECIAL = [-math.pi / 2, math.pi / 2, 0.0, math.pi, 3 * math.pi / 2, -math.pi]


def flat(kind, case):
    """Parameters of a generated case as floats."""
    cen, size, shape, tilt, node, epoch, mass = kind
    p = {}
    for k in cen:
        p["c" + k] = case["c" + k]
    if size == "period":
        p["period"] = case["period"]
    e, w = 0.0, 0.0
    if shape:
        e, w = case["ecc"], case["omega"]
        p["ecc"] = e
        if shape == "angle":
            p["omega"] = w
        else:
            p["sin_omega"], p["cos_omega"] = sincos(w)
    if mass:
        p["pmass"] = case["pmass"]
    c = {k: p["c" + k] for k in cen}
    M, R, _ = jet.central(c)
    if size == "semimajor":
        p["semimajor"] = case["aR"] * R
        a = p["semimajor"]
    else:
        a = (jet.G * (M + p.get("pmass", 0.0)) * p["period"] ** 2 / (4 * math.pi**2)) ** (1 / 3)
    if tilt == "impact":
        p["impact"] = case["impact"] * min(1.0, 0.9 * a * (1 - e * e) / (1 + e * math.sin(w)) / R)
    elif tilt == "incl":
        p["incl"] = case["incl"]
    if node == "angle":
        p["Omega"] = case["Omega"]
    elif node == "sincos":
        p["sin_Omega"], p["cos_Omega"] = sincos(case["Omega"])
    if epoch:
        p[epoch] = case["epoch"]
    p["pradius"] = case["k"] * R
    return p


def oracle(kind, q):
    b = {k: q[k] for k in q if k[0] != "c" or k.startswith("cos")}
    b["mass"] = q.get("pmass")
    return jet.Orbit({k: q["c" + k] for k in kind[0]}, b)


def strategy():
    from hypothesis import strategies as st

    ang = st.one_of(sym(math.pi), st.sampled_from(SPECIAL), sym(7.0))
    return ints(0, len(KINDS) - 1).flatmap(lambda i: st.fixed_dictionaries(dict(
        kind=st.just(i), cmass=loguni(0.1, 10.0), cradius=loguni(0.1, 10.0), cdensity=loguni(0.01, 3.0),
        period=loguni(0.5, 1000.0), aR=loguni(1.5, 300.0),
        ecc=st.one_of(uni(0.0, 0.85), st.sampled_from([0.0, 1e-9, 0.3, 0.5])), omega=ang,
        impact=st.one_of(sym(1.05), st.sampled_from([0.0, 1.0, 0.5])), incl=st.one_of(uni(1.3, math.pi / 2), uni(0.0, math.pi), st.just(math.pi / 2)),
        Omega=ang, epoch=st.one_of(sym(50.0), st.just(0.0)), pmass=loguni(1e-6, 1.0), k=st.one_of(uni(0.01, 0.3), uni(0.01, 1.0), st.just(0.1)),
        K=loguni(1e-3, 10.0), u=st.tuples(uni(0.0, 0.8), uni(-0.3, 0.3)),
        # epochs in periods from the transit, or around it in transit durations
        times=st.lists(st.one_of(st.tuples(st.just("phase"), st.one_of(sym(0.5), st.sampled_from([0.0, 0.5, 0.25]), sym(5.0))),
                                 st.tuples(st.just("transit"), st.one_of(sym(1.2), st.just(0.0)))), min_size=1, max_size=NT))))


def times(kind, p, case):
    """Times, and times of the reference transit, from the oracle (accurate enough to aim)."""
    o = oracle(kind, {k: complex(v) for k, v in p.items()})
    P = o.P.real
    E = math.atan2((math.sqrt(1 - np.real(o.e) ** 2) * np.real(o.cw)), np.real(o.e) + np.real(o.sw))
    tt = np.real(o.tp) + (E - np.real(o.e) * math.sin(E)) * P / (2 * math.pi)
    v = abs(np.hypot(*np.real(o.relative_velocity(np.array([tt + 0j])))[:2, 0])) + 1e-30
    dur = min(0.1 * P, 2 * (np.real(o.R) + p["pradius"]) / v)
    return np.array([tt + (x * P if how == "phase" else 0.5 * x * dur) for how, x in case["times"]]), o


def make_orbit(prec):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.light_curves.limb_dark import light_curve
    from jaxoplanet.orbits.keplerian import Central, System

    fns = {}

    def get(i):
        if i not in fns:
            kind = KINDS[i]

            def observe(p, t, u, K):
                c = Central(**{k: p["c" + k] for k in kind[0]})
                kw = {NAMES.get(k, k): p[k] for k in p if k[0] != "c" or k.startswith("cos")}
                s = System(c).add_body(**kw)
                b = s.bodies[0]
                pos = jnp.stack([x.magnitude for x in b.relative_position(t)])
                vel = jnp.stack([x.magnitude for x in b.relative_velocity(t)])
                rv = b.radial_velocity(t, semiamplitude=K)
                lc = light_curve(s, u, order=40)(t)[..., 0]
                return jnp.concatenate([pos, vel, jnp.stack([jnp.asarray(getattr(rv, "magnitude", rv)), lc])])

            def all_(p, t, u, K):
                return observe(p, t, u, K), jax.jacfwd(observe, (0, 1, 2, 3))(p, t, u, K), jax.jacrev(observe, (0, 1, 2, 3))(p, t, u, K)
            fns[i] = jax.jit(jax.vmap(all_, in_axes=(None, 0, None, None)))
        return fns[i]

    def prop(case, ctx):
        kind = KINDS[case["kind"]]
        p = flat(kind, case)
        if not ctx.f64:
            p = {k: float(np.float32(v)) for k, v in p.items()}
        t, o = times(kind, p, case)
        t = pad(t, NT)
        if not ctx.f64:
            t = t.astype(np.float32).astype(float)
        u, K = np.array(case["u"]), case["K"]
        val, fwd, rev = get(case["kind"])({k: jnp.asarray(v) for k, v in p.items()}, jnp.asarray(t), jnp.asarray(u), jnp.asarray(K))
        cols = sorted(k for k in p if not k.startswith(("sin_", "cos_"))) + sorted("angle_" + k[4:] for k in p if k.startswith("sin_"))

        def column(J, k):
            if k.startswith("angle_"):  # an angle given by its sine and cosine moves along the circle
                k = k[6:]
                return np.asarray(J["sin_" + k], float) * p["cos_" + k] - np.asarray(J["cos_" + k], float) * p["sin_" + k]
            return np.asarray(J[k], float)

        def columns(J):
            return np.stack([column(J[0], k) for k in cols] + [np.asarray(J[1], float)] + [np.asarray(J[2], float)[..., i] for i in range(2)] + [np.asarray(J[3], float)], -1)
        F, Rv = columns(fwd), columns(rev)  # (time, observable, parameter)
        names = cols + ["t", "u1", "u2", "K"]
        info = str({k: case[k] for k in case if k != "times"} | {"p": p, "t": t.tolist()})
        for J, how in ((F, "forward"), (Rv, "reverse")):
            bad = ~np.isfinite(J)
            if bad.any():
                w = np.argwhere(bad)[0]
                ctx.true(f"{how} derivative finite", False, f"observable {w[1]}, parameter {names[w[2]]} at t={t[w[0]]!r}; {info}")
        # the oracle, one direction at a time
        R = float(np.real(o.R))
        a, P, e = float(np.real(o.a)), float(np.real(o.P)), float(np.real(o.e))
        x0 = np.real(o.relative(t + 0j))
        rho = np.hypot(x0[0], x0[1]) / R
        k = p["pradius"] / R
        T = ld.total(u)
        B = np.array([ld.blocked(u, z, k) if f > 0 else 0.0 for z, f in zip(rho, x0[2])])
        G = np.array([ld.blocked_grad(u, z, k) if f > 0 else (0.0, 0.0) for z, f in zip(rho, x0[2])])
        want = np.zeros_like(F)

        def along(name):
            q = {n: complex(v) for n, v in p.items()}
            tt, KK = t + 0j, complex(K)
            if name in q:
                q[name] += 1j * jet.H
            elif name.startswith("angle_"):
                q["sin_" + name[6:]] += 1j * jet.H * p["cos_" + name[6:]]
                q["cos_" + name[6:]] -= 1j * jet.H * p["sin_" + name[6:]]
            elif name == "t":
                tt = tt + 1j * jet.H
            elif name == "K":
                KK += 1j * jet.H
            oo = oracle(kind, q)
            x = oo.relative(tt)
            d = np.imag(np.concatenate([x, oo.relative_velocity(tt), oo.rv(tt, KK)[None]])) / jet.H
            b = np.where(rho > 0, (x0[0] * d[0] + x0[1] * d[1]) / np.maximum(rho, 1e-300) / R**2, 0.0) - rho * np.imag(oo.R) / jet.H / R
            r = np.imag(q["pradius"] / oo.R) / jet.H
            return np.concatenate([d, [-(G[:, 0] * b + G[:, 1] * r) / T]]).T
        for i, n in enumerate(names):
            if n in ("u1", "u2"):
                ev = np.eye(2)[int(n[1]) - 1]
                Bk = np.array([(ld.blocked(ev, z, k) - ld.blocked([], z, k)) if f > 0 else 0.0 for z, f in zip(rho, x0[2])])
                want[:, 7, i] = -(Bk * T - B * (ld.total(ev) - ld.total([]))) / T**2
            else:
                want[:, :, i] = along(n)
        # conditioning: the anomaly moves by dfdM per unit of phase, the phase is known to eps * |turns|
        eps = ctx.eps
        turns = 1 + np.abs(t - np.real(o.tp)) / P + (np.abs(t) + abs(case["epoch"])) / P
        kappa = (1 + e) ** 2 / (1 - e) ** 3.5
        scale = {"cmass": p.get("cmass"), "cradius": p.get("cradius"), "cdensity": p.get("cdensity"), "period": P, "semimajor": a, "pradius": p["pradius"],
                 "pmass": max(p.get("pmass", 0), 1e-3), "t": P, "t_transit": P, "t_peri": P, "K": K}
        vel = 2 * math.pi * a / P
        size = np.array([a] * 3 + [vel] * 3 + [K])
        for i, n in enumerate(names):
            s = scale.get(n) or 1.0
            tol = 300 * eps * kappa**2 * turns[:, None] * turns[:, None] * size[None, :] / s / math.sqrt(1 - e)
            tol = tol + 300 * eps * kappa * np.abs(want[:, :7, i])
            for J, how in ((F, "forward"), (Rv, "reverse")):
                ctx.close(f"d orbit/d {n} {how}", J[:, :7, i], want[:, :7, i], tol, info=info)
        margin = np.minimum(np.abs(rho - np.abs(1 - k)), np.abs(rho - 1 - k))
        # the root of the limb's distance to contact amplifies what little error the position has
        front = np.abs(x0[2]) > 1e-6 * a
        derr = eps * kappa * turns * a / R
        ok = (margin > 1e-6) & front & (derr < 1e-3 * margin) & ((rho > 1e-6) | (rho == 0))
        if not ctx.f64:
            ok &= (margin > 1e-2) & (rho > 1e-2)
        if ok.any():
            for i, n in enumerate(names):
                b = np.abs(want[ok, :3, i]).max(-1) / R + 1 / R + 1
                tol = (3e-5 if ctx.f64 else 2e-2) * b + 50 * derr[ok] * b / np.sqrt(margin[ok]) + 50 * eps * kappa**2 * turns[ok] ** 2 * a / R / (scale.get(n) or 1.0)
                for J, how in ((F, "forward"), (Rv, "reverse")):
                    ctx.close(f"d flux/d {n} {how}", J[ok, 7, i], want[ok, 7, i], tol, info=info)
        ctx.label("in transit", (ok & (B > 0)).any())
        ctx.label("transit centre", (rho < 1e-6).any())
        ctx.label("transit at apastron", bool(kind[2] and abs(math.sin(case["omega"]) + 1) < 1e-15))
        ctx.nt(bool((ok & (np.abs(G[:, 1]) > 1e-3)).any()) or kind[2] is not None)

    return strategy(), prop


def shape_orbit(q, t, k):
    """Distance from the centre of the star (complex), and whether the planet is in front, for transit number k."""
    chord2 = (1 + q["ror"]) ** 2 - q["b"] ** 2
    chord = np.sqrt(chord2) if np.real(chord2) > 0 else 0.0
    speed = q["speed"] if "speed" in q else 2 * chord / q["duration"]
    dur = q["duration"] if "duration" in q else 2 * chord / q["speed"]
    dt = t - (q["t0"] + k * q["period"])
    x = speed * dt
    d = x * x + q["b"] ** 2
    # the distance itself is even in the impact parameter: at zero its derivative counts as zero
    rho = np.where(d.real > 0, np.sqrt(np.where(d.real > 0, d, 1.0)), 0.0)
    return rho, np.abs(dt.real) < 0.5 * np.real(dur), np.abs(np.abs(dt.real) - 0.5 * np.real(dur)), dt.real


def judge(ctx, J, how, want, ok, tol, names, info):
    for i, n in enumerate(names):
        if ok.any():
            ctx.close(f"d flux/d {n} {how}", J[ok, i], want[ok, i], tol[ok, i] if tol.ndim > 1 else tol[ok], info=info)


def make_transit(prec):
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.light_curves.limb_dark import light_curve
    from jaxoplanet.light_curves.transforms import integrate
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.orbits.ttv import TTVOrbit

    fns = {}
    TN = 5

    def get(by, ttv, exposure):
        key = (by, ttv, exposure)
        if key not in fns:
            def observe(p, u, t):
                kw = dict(impact_param=p["b"], radius_ratio=p["ror"])
                kw[by] = p[by]
                if ttv == "times":
                    o = TTVOrbit(transit_times=(p["tt"],), **{k: v[None] for k, v in kw.items()})
                elif ttv == "offsets":
                    o = TTVOrbit(ttvs=(p["ttv"],), period=p["period"][None], time_transit=p["t0"][None], **{k: v[None] for k, v in kw.items()})
                else:
                    o = TransitOrbit(period=p["period"], time_transit=p["t0"], **kw)
                f = light_curve(o, u, order=40)
                if exposure:
                    f = integrate(f, exposure_time=exposure, order=1, num_samples=5)
                return jnp.ravel(f(t))[0]

            def all_(p, u, t):
                return observe(p, u, t), jax.jacfwd(observe, (0, 1, 2))(p, u, t), jax.jacrev(observe, (0, 1, 2))(p, u, t)
            fns[key] = jax.jit(jax.vmap(all_, in_axes=(None, None, 0)))
        return fns[key]

    def prop(case, ctx):
        by, ttv = case["by"], case["ttv"]
        expo = 0.01 if case["expose"] else None
        ror, P, t0 = case["ror"], case["period"], case["t0"]
        b = case["b"] * (1 + ror)
        chord = math.sqrt(max((1 + ror) ** 2 - b * b, 0.0))
        dur = case["dur"] * P
        p = {"b": b, "ror": ror}
        p[by] = dur if by == "duration" else 2 * math.sqrt(abs((1 + ror) ** 2 - b * b) + 1e-3) / dur
        off = np.array(case["off"]) * P
        if ttv == "times":
            p["tt"] = t0 + P * np.arange(TN) + off
        elif ttv == "offsets":
            p.update(ttv=off, period=P, t0=t0)
        else:
            p.update(period=P, t0=t0)
        names = []
        for n in sorted(p):
            names += [n] if np.ndim(p[n]) == 0 else [f"{n}{i}" for i in range(TN)]
        names += ["u1", "u2", "t"]
        u = np.array(case["u"])

        def geometry(q):
            """(first transit, period, times of the transits), complex."""
            if ttv == "times":
                A = np.stack([np.ones(TN), np.arange(TN)], -1)
                c0, c1 = np.linalg.solve(A.T @ A + 0j, A.T @ q["tt"])
                return c0, c1, q["tt"]
            if ttv == "offsets":
                return q["t0"], q["period"], q["t0"] + q["period"] * np.arange(TN) + q["ttv"] - np.mean(q["ttv"])
            return q["t0"], q["period"], None
        c0, c1, tt = [None if v is None else np.real(v) for v in geometry(p)]
        span = np.real(p["duration"]) if by == "duration" else 2 * chord / p["speed"]
        t = np.array([(c0 + k * c1 if tt is None else tt[k % TN]) + (0.6 * x * span if near else 0.4 * x * c1) for k, x, near in case["times"]])
        t = pad(t, NT)
        J = get(by, ttv, expo)({k: jnp.asarray(v) for k, v in p.items()}, jnp.asarray(u), jnp.asarray(t))

        def columns(j):
            out = []
            for n in sorted(p):
                a = np.asarray(j[0][n], float)
                out += [a] if a.ndim == 1 else list(a.T)
            return np.stack(out + list(np.asarray(j[1], float).T) + [np.asarray(j[2], float)], -1)
        F, Rv = columns(J[1]), columns(J[2])
        info = str({"by": by, "ttv": ttv, "expose": expo, "p": {k: np.asarray(v).tolist() for k, v in p.items()}, "u": u.tolist(), "t": t.tolist()})
        for j, how in ((F, "forward"), (Rv, "reverse")):
            bad = ~np.isfinite(j)
            if bad.any():
                w = np.argwhere(bad)[0]
                ctx.true(f"{how} derivative finite", False, f"d flux/d {names[w[1]]} at t={t[w[0]]!r}; {info}")
        shifts = np.array([0.0]) if expo is None else np.array([-0.5, -0.25, 0.0, 0.25, 0.5]) * expo
        wgt = np.array([1.0]) if expo is None else np.array([1, 2, 2, 2, 1]) / 8.0
        want = np.zeros_like(F)
        ok = np.ones(len(t), bool)
        worst = np.full(len(t), np.inf)
        hidden = np.zeros(len(t))
        T = ld.total(u)
        for s, w in zip(shifts, wgt):
            ts = t + s
            # the transit each time belongs to, and the linear ephemeris the planet moves with around it
            if tt is None:
                k = np.round((ts - c0) / c1)
                edge = np.abs(np.abs((ts - c0) / c1 - k) - 0.5) * c1
            else:
                k = np.argmin(np.abs(ts[:, None] - tt), 1)
                two = np.sort(np.abs(ts[:, None] - tt), 1)
                edge = two[:, 1] - two[:, 0]

            def rho_of(q, dts):
                a0, a1, att = geometry(q)
                z = {n: q[n] for n in q if np.ndim(q[n]) == 0}
                z["period"] = a1
                if att is None:
                    z["t0"] = a0
                    return shape_orbit(z, ts + dts, k)
                z["t0"] = 0.0
                # far from any listed transit the orbit repeats with the period
                x = ts + dts - att[k]
                turn = np.round(np.real(x) / np.real(a1))
                return shape_orbit(z, x - turn * a1, 0)
            rho, front, gap, _ = rho_of({n: v + 0j for n, v in p.items()}, 0j)
            rho = rho.real
            margin = np.minimum(np.abs(rho - abs(1 - ror)), np.abs(rho - 1 - ror))
            if b >= 1 + ror - 1e-6:
                margin = np.full(len(t), abs(b - 1 - ror))
            turn_edge = np.inf if tt is None else np.abs(np.abs(((ts - tt[k]) / c1) % 1.0) - 0.5) * c1
            ok &= (margin > 1e-5) & (gap > 1e-9 * c1) & (edge > 1e-9 * c1) & (turn_edge > 1e-9 * c1) & ((rho > 1e-6) | (rho == 0))
            worst = np.minimum(worst, margin)
            B = np.array([ld.blocked(u, z, ror) if f else 0.0 for z, f in zip(rho, front)])
            G = np.array([ld.blocked_grad(u, z, ror) if f else (0.0, 0.0) for z, f in zip(rho, front)])
            i = 0
            for n in sorted(p) + ["t"]:
                for m in ([None] if np.ndim(p.get(n, 0.0)) == 0 else range(TN)):
                    q = {a: v + 0j for a, v in p.items()}
                    dts = 0j
                    if n == "t":
                        dts = 1j * jet.H
                    elif m is None:
                        q[n] = q[n] + 1j * jet.H
                    else:
                        q[n] = q[n] + 1j * jet.H * np.eye(TN)[m]
                    r = rho_of(q, dts)[0]
                    want[:, -1 if n == "t" else i] -= w * (G[:, 0] * np.imag(r) / jet.H + G[:, 1] * (n == "ror")) / T
                    i += 1
            hidden += w * B
            for c in range(2):
                ev = np.eye(2)[c]
                Bk = np.array([(ld.blocked(ev, z, ror) - ld.blocked([], z, ror)) if f else 0.0 for z, f in zip(rho, front)])
                want[:, i - 1 + c] += -w * (Bk * T - B * (ld.total(ev) - ld.total([]))) / T**2
        tol = 1e-6 * (np.abs(want) + 1e-3 * np.abs(want).max(initial=0.0)) + 1e-6 + (1e-6 * 2 / span if span else 0.0)
        tol = tol + 1e-13 * (np.abs(t).max() / P + 1) / np.sqrt(np.maximum(worst, 1e-12))[:, None] * (1 + 2 / max(span, 1e-12)) ** 2
        for j, how in ((F, "forward"), (Rv, "reverse")):
            judge(ctx, j, how, want, ok, tol, names, info)
        ctx.label("no transit at all", b >= 1 + ror)
        ctx.label("in transit", (ok & (hidden > 0)).any())
        ctx.label("timing variations", ttv is not None)
        ctx.nt(bool((ok & (hidden > 0)).any()))

    return ints(0, 5).flatmap(lambda i: st.fixed_dictionaries(dict(
        by=st.just(["duration", "duration", "speed", "duration", "speed", "duration"][i]), ttv=st.just([None, "times", None, "offsets", "times", None][i]),
        expose=st.just(i == 5), period=loguni(0.5, 100.0), t0=sym(20.0), ror=st.one_of(uni(0.01, 0.3), uni(0.01, 0.9)), dur=uni(0.01, 0.2),
        b=st.one_of(uni(0.0, 0.99), sym(0.9), st.sampled_from([0.0, 1.0, 1.1]), uni(1.0, 1.5)), off=st.lists(sym(0.1), min_size=TN, max_size=TN), u=st.tuples(uni(0.0, 0.8), uni(-0.3, 0.3)),
        times=st.lists(st.tuples(ints(0, 7), st.one_of(sym(1.0), st.just(0.0)), st.booleans()), min_size=1, max_size=NT)))), prop


def make_interpolate(prec):
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.light_curves.transforms import interpolate

    fns = {}

    def get(n, full):
        if (n, full) not in fns:
            def observe(p, t):
                def f(time):
                    # periodic with the period, so that both ends of a full grid agree
                    return p["a"] * jnp.cos(2 * jnp.pi * jnp.round(p["w"]) * (time.magnitude - 0.9 * p["t0"]) / p["period"]) + p["c"]
                kw = {} if full else {"duration": p["window"]}
                return interpolate(f, period=p["period"], time_transit=p["t0"], num_samples=n, **kw)(t)
            fns[n, full] = jax.jit(jax.vmap(lambda p, t: (observe(p, t), jax.jacfwd(observe, (0, 1))(p, t), jax.jacrev(observe, (0, 1))(p, t)), in_axes=(None, 0)))
        return fns[n, full]

    def prop(case, ctx):
        n, full = case["n"], case["full"]
        p = {"period": case["period"], "t0": case["t0"], "a": case["a"], "w": float(case["w"]), "c": case["c"]}
        if not full:
            p["window"] = case["window"] * case["period"]
        W = p["period"] if full else p["window"]
        t = pad([p["t0"] + k * p["period"] + 0.5 * x * W for k, x in case["times"]], NT)
        val, fwd, rev = get(n, full)({k: jnp.asarray(v) for k, v in p.items()}, jnp.asarray(t))

        def value(q, tt):
            w = q["period"] if full else q["window"]
            k = np.round(np.real(tt - q["t0"]) / np.real(q["period"]))
            s = (tt - q["t0"] - k * q["period"] + 0.5 * w) / w * (n - 1)
            i = np.clip(np.floor(s.real), 0, n - 2)
            f = lambda j: q["a"] * np.cos(2 * np.pi * p["w"] * (0.1 * q["t0"] - 0.5 * w + w * j / (n - 1)) / q["period"]) + q["c"]
            return (i + 1 - s) * f(i) + (s - i) * f(i + 1), s.real
        v0, s = value({k: v + 0j for k, v in p.items()}, t + 0j)
        ok = (np.abs(s - np.round(s)) > 1e-6) & (s > 0) & (s < n - 1)
        names = sorted(p) + ["t"]
        info = str({"p": p, "n": n, "t": t.tolist()})
        for nme in names:
            if nme == "w":
                continue
            q = {k: v + 0j for k, v in p.items()}
            tt = t + 0j
            if nme == "t":
                tt = tt + 1j * jet.H
            else:
                q[nme] += 1j * jet.H
            want = np.imag(value(q, tt)[0]) / jet.H
            rate = (p["a"] + abs(p["c"]) + 1e-3) * (7 * p["w"] / p["period"] + n / W)
            sc = {"a": 1, "c": 1, "w": p["a"] * (np.abs(t).max() + 1)}.get(nme, rate * (1 + np.abs(t - p["t0"]) / p["period"]))
            tol = 1e-11 * (1 + np.abs(t).max() / W) * n * sc
            for J, how in ((fwd, "forward"), (rev, "reverse")):
                got = np.asarray(J[1] if nme == "t" else J[0][nme], float)
                ctx.true(f"{how} derivative finite", np.isfinite(got), f"{nme} {info}")
                if ok.any():
                    ctx.close(f"d interpolated/d {nme} {how}", got[ok], want[ok], np.broadcast_to(tol, got.shape)[ok], info=info)
        ctx.nt(bool(ok.any()) and p["a"] > 0.01)

    return st.fixed_dictionaries(dict(n=st.sampled_from([5, 40]), full=st.booleans(), period=loguni(0.5, 50.0), t0=sym(10.0), window=uni(0.05, 0.9),
                                      a=uni(0.0, 2.0), w=ints(1, 5), c=sym(1.0), times=st.lists(st.tuples(ints(-3, 6), sym(1.0)), min_size=1, max_size=NT))), prop


def make_exposure(prec):
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.light_curves.transforms import integrate

    fns = {}

    def get(order, n, closed):
        if (order, n, closed) not in fns:
            def f(time, a, ph):
                t = time.magnitude
                return jnp.stack([a * jnp.sin(2.0 * t + ph), t * (t * 0.5 + a)])

            def observe(p, t):
                kw = dict(exposure_time=p["T"], order=order, num_samples=n)
                if closed:
                    return integrate(lambda time: f(time, p["a"], p["ph"]), **kw)(t)
                return integrate(f, **kw)(t, p["a"], p["ph"])

            def push(p, t, dp, dt):
                return jax.jvp(observe, (p, t), (dp, dt))[1]
            fns[order, n, closed] = (
                jax.jit(jax.vmap(lambda p, t: (observe(p, t), jax.jacfwd(observe, (0, 1))(p, t), jax.jacrev(observe, (0, 1))(p, t)), in_axes=(None, 0))),
                # all the times in one call of the light curve, as a model of data makes it
                jax.jit(lambda p, t: (jax.jacfwd(observe)(p, t), jax.jacrev(observe)(p, t))),
                jax.jit(jax.vmap(push, in_axes=(None, 0, None, None))),
                jax.jit(jax.vmap(lambda p, t: jax.jacfwd(jax.jacrev(observe))(p, t)["T"]["T"], in_axes=(None, 0))))
        return fns[order, n, closed]

    def prop(case, ctx):
        order, n = case["order"], case["n"]
        p = {k: case[k] for k in ("T", "a", "ph")}
        t = pad(case["times"], NT)
        x, w = rule_ref(order, n)
        each, whole, push, second = get(order, n, case["closed"])
        q = {k: jnp.asarray(v) for k, v in p.items()}
        _, F, R = each(q, jnp.asarray(t))
        wf, wr = whole(q, jnp.asarray(t))
        tk = t[:, None] + x * p["T"]
        S, C = np.sin(2 * tk + p["ph"]), np.cos(2 * tk + p["ph"])
        ft = np.stack([2 * p["a"] * C, tk + p["a"]], -1)
        mean = lambda v: np.einsum("k,tkj->tj", w, v)
        want = {"t": mean(ft), "T": mean(ft * x[:, None]), "a": mean(np.stack([S, tk], -1)), "ph": mean(np.stack([p["a"] * C, 0 * tk], -1))}
        info = str({**p, "order": order, "n": n, "t": t.tolist()})
        size = 1e-13 * n * (1 + np.abs(t).max() + p["T"]) ** 2 * (1 + abs(p["a"]))
        for J, how in ((F, "forward"), (R, "reverse")):
            for k in ("t", "T", "a", "ph"):
                ctx.close(f"d exposed/d {k} {how}", np.asarray(J[1] if k == "t" else J[0][k]), want[k], size, info=info)
        for J, how in ((wf, "forward"), (wr, "reverse")):
            for k in ("T", "a", "ph"):
                got = np.asarray(J[k])
                got = got.T if got.shape != (NT, 2) else got
                ctx.close(f"d exposed/d {k} {how}, all times", got, want[k], size, info=info)
        # along one direction in which everything moves at once
        d = dict(zip(("T", "a", "ph", "t"), case["along"]))
        got = np.asarray(push(q, jnp.asarray(t), {k: jnp.asarray(d[k]) for k in p}, jnp.asarray(d["t"])))
        ctx.close("derivative along a direction", got, sum(d[k] * want[k] for k in want), 4 * size, info=f"{info} {d}")
        ftt = np.stack([-4 * p["a"] * S, np.ones_like(tk)], -1)
        ctx.close("second derivative by the exposure", np.asarray(second(q, jnp.asarray(t))), mean(ftt * x[:, None] ** 2), 4 * size, info=info)
        ctx.label(f"order {order}", True)
        ctx.label("parameters closed over", case["closed"])
        ctx.nt(bool((np.abs(want["T"]) > 1e-6).any()))

    return st.fixed_dictionaries(dict(order=ints(0, 2), n=st.sampled_from([3, 7, 10]), closed=st.booleans(), T=st.one_of(uni(0.01, 2.0), loguni(1e-3, 5.0)),
                                      a=sym(2.0), ph=sym(3.0), times=st.lists(sym(5.0), min_size=1, max_size=NT),
                                      along=st.tuples(sym(1.0), sym(1.0), sym(1.0), sym(1.0)))), prop


register("C27",
         Sub("orbit", make_orbit, prec=("f64", "f32"), quick=300, thorough=8000, shards=3, tshards=6, f32_scale=0.35, rule="partially eclipsed, or an eccentric orbit"),
         Sub("transit", make_transit, quick=200, thorough=6000, shards=3, tshards=6, rule="in transit"),
         Sub("interpolate", make_interpolate, quick=120, thorough=4000, tshards=1, rule="inside the window"),
         Sub("exposure", make_exposure, quick=150, thorough=4000, tshards=1, rule="the mean moves with the exposure"))
