"""C10: orbits with transit timing variations."""
import math

import numpy as np

from ..core import Fail, Sub, ints, loguni, pad, register, sym, uni

ASSUMPTIONS = ["oracle: numpy least squares and nearest-transit geometry written out in the check",
               "transit times increase with the transit number; several planets are evaluated at scalar times, "
               "as the light-curve functions do"]
NT = 10


def planet_case():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "P": loguni(0.5, 300.0), "t0": st.one_of(sym(10.0), sym(2000.0)),
        # padded to a fixed number of transits: (gap to the next transit number, ttv / P)
        "tr": st.lists(st.tuples(st.sampled_from([1, 1, 1, 2, 3]), sym(0.2)), min_size=2, max_size=6),
        "first": ints(-3, 4), "b": uni(0.0, 0.9), "r": uni(0.01, 0.2), "dur": uni(0.02, 0.25)})


def build(pl, gaps):
    out = []
    for p in pl:
        inds, k = [], p["first"] if gaps else 0
        for g, _ in p["tr"]:
            inds.append(k)
            k += g if gaps else 1
        inds = np.array(inds)
        ttv = np.array([x * p["P"] for _, x in p["tr"]])
        out.append((inds, ttv))
    return out


def make_timing(prec):
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.light_curves.limb_dark import light_curve
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.orbits.ttv import TTVOrbit
    from jaxoplanet.units import unit_registry as ureg

    def prop(case, ctx):
        pl = case["planets"]
        n = len(pl)
        gaps = case["gaps"]
        spec = build(pl, gaps)
        P = np.array([p["P"] for p in pl])
        t0 = np.array([p["t0"] for p in pl])
        b = np.array([p["b"] * (1 + p["r"]) for p in pl])
        r = np.array([p["r"] for p in pl])
        dur = np.array([p["dur"] * p["P"] for p in pl])
        u = case["units"]
        Q = (lambda v: jnp.asarray(v * 24) * ureg.hour) if u else jnp.asarray
        common = dict(impact_param=jnp.asarray(b), radius_ratio=jnp.asarray(r))
        chord = np.sqrt((1 + r) ** 2 - b**2)
        if case["by"]:
            common["duration"] = Q(dur)
        else:
            common["speed"] = jnp.asarray(2 * chord / dur)
        speed = 2 * chord / dur
        inds_kw = dict(transit_inds=tuple(jnp.asarray(i) for i, _ in spec)) if gaps else {}
        dlp = case["dlp"]
        if case["mode"] == "ttvs":
            tts = [t0[i] + P[i] * spec[i][0] + spec[i][1] - spec[i][1].mean() for i in range(n)]
            kw = dict(period=Q(P), ttvs=tuple(Q(s[1]) for s in spec))
            if case["give_t0"]:
                kw["time_transit"] = Q(t0)
            else:
                tts = [tt - t0[i] for i, tt in enumerate(tts)]
                t0 = np.zeros(n)
            orb = TTVOrbit(**kw, **inds_kw, **common)
            T, Pl = t0, P
            base = P
            ttv = [s[1] - s[1].mean() for s in spec]
            ltol = [1e-13 * (np.abs(tt).max() + p) for tt, p in zip(tts, P)]
        else:
            tts = [t0[i] + P[i] * spec[i][0] + spec[i][1] for i in range(n)]
            kw = dict(delta_log_period=dlp) if dlp is not None else {}
            orb = TTVOrbit(transit_times=tuple(Q(tt) for tt in tts), **kw, **inds_kw, **common)
            T, Pl, ttv, ltol = np.zeros(n), np.zeros(n), [], []
            for i in range(n):
                X = np.stack([np.ones(len(tts[i])), spec[i][0]], axis=1).astype(float)
                (T[i], Pl[i]), *_ = np.linalg.lstsq(X, tts[i], rcond=None)
                ttv.append(tts[i] - X @ [T[i], Pl[i]])
                ltol.append(1e-14 * np.linalg.cond(X.T @ X) * (np.abs(tts[i]).max() + P[i]) * 4)
            base = Pl * math.exp(dlp or 0.0)
        for i in range(n):
            ctx.close("transit times", orb.transit_times[i], tts[i], 1e-13 * (np.abs(tts[i]).max() + P[i]) * 4, info=str(kw))
            ctx.close("linear reference time", orb.linear_t0[i], T[i], ltol[i])
            ctx.close("linear period", orb.linear_period[i], Pl[i], ltol[i])
            ctx.close("residuals", orb.ttvs[i], ttv[i], 2 * ltol[i] * (1 + np.abs(spec[i][0]).max()))
        ctx.close("period of the transit shape", orb.period.to(ureg.day).magnitude * np.ones(n), base, 4 * np.array(ltol) + 1e-14 * base)
        # geometry: at a time t the planet is where the nearest listed transit puts it
        for k, (i0, x, kind) in enumerate(case["times"]):
            i = i0 % n
            j = int(x * 7919) % len(tts[i]) if x >= 0 else len(tts[i]) - 1
            if kind == "near":
                t = tts[i][j] + x * dur[i]
            elif kind == "mid":
                t = tts[i][j]
            else:
                t = tts[i][0] - 0.8 * P[i] + abs(x) * (tts[i][-1] - tts[i][0] + 1.6 * P[i])
            X, Y, Z = (np.atleast_1d(np.asarray(v.magnitude, float)) for v in orb.relative_position(Q(np.asarray(t))))
            ctx.true("one position per planet", X.shape == (n,), f"{X.shape} for {n}")
            for q in range(n):
                tt = tts[q]
                d_all = np.abs(t - tt)
                m = int(np.argmin(d_all))
                gap = np.sort(d_all)
                terr = 30 * 2.2e-16 * (abs(t) + np.abs(tt).max() + 3 * P[q]) + 4 * ltol[q]
                if len(gap) > 1 and gap[1] - gap[0] < 4 * terr:
                    continue  # exactly between two transits: either is nearest
                d = t - tt[m]
                d -= round(d / base[q]) * base[q]
                if abs(abs(d) - base[q] / 2) < 4 * terr + 4 * ltol[q] * abs(t - tt[m]) / base[q]:
                    continue
                terr += 4 * ltol[q] * round(abs(t - tt[m]) / base[q])
                ctx.close("x", X[q], d * speed[q], speed[q] * terr + 1e-12 * abs(d * speed[q]), info=f"planet {q}, t={t}, transit at {tt[m]}")
                ctx.close("y", Y[q], b[q], 1e-13)
                if abs(abs(d) - dur[q] / 2) > 4 * terr:
                    ctx.true("in front during transit only", (Z[q] > 0) == (abs(d) < dur[q] / 2), f"planet {q}, t={t}, dt={d}")
                ctx.label("in transit", abs(d) < dur[q] / 2)
            if k == 0:
                fl = np.atleast_1d(np.asarray(light_curve(orb, 0.3, 0.1)(jnp.asarray(t)))).reshape(-1)
                same = TransitOrbit(period=jnp.asarray(base), time_transit=jnp.asarray([tt[int(np.argmin(np.abs(t - tt)))] for tt in tts]), **common)
                want = np.asarray(light_curve(same, 0.3, 0.1)(jnp.asarray(t)))
                safe = [abs(np.diff(np.sort(np.abs(t - tt))[:2])[0]) > 1e-6 for tt in tts]
                ctx.close("light curve of the nearest transits", np.where(safe, fl, want), want, 1e-6, info=f"t={t}")
        # a single planet at an array of times
        if n == 1:
            tarr = np.concatenate([tts[0] + 0.3 * dur[0] * case["frac"], [tts[0][0] - 0.1 * dur[0]]])
            X = np.asarray(orb.relative_position(jnp.asarray(tarr))[0].magnitude)
            each = np.array([float(orb.relative_position(jnp.asarray(v))[0].magnitude) for v in tarr])
            ctx.close("array of times", X, each, 1e-12)
        # the description is self-consistent: feed the reported times back
        again = TTVOrbit(transit_times=orb.transit_times, transit_inds=orb.transit_inds, **common)
        for i in range(n):
            lt = 1e-13 * np.linalg.cond(np.array([[len(spec[i][0]), spec[i][0].sum()], [spec[i][0].sum(), (spec[i][0]**2).sum()]], float)) * (np.abs(tts[i]).max() + P[i])
            ctx.close("sum of residuals", float(jnp.sum(again.ttvs[i])), 0.0, lt * 8)
            ctx.close("t0 + P n + ttv", again.linear_t0[i] + again.linear_period[i] * spec[i][0] + again.ttvs[i], tts[i], lt)
        ctx.label(case["mode"])
        ctx.label("gaps", gaps)
        ctx.label(f"{n} planets")
        ctx.nt(any(np.abs(v).max() > 1e-3 for v in ttv))

    return st.fixed_dictionaries({
        "planets": st.lists(planet_case(), min_size=1, max_size=3), "gaps": st.booleans(), "units": st.booleans(), "by": st.booleans(),
        "mode": st.sampled_from(["ttvs", "transit_times"]), "give_t0": st.sampled_from([True, True, False]),
        "dlp": st.one_of(st.none(), sym(1e-3)), "frac": sym(1.0),
        "times": st.lists(st.tuples(ints(0, 2), sym(1.0), st.sampled_from(["near", "mid", "range"])), min_size=1, max_size=4)}), prop


def make_expected(prec):
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.orbits.ttv import compute_expected_transit_times

    def prop(case, ctx):
        pl = case["planets"]
        P = np.array([p[0] for p in pl])
        t0 = np.array([p[1] for p in pl])
        lo = case["lo"]
        hi = lo + case["len"] * P.max()
        exact = case["exact"]
        if exact is not None:
            # binary fractions, so that the arithmetic is exact: the ends of the interval belong to it
            q = 256.0
            P, t0 = np.maximum(np.round(P * q), 1.0) / q, np.round(t0 * q) / q
            j, a, b = exact
            lo = t0[j % len(pl)] + P[j % len(pl)] * a
            hi = t0[j % len(pl)] + P[j % len(pl)] * (a + b)
        scalar = len(pl) == 1 and case["scalar"]
        got = compute_expected_transit_times(lo, hi, P[0] if scalar else jnp.asarray(P), t0[0] if scalar else jnp.asarray(t0))
        ctx.true("one array per planet", len(got) == len(pl))
        for i, g_ in enumerate(got):
            g_ = np.asarray(g_)
            e = 1e-12 * (abs(lo) + abs(hi) + abs(t0[i]) + P[i])
            k0, k1 = math.floor((lo - t0[i]) / P[i]) - 2, math.ceil((hi - t0[i]) / P[i]) + 2
            allt = t0[i] + P[i] * np.arange(k0, k1 + 1)
            must = allt[(allt > lo + e) & (allt < hi - e)]
            if exact is not None and ctx.f64:
                must = allt[(allt >= lo) & (allt <= hi)]
            may = allt[(allt > lo - e) & (allt < hi + e)]
            ctx.true("only transits in the interval", all(np.min(np.abs(may - x)) < e if len(may) else False for x in g_), f"{g_} not in {may}")
            ctx.true("every transit in the interval", all(len(g_) and np.min(np.abs(g_ - x)) < e for x in must), f"missing from {g_}: {must}")
            ctx.true("in order, once each", np.all(np.diff(g_) > P[i] / 2), str(g_))
            ctx.nt(len(must) > 1)
        ctx.label("empty", any(len(x) == 0 for x in got))
        ctx.label("ends on a transit", exact is not None)

    return st.fixed_dictionaries({
        "planets": st.lists(st.tuples(loguni(0.3, 300.0), st.one_of(sym(5.0), sym(2500.0))), min_size=1, max_size=3),
        "lo": st.one_of(sym(5.0), sym(2500.0)), "len": st.one_of(uni(0.0, 6.0), uni(0.0, 0.5)), "scalar": st.booleans(),
        "exact": st.one_of(st.none(), st.tuples(ints(0, 2), ints(-300, 300), ints(0, 6)))}), prop


def make_build(prec):
    """Invalid descriptions are rejected; building works inside a transformed function."""
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.orbits.ttv import TTVOrbit

    def prop(case, ctx):
        p = case["planet"]
        inds, ttv = build([p], False)[0]
        tt = p["t0"] + p["P"] * inds + ttv
        dur = p["dur"] * p["P"]
        com = dict(duration=dur, impact_param=p["b"], radius_ratio=p["r"])
        for what, kw in {
            "both": dict(transit_times=(jnp.asarray(tt),), ttvs=(jnp.asarray(ttv),), period=p["P"]),
            "neither": dict(period=p["P"]), "ttvs without a period": dict(ttvs=(jnp.asarray(ttv),)),
        }.items():
            try:
                TTVOrbit(**kw, **com)
            except ValueError:
                continue
            raise Fail(f"accepted {what}")
        t = jnp.asarray(tt[1] + 0.3 * dur)

        def x(mode, v, P, t0):
            if mode == 0:
                o = TTVOrbit(transit_times=(v,), **com)
            else:
                o = TTVOrbit(ttvs=(v,), period=P, time_transit=t0, **com)
            return o.relative_position(t)[0].magnitude.sum()

        sp = 2 * math.sqrt((1 + p["r"]) ** 2 - (p["b"]) ** 2) / dur
        if abs(np.diff(np.sort(np.abs(float(t) - tt))[:2])[0]) > 1e-6 * p["P"] and dur < 0.4 * p["P"] and int(np.argmin(np.abs(float(t) - tt))) == 1:
            args = (jnp.asarray(tt), p["P"], p["t0"])
            v, gr = jax.jit(jax.value_and_grad(lambda a: x(0, a, 0.0, 0.0)))(args[0])
            want = np.zeros(len(tt))
            want[1] = -sp
            ctx.close("x at 0.3 durations", v, 0.3 * dur * sp, sp * 1e-9 * (1 + np.abs(tt).max()))
            ctx.close("d x / d transit times", gr, want, 1e-6 * sp)
            v, gr = jax.jit(jax.value_and_grad(lambda a: x(1, a[0], a[1], a[2]), allow_int=True))((jnp.asarray(ttv), p["P"], p["t0"]))
            want = np.full(len(tt), sp / len(tt))
            want[1] -= sp
            tc = tt - ttv.mean()
            if int(np.argmin(np.abs(float(t) - tc))) == 1 and abs(float(t) - tc[1]) < 0.45 * p["P"]:
                ctx.close("d x / d ttvs", gr[0], want, 1e-6 * sp)
                ctx.close("d x / d period", gr[1], -sp * 1.0, 1e-6 * sp)
                ctx.close("d x / d time_transit", gr[2], -sp, 1e-6 * sp)
                ctx.nt()

    return st.fixed_dictionaries({"planet": planet_case()}), prop


register("C10",
         Sub("timing", make_timing, quick=150, thorough=4000, shards=4, tshards=5, rule="transit timing variations above 1e-3 days"),
         Sub("expected", make_expected, quick=200, thorough=3000, shards=2, tshards=2, rule="at least two transits in the interval"),
         Sub("build", make_build, quick=40, thorough=800, shards=2, tshards=2, rule="gradients with respect to ttvs, period and epoch compared"))
