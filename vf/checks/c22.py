"""C22: light curves and radial velocities of systems of bodies with surfaces."""
import math

import numpy as np

from ..core import Sub, ints, loguni, pad, register, sym, uni
from ..oracles import orbit as O
from .c19 import args, build, surfaces, truth
from .c20 import integrals
from .c21 import velocity

ASSUMPTIONS = ["oracle: independent two-body positions, surfaces integrated over the visible part of each disc, bodies one by one",
               "bodies in front of the central at the same time: their shadows are summed (as documented for transits); for velocities such times are left out"]
NT = 4
# kinds of the central surface and of those of the bodies ("dark": none), how bodies are given, shape of the times
CONFIGS = [
    ((2, 1, 1, 1), [(1, 0, 1, 1), "dark", (0, 1, 1, 1)], "mixed", (NT,)),
    ((0, 2, 1, 1), [(1, 1, 1, 1), (1, 1, 1, 1)], "list", (2, 2)),
    ((1, 0, 1, 1), [(2, 0, 1, 0)], "body", (NT,)),
    ((1, 2, 1, 1), ["dark", "dark", "dark"], "add", ()),
    ((2, 0, 1, 1), [], "list", (NT,)),
    ("default", ["dark", (0, 0, 0, 0)], "add", (NT,)),
    # of given semi-amplitudes instead of masses
    ((1, 1, 1, 1), ["dark", (1, 0, 1, 1)], "speeds", (NT,)),
]


def bodies(n):
    from hypothesis import strategies as st

    one = st.fixed_dictionaries(dict(
        period=loguni(0.5, 50.0), t0=sym(3.0), impact=st.one_of(uni(0, 1.2), uni(0, 0.9), st.just(0.0)), mass=loguni(1e-4, 0.5),
        radius=st.one_of(uni(0.05, 0.6), uni(0.05, 0.6), uni(0.6, 3.0)), ecc=st.one_of(st.just(0.0), uni(0, 0.5)), omega=sym(math.pi), node=sym(3.0)))
    return st.lists(one, min_size=n, max_size=n)


def system(cfg, a):
    """The system, bodies given in the order of `a`, through one of the ways there are."""
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody
    from jaxoplanet.starry.orbit import SurfaceBody, SurfaceSystem
    from jaxoplanet.starry.surface import Surface

    central, kinds, how, _ = cfg
    C = Central(mass=a["M"], radius=a["R"])

    def surface(k, s):
        return build(k, s, True, period=s["period"], phase=s["phase"], radius=s["radius"])

    def body(b, cls=Body, **kw):
        of = dict(radial_velocity_semiamplitude=b["K"]) if how == "speeds" else dict(mass=b["mass"])
        return cls(period=b["period"], time_transit=b["t0"], impact_param=b["impact"], **of, radius=b["radius"],
                   eccentricity=b["ecc"], omega_peri=b["omega"], asc_node=b["node"], **kw)

    cs = None if central == "default" else surface(central, a["cs"])
    each = [(b, None if k == "dark" else surface(k, s)) for k, b, s in zip(kinds, a["bodies"], a["bs"])]
    # a surface of the body's own gives way to the one it is added with
    own = dict(cls=SurfaceBody, surface=Surface(amplitude=7.0, normalize=False))
    if how in ("list", "speeds"):
        return SurfaceSystem(C, cs, bodies=[(body(b, **(own if s is not None and i == 0 else {})), s) for i, (b, s) in enumerate(each)])
    if how == "body":
        return SurfaceSystem(C, cs, bodies=[(body(b, SurfaceBody, surface=s), None) for b, s in each])
    S = SurfaceSystem(C, cs)
    for i, (b, s) in enumerate(each):
        if how == "add":
            S = S.add_body(body(b, **(own if s is not None else {})), surface=s)
        elif i == 0:
            S = S.add_body(body(b, SurfaceBody, surface=s))
        elif i == 1:
            S = SurfaceSystem(C, cs, bodies=[*zip(S.bodies, S.body_surfaces), (OrbitalBody(C, body(b)), s)])
        else:
            S = S.add_body(surface=s, period=b["period"], time_transit=b["t0"], impact_param=b["impact"], mass=b["mass"],
                           radius=b["radius"], eccentricity=b["ecc"], omega_peri=b["omega"], asc_node=b["node"])
    return S


def strategy(cfgs):
    from hypothesis import strategies as st

    def of(i):
        central, kinds, how, _ = CONFIGS[i]
        uniform = (0, 0, 0, 0)
        n = len(kinds)
        return st.fixed_dictionaries(dict(
            config=st.just(i), M=uni(0.3, 3.0), R=uni(0.3, 2.0), cs=surfaces([uniform if isinstance(central, str) else central]),
            bodies=bodies(n), bs=st.tuples(*[surfaces([uniform if k == "dark" else k]) for k in kinds]).map(list),
            times=st.lists(st.tuples(ints(0, 99), st.sampled_from([0, 0, 0, 1, 1, 2]), sym(1.0), ints(-3, 3)), min_size=1, max_size=NT)))

    return st.sampled_from(cfgs).flatmap(of)


def prepare(case):
    """(config, argument of `system`, times, orbits)"""
    cfg = CONFIGS[case["config"]]
    orbits, bs = [], []
    for b in case["bodies"]:
        b = dict(b, radius=b["radius"] * case["R"], impact=min(b["impact"], 1.2), K=30.0 * b["mass"])
        if cfg[2] == "speeds":
            b["mass"] = 0.0
        aa = (O.G * (case["M"] + b["mass"]) * b["period"] ** 2 / (4 * math.pi**2)) ** (1 / 3)
        reach = aa * (1 - b["ecc"] ** 2) / (1 + b["ecc"] * math.sin(b["omega"])) / case["R"]
        b["impact"] = min(b["impact"], 0.9 * reach)
        orbits.append(O.Orbit(dict(mass=case["M"], radius=case["R"]),
                              dict(mass=b["mass"], period=b["period"], t_transit=b["t0"], impact=b["impact"], ecc=b["ecc"], omega=b["omega"], Omega=b["node"])))
        bs.append(b)
    t = []
    for which, near, x, turn in case["times"]:
        if not orbits:
            t.append(10 * x)
            continue
        o, b = orbits[which % len(orbits)], bs[which % len(orbits)]
        dur = min(0.3, (case["R"] + b["radius"]) / (o.a * math.pi)) * o.P
        t0 = o.t0
        if near == 1:  # behind the central: true anomaly turned by pi
            f = 1.5 * math.pi - o.w
            E = math.atan2(math.sqrt(1 - o.e**2) * math.sin(f), o.e + math.cos(f))
            t0 = o.tp + (E - o.e * math.sin(E)) / o.n
        t.append(t0 + turn * o.P + (0.7 * x * dur if near < 2 else x * o.P))
    t = pad(np.array(t)[:, None], NT)[:, 0]
    shape = cfg[3]
    t = t[0] if shape == () else t.reshape(shape)
    a = dict(M=case["M"], R=case["R"], cs=args(case["cs"]), bodies=bs, bs=[args(s) for s in case["bs"]])
    return cfg, a, t, orbits, bs


def make(what, cfgs):
    def maker(prec):
        import jax

        fns = {}

        def get(i):
            if i not in fns:
                def f(a, t):
                    S = system(CONFIGS[i], a)
                    if what == "flux":
                        from jaxoplanet.starry.light_curves import light_curve
                        return light_curve(S)(t)
                    if what == "rv":
                        from jaxoplanet.starry.doppler import radial_velocity
                        return radial_velocity(S)(t)
                    from jaxoplanet.light_curves.emission import light_curve as emission
                    return emission(S)(t)
                fns[i] = jax.jit(f)
            return fns[i]

        def prop(case, ctx):
            cfg, a, t, orbits, bs = prepare(case)
            central, kinds, how, shape = cfg
            got = np.asarray(get(case["config"])(a, t), float)
            n = len(kinds)
            ctx.true("shape of the result", got.shape == shape + (n + 1,), f"{got.shape} for times {shape} and {n} bodies")
            got = got.reshape(-1, n + 1)
            tt = np.atleast_1d(t).reshape(-1)
            pos = [o.relative(tt) for o in orbits]
            dpos = [1e-11 * o.a * (1 + np.abs(o.n * (tt - o.tp))) * (1 + o.e) ** 2 / (1 - o.e) ** 3 for o in orbits]
            plain = dict(kind=(0, 0, 0, 0), y0=1.0, y=[], u=[], inc=0.0, obl=0.0, amplitude=1.0, period=None, phase=0.0, radius=1.0)

            def surf(k, s):
                if k == "default":
                    return plain
                if what != "emission":
                    return dict(s)
                # the emission model knows uniform surfaces of a given amplitude (that of the map)
                return dict(s, kind=(0, k[1], k[2], k[3]), y0=s["y0"], y=[])

            def observe(s, j, occ, tol_pos):
                """Value and tolerance for one surface and the given occultors (x, y, z, r) at time j."""
                turned = 0.0 if s["period"] is None else 2 * math.pi * tt[j] / s["period"] + s["phase"]
                vis, whole, norm = integrals(s, True, turned, occ)
                c = truth(s, True)[0]
                scale = np.abs(c).sum() * (1 + np.abs(s["u"]).sum())
                tol = 3e-6 * scale + sum(tol_pos) * 3 * scale + 1e-10 * scale * (1 + abs(turned)) * 10
                if what != "rv":
                    return norm * (whole - sum(whole - v for v in vis)), tol * norm
                if sum(abs(whole - v) > 0 for v in vis) > 1:
                    return None, 0.0
                if s["period"] is None:
                    return 0.0, 1e-12
                m, mw, _ = integrals(s, True, turned, occ, velocity)
                gone = any(z > 0 and math.hypot(x, y) <= r - 1 for x, y, z, r in occ)
                if gone:
                    near = any(z > 0 and abs(math.hypot(x, y) - (r - 1)) < 1e-6 * r + 2 * sum(tol_pos) for x, y, z, r in occ)
                    return (None, 0.0) if near else (0.0, 1e-12)
                num, den = mw - sum(mw - v for v in m), whole - sum(whole - v for v in vis)
                if abs(den) < 300 * tol:
                    return None, 0.0
                veq = 2 * math.pi * s["radius"] / s["period"]
                return veq * num / den, veq * tol / abs(den) * (1 + abs(num / den))

            hit = 0
            for j in range(len(tt)):
                info = f"time {tt[j]!r} configuration {case['config']} bodies given as {how}"
                # central, with every body as an occultor
                occ = [[*(p[:, j] / case["R"]), b["radius"] / case["R"]] for p, b in zip(pos, bs)]
                hit += any(q[2] > 0 and abs(1 - q[3]) < math.hypot(q[0], q[1]) < 1 + q[3] for q in occ)
                want, tol = observe(surf(central, case["cs"]), j, occ, [d[j] / case["R"] for d in dpos])
                if what == "rv" and want is not None:
                    for o, b in zip(orbits, bs):
                        if how == "speeds":
                            v, top = o.rv(tt[j : j + 1], b["K"])[0], b["K"]
                        else:
                            v = o.relative_velocity(tt[j : j + 1])[2, 0] * b["mass"] / (case["M"] + b["mass"])
                            top = o.n * o.a * b["mass"] / (case["M"] + b["mass"])
                        want += v
                        tol += 1e-8 * top * (1 + abs(o.n * (tt[j] - o.tp))) / (1 - o.e) ** 4
                if want is not None:
                    ctx.close(f"{what} of the central", got[j, 0], want, tol, info=info)
                for i, (k, s, p, b) in enumerate(zip(kinds, case["bs"], pos, bs)):
                    if k == "dark":
                        ctx.close(f"{what} of a body without surface", got[j, i + 1], 0.0, 0.0, info=info)
                        continue
                    q = [*(-p[:, j] / b["radius"]), case["R"] / b["radius"]]
                    hit += q[2] > 0 and abs(1 - q[3]) < math.hypot(q[0], q[1]) < 1 + q[3]
                    ctx.label("body hidden", q[2] > 0 and math.hypot(q[0], q[1]) <= q[3] - 1)
                    want, tol = observe(surf(k, s), j, [q], [dpos[i][j] / b["radius"]])
                    if want is not None:
                        ctx.close(f"{what} of a body", got[j, i + 1], want, tol, info=f"body {i}: {info}")
            ctx.label(f"{n} bodies")
            ctx.label(how)
            ctx.nt(hit > 0 or (not kinds and what != "emission"))

        return strategy(cfgs), prop

    return maker


register("C22",
         Sub("flux", make("flux", [0, 1, 2, 3, 4, 5]), quick=150, thorough=3000, shards=3, tshards=7, rule="a body partly hides the central or the reverse"),
         Sub("rv", make("rv", [0, 1, 2, 3, 4, 5, 6]), quick=130, thorough=2500, shards=3, tshards=7, rule="a body partly hides the central or the reverse"),
         Sub("emission", make("emission", [0, 1, 2, 3, 5]), quick=150, thorough=3000, shards=2, tshards=6, rule="a body partly hides the central or the reverse"))
