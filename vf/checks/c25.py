"""C25: the arbitrary-precision reference implementation (values, tables, independence of what was computed before)."""
import contextlib
import io
import math

import numpy as np

from ..core import Reject, Sub, ints, lists, loguni, register, sym, uni
from ..oracles import disc, sph
from .c15 import geometry
from .c17 import angles, axes, coeff_lists
from .c19 import surfaces
from .c20 import integrals

ASSUMPTIONS = ["oracle: the quadratures and rotations of C15, C17 and C20 (about 1e-10), to which the results are rounded"]
KINDS = [(0, 0, 1, 1), (0, 2, 1, 1), (1, 0, 1, 1), (1, 2, 1, 1), (2, 0, 1, 1), (2, 1, 1, 1), (3, 0, 1, 1), (0, 4, 1, 1), (3, 1, 1, 1)]


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def make_flux(prec):
    from collections import defaultdict

    from hypothesis import strategies as st
    from jaxoplanet.starry.multiprecision import flux

    def new():
        return defaultdict(lambda: {"R_obl": {}, "R_inc": {}, "sT": {}})

    shared = new()
    ages = {}

    def prop(case, ctx):
        """A history of evaluations: each has the value of the integral, whatever was evaluated before."""
        pool = case["surfaces"]
        made, seen = {}, {}
        for i, (which, c, (b, r), neg, theta, rotate) in enumerate(case["calls"]):
            s = pool[which % len(pool)]
            ky, ku = s["kind"][:2]
            y = np.array([s["y0"]] + s["y"]) if ky else np.ones(1)
            s = dict(s, y0=float(y[0]), amplitude=1.0)
            key = (which % len(pool), c)
            if key not in made or c == "fresh":
                cache = {"default": None, "shared": shared, "fresh": new()}[c]
                made[key] = quiet(flux.flux, ydeg=ky, udeg=ku, inc=s["inc"], obl=s["obl"], cache=cache)
            f = made[key]
            info = f"call {i}: b={b!r} r={r!r} theta={theta!r} kind {s['kind']} inc {s['inc']!r} obl {s['obl']!r} cache {c} rotate {rotate}"
            if rotate or not ky:
                sb = -b if neg else b
                got = f(sb, r, y=y, phi=theta, u=s["u"])
                vis, _, norm = integrals(s, False, theta, [[0.0, sb, 1.0, r]])
            else:
                # the map of the sky itself: polar, unturned
                got = f(b, r, y=y, u=s["u"], rotate=False)
                at = dict(s, inc=math.pi / 2, obl=0.0)
                vis, _, norm = integrals(at, False, 0.0, [[0.0, b, 1.0, r]])
            got = float(got)
            scale = norm * np.abs(y).sum() * (1 + np.abs(s["u"]).sum())
            # contacts: the quadrature of the oracle itself
            ctx.close("flux", got, vis[0] * norm, 2e-9 * scale, info=info)
            same = (which % len(pool), b, r, neg, theta, rotate)
            if same in seen:
                ctx.true("the value does not depend on earlier evaluations", abs(seen[same] - got) <= 1e-14 * scale, f"{seen[same]!r} then {got!r}; {info}")
                ctx.label("evaluated again")
            seen[same] = got
            part = abs(1 - r) < b < 1 + r
            ctx.label("partial", part)
            ctx.label("hidden", b <= r - 1)
            ctx.label("no occultation", b >= 1 + r)
            ctx.label("without rotation", not rotate)
            ctx.nt(part and i > 0)
        ctx.label("several surfaces", len(pool) > 1)

    call = st.tuples(ints(0, 3), st.sampled_from(["default", "shared", "fresh"]), geometry(), st.booleans(), angles(), st.sampled_from([True, True, True, False]))

    def again(calls):
        # come back to earlier evaluations, with other caches
        return calls + [(w, {"default": "shared", "shared": "fresh", "fresh": "default"}[c], *rest) for w, c, *rest in calls[:2]]

    strat = st.fixed_dictionaries(dict(
        surfaces=st.lists(surfaces(KINDS), min_size=1, max_size=3),
        calls=st.lists(call, min_size=2, max_size=5).map(again)))
    return strat, prop


def make_tables(prec):
    from hypothesis import strategies as st
    from jaxoplanet.starry.multiprecision import basis, mp, rotation, solution, utils

    def to(x):
        return np.array(utils.to_numpy(x), float)

    def vec(c):
        return mp.matrix([mp.mpf(float(v)) for v in c])

    def prop(case, ctx):
        deg, (b, r) = case["deg"], case["geometry"]
        N = (deg + 1) ** 2
        c = np.array(case["coeffs"][:N])
        size = np.abs(c).sum() + 1e-300
        # spherical harmonics, polynomials, Green's basis
        A1 = to(quiet(basis.A1, deg)).reshape(N, N)
        want = sph.A1(deg)
        ctx.close("spherical harmonics in the polynomial basis", A1, want, 3e-14 * np.abs(want).max(0)[None, :])
        A2 = quiet(basis.A2, deg)
        ctx.close("Green's basis and back", to(A2 @ basis.A2_inv(deg)).reshape(N, N), np.eye(N), 1e-20)
        ctx.close("disc integrals", to(solution.rT(deg)).reshape(N), [disc.poly_integral(*sph.ptilde(n)) for n in range(N)], 1e-14)
        part = abs(1 - r) < b < 1 + r
        if b < 1 + r and b > r - 1:
            h = disc.hidden_nodes(b, r)
            vis = np.array([disc.poly_integral(*sph.ptilde(n)) for n in range(N)]) - sph.eval_poly(N, *h[:3]) @ h[3]
            got = to(solution.sT(deg, mp.mpf(b), mp.mpf(r)).T @ A2).reshape(N)
            ctx.close("visible integrals of the polynomial basis", got, vis, 2e-9, info=f"b={b!r} r={r!r} degree {deg}")
            mu = h[2]
            s = to(solution.solution_limb_dark(case["udeg"], mp.mpf(b), mp.mpf(r))).reshape(-1)
            for n in range(case["udeg"] + 1):
                # Green's limb darkening basis: 1, z, then (n + 2) z^n - n z^(n - 2)
                p = (lambda z: z**n) if n < 2 else (lambda z, n=n: (n + 2) * z**n - n * z ** (n - 2))
                tot = [math.pi, 2 * math.pi / 3][n] if n < 2 else 0.0
                ctx.close(f"limb darkening integral {n}", s[n], tot - p(mu) @ h[3], 1e-8 * (1 + n), info=f"b={b!r} r={r!r}")
        # rotations
        ax, th = np.array(case["axis"], float), case["angle"]
        if np.any(ax):
            got = to(rotation.dot_rotation_matrix(deg, tuple(mp.mpf(float(v)) for v in ax), mp.mpf(th))(vec(c))).reshape(N)
            ctx.close("rotated map", got, sph.rotate_coeffs(c, sph.rot(ax, -th)), 1e-11 * size, info=f"axis {ax.tolist()} angle {th!r} degree {deg}")
        got = to(rotation.dot_rz(deg, mp.mpf(th))(vec(c))).reshape(N)
        ctx.close("map rotated about the line of sight", got, sph.rotate_coeffs(c, sph.rot([0, 0, 1], th)), 1e-11 * size, info=f"angle {th!r}")
        inc, obl, theta, tz = case["angles"]
        got = to(rotation.left_project(deg, mp.mpf(inc), mp.mpf(obl), mp.mpf(theta), mp.mpf(tz), vec(c))).reshape(N)
        Q = sph.rot([0, 0, 1], tz) @ sph.orientation(inc, obl, theta)
        ctx.close("projected map", got, sph.rotate_coeffs(c, Q), 1e-11 * size, info=f"inc, obl, theta, theta_z = {case['angles']}")
        # conversions
        m = c.reshape(deg + 1, deg + 1)
        back = to(utils.to_mp(m)).reshape(m.shape)
        ctx.true("round trip through multiprecision", np.array_equal(back, m), f"{m.tolist()}")
        d = utils.diff_mp(utils.to_mp(m), 0.5 * m)
        ctx.close("difference of matrices", np.asarray(d).reshape(m.shape), 0.5 * m, 0)
        ctx.label("partial", part)
        ctx.label(f"deg{deg}")
        ctx.nt(part and deg > 0)

    strat = st.sampled_from((0, 1, 2, 3, 4)).flatmap(lambda L: st.fixed_dictionaries(dict(
        deg=st.just(L), udeg=ints(0, 5), geometry=geometry(), coeffs=coeff_lists((L + 1) ** 2), axis=axes(), angle=angles(),
        angles=st.lists(angles(), min_size=4, max_size=4))))
    return strat, prop


def make_estimate(prec):
    from hypothesis import strategies as st
    from jaxoplanet.starry.multiprecision import precision

    def prop(case, ctx):
        """The estimated error of the light curves is the error: small, as C03 and C20 require."""
        r, b = case["r"], case["b"]
        y, u = case["kind"]
        got = quiet(precision.starry_light_curve, y, u, r, case["order"], b)
        ctx.close("estimated error of the map light curve", got, 0.0, 2e-5 * (y + 1) ** 2 * (1 + u), info=f"{case}")
        if u:
            got = quiet(precision.limb_dark_light_curve, u, r, case["order"], b)
            ctx.close("estimated error of the limb darkened light curve", got, 0.0, 2e-5 * (1 + u), info=f"{case}")
        ctx.label("default position", b is None)
        ctx.nt(b is None or abs(1 - r) < b < 1 + r)

    strat = st.fixed_dictionaries(dict(kind=st.sampled_from([(1, 0), (0, 2), (2, 1)]), order=st.sampled_from([30, 60]), r=st.one_of(uni(0.05, 0.95), uni(1.05, 2.0)),
                                       b=st.one_of(st.none(), uni(0.01, 1.5))))
    return strat, prop


def make_digits(prec):
    """Results have the digits asked for with mp.dps, in any order of precisions."""
    from hypothesis import strategies as st
    from jaxoplanet.starry.multiprecision import basis, flux, mp, rotation, solution

    from ..oracles import mpdisc as D

    def given(a):
        """The arguments, at the digits of the case: those of the reference are the same numbers."""
        return [mp.mpf(v) for v in a["geometry"]], [mp.mpf(v) / 3 if a["thirds"] else mp.mpf(v) for v in a["angles"]]

    def value(what, a):
        """[(computed, expected)] of one call."""
        deg, u = a["deg"], a["u"]
        N = (deg + 1) ** 2
        (b, r), ang = given(a)
        c = a["coeffs"][:N]
        powers = [D.sph.ptilde(n) for n in range(N)]
        if what == "basis":
            more = deg + len(u) + 3
            A1, r0 = quiet(basis.A1, deg), solution.rT(more)
            out = [(A1[i, n], D.ylm(n).get(powers[i], 0)) for n in range(N) for i in range(N)]
            return out + [(r0[i], D.disc({D.sph.ptilde(i): D.M.mpf(1)})) for i in range((more + 1) ** 2)]
        if what == "solution":
            x = solution.sT(deg, b, r).T @ quiet(basis.A2, deg)
            out = [(x[i], D.visible({powers[i]: D.M.mpf(1)}, b, r)) for i in range(N)]
            s = solution.solution_limb_dark(len(u) + 1, b, r)
            for n in range(len(u) + 2):
                p = D.limb_powers(n) if n < 2 else D.add(D.add({}, D.limb_powers(n), n + 2), D.limb_powers(n - 2), -n)
                out.append((s[n], D.visible(p, b, r)))
            return out
        if what == "rotation":
            v = mp.matrix([mp.mpf(x) for x in c])
            ax = tuple(mp.mpf(float(x)) for x in a["axis"])
            inc = ang[1] if a["inc"] else mp.pi / 2
            f = D.function(c)
            out = []
            jobs = [(rotation.dot_rz(deg, ang[0])(v), D.rot([0, 0, 1], ang[0])),
                    (rotation.left_project(deg, inc, ang[2], ang[0], ang[3], v), D.mul(D.rot([0, 0, 1], ang[3]), D.orientation(ang[1] if a["inc"] else D.PI / 2, ang[2], ang[0])))]
            if any(ax):
                jobs.append((rotation.dot_rotation_matrix(deg, ax, ang[0])(v), D.rot(ax, -D.num(ang[0]))))
            for got, Q in jobs:
                g, w = D.function(list(got)), D.turned(f, Q)
                out += [(g.get(k, 0), w.get(k, 0)) for k in set(g) | set(w)]
            return out
        y = np.array([1.0] + c[1:])
        kw = dict(inc=ang[1], obl=ang[2]) if a["inc"] else {}
        f = quiet(flux.flux, ydeg=deg, udeg=len(u), **kw)
        args = dict(u=u, phi=ang[0] if a["turned"] else 0.0, **(dict(y=y) if deg else {}))
        ld = D.limb_darkening(u)
        p = D.turned(D.function(y), D.orientation(ang[1] if a["inc"] else D.PI / 2, ang[2] if a["inc"] else 0, args["phi"]))
        p = {k: v * D.PI / D.disc(ld) for k, v in D.times(p, ld).items()}
        return [(quiet(f, b, r, **args), D.visible(p, b, r)), (quiet(f, 1 + r + 1, r, **args), D.disc(p))]

    def prop(case, ctx):
        try:
            for i, (what, dps, j) in enumerate(case["calls"]):
                a = case["pool"][j % len(case["pool"])]
                mp.dps = dps
                pairs = value(what, a)
                ctx.true("the digits asked for are left as they are", mp.dps == dps, f"{mp.dps} instead of {dps} after {what}")
                size = 1 + max(abs(D.num(w)) for _, w in pairs)
                err = max(abs(D.num(g) - D.num(w)) for g, w in pairs)
                # the digits lost to cancellation between large powers of the radius
                tol = D.M.mpf(10) ** (5 - dps) * size * max(1.0, 2 * a["geometry"][1]) ** (2 * (a["deg"] + len(a["u"])) + 4)
                before = [d for w, d, _ in case["calls"][:i]]
                ctx.worst[what] = max(ctx.worst.get(what, 0.0), float(err / tol))
                ctx.true(f"{what}: correct to the {dps} digits asked for", err <= tol, f"error {D.M.nstr(err, 3)} after calls at {before} digits; {a}")
                ctx.label(what)
                ctx.nt(len(set(before + [dps])) > 1)
        finally:
            mp.dps = 30

    def place(t):
        r, x, inside = t
        lo = abs(1 - r)
        b = (x * 0.9 * lo if inside and r < 1 else lo + (0.1 + 0.8 * x) * (1 + r - lo))
        return (b if abs(b - r) > 0.05 else b + (0.06 if b < r else 0.0) - (0.11 if b < r else -0.06), r)

    one = st.sampled_from((0, 1, 2, 2, 3)).flatmap(lambda L: st.fixed_dictionaries(dict(
        deg=st.just(L), geometry=st.tuples(st.one_of(uni(0.1, 0.8), uni(1.2, 2.0)), uni(0, 1), st.booleans()).map(place), u=st.lists(sym(0.5), max_size=3 if L < 2 else 1),
        coeffs=coeff_lists((L + 1) ** 2), axis=axes(), angles=st.lists(st.one_of(angles(), loguni(1e-17, 1e-9), st.just(0.0)), min_size=4, max_size=4),
        inc=st.booleans(), turned=st.booleans(), thirds=st.booleans())))
    call = st.tuples(st.sampled_from(["basis", "solution", "rotation", "flux", "flux", "rotation"]), st.sampled_from([15, 30, 30, 45]), ints(0, 1))
    return st.fixed_dictionaries(dict(pool=st.lists(one, min_size=1, max_size=2), calls=st.lists(call, min_size=2, max_size=5))), prop


register("C25",
         Sub("digits", make_digits, quick=60, thorough=1200, shards=2, tshards=6, rule="calls at different precisions"),
         Sub("flux", make_flux, quick=130, thorough=1500, shards=3, tshards=7, rule="a partial occultation evaluated after other evaluations"),
         Sub("tables", make_tables, quick=130, thorough=1500, shards=3, tshards=7, rule="partial occultation, degree at least 1"),
         Sub("estimate", make_estimate, quick=16, thorough=150, shards=1, tshards=2, rule="partial occultation"))
