"""C17: rotations of maps."""
import math

import numpy as np

from ..core import Sub, angle, ints, lists, loguni, pad, register, sym, uni
from ..oracles import sph

ASSUMPTIONS = ["oracle: the rotated function is sampled on a spherical quadrature grid and projected back (~1e-14)"]
NB = 6
FAST = (1, 3)
ROTAR = (0, 1, 2, 4)  # the second implementation of the matrices takes long to compile


def coeff_lists(n):
    """n^2 coefficients: dense, or a single one (so that each element of the matrices shows)."""
    from hypothesis import strategies as st

    one = st.tuples(ints(0, n - 1), st.sampled_from([1.0, -1.0])).map(lambda t: [t[1] * (i == t[0]) for i in range(n)])
    return st.one_of(st.lists(sym(1.0), min_size=n, max_size=n), one)


def angles(special=True):
    from hypothesis import strategies as st

    sp = st.sampled_from([0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi])
    return st.one_of(sym(math.pi), sym(math.pi), sym(7.0), sp, loguni(1e-9, 0.1), loguni(1e-9, 0.1).map(lambda d: math.pi - d))


def axes():
    from hypothesis import strategies as st

    gen = st.tuples(sym(1.0), sym(1.0), sym(1.0)).filter(lambda v: v[0] ** 2 + v[1] ** 2 + v[2] ** 2 > 1e-3)
    unit = st.sampled_from([(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (-1.0, 0.0, 0.0), (0.0, -2.0, 0.0),
                            (1.0, 1.0, 0.0), (0.0, 1.0, -1.0)])
    near = st.tuples(loguni(1e-9, 0.1), sym(math.pi), st.sampled_from([1.0, -1.0])).map(
        lambda t: (t[0] * math.cos(t[1]), t[0] * math.sin(t[1]), t[2]))
    return st.one_of(gen, gen, unit, near)


def tol_rot(L, R, eps):
    """Rounding of the Euler angles: near the poles they are recovered from differences of size
    sin(beta), and the smallest beta that is told from zero is about sqrt(eps)."""
    sb = math.hypot(R[0, 2], R[1, 2])
    loss = min(4 / max(sb, 1e-300), 4 / math.sqrt(eps)) if sb > 0 else 100.0
    return 10 * eps * (1 + L) ** 2 * (1 + loss)


def make_axis(prec):
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.starry.core import rotation as rn

    fns = {}

    def get(L):
        if L not in fns:
            def both(x, y, z, t, c):
                M = jnp.stack([c, 2.0 * c])
                a = rn.dot_rotation_matrix(L, x, y, z, t)(M)
                if L not in ROTAR:
                    return a, jnp.zeros(c.shape)
                Rs = rn.compute_rotation_matrices(L, x, y, z, t)
                b = jnp.concatenate([c[l * l:(l + 1) ** 2] @ Rs[l] for l in range(L + 1)])
                return a, b
            fns[L] = jax.jit(jax.vmap(both))
        return fns[L]

    def prop(case, ctx):
        L = case["deg"]
        n = (L + 1) ** 2
        dt = np.float64 if ctx.f64 else np.float32
        rows = pad([[*a, t] for a, t in case["rot"]], NB).astype(dt)
        c = np.array(case["coeffs"][:n]).astype(dt)
        a, b = get(L)(rows[:, 0], rows[:, 1], rows[:, 2], rows[:, 3], np.repeat(c[None], NB, 0))
        a, b = np.asarray(a, float), np.asarray(b, float)
        c = c.astype(float)
        for i in range(len(case["rot"])):
            ax, th = rows[i, :3].astype(float), float(rows[i, 3])
            R = sph.rot(ax, -th)
            want = sph.rotate_coeffs(c, R)
            tol = tol_rot(L, R, ctx.eps) * np.linalg.norm(c)
            info = f"axis {tuple(ax)} angle {th!r} degree {L}"
            ctx.close("rotated map", a[i, 0], want, tol, info=info)
            ctx.close("batched maps", a[i, 1], 2 * want, 2 * tol, info=info)
            if L in ROTAR:
                ctx.close("rotation matrices", b[i], want, tol, info=info)
            ctx.label("about the line of sight", ax[0] == 0 and ax[1] == 0)
            ctx.label("half turn", abs(abs(th) - math.pi) < 1e-6)
            ctx.label("no turn", th == 0)
            ctx.nt(th != 0 and L > 0)
        ctx.label(f"deg{L}")

    degs = (0, 1, 2, 3, 4, 6, 10) if prec == "f64" else (1, 2, 4)
    nmax = (degs[-1] + 1) ** 2
    strat = st.sampled_from(degs).flatmap(lambda L: st.fixed_dictionaries(dict(
        deg=st.just(L), rot=lists(st.tuples(axes(), angles()), NB), coeffs=coeff_lists((L + 1) ** 2))))
    return strat, prop


def make_project(prec):
    import jax
    from hypothesis import strategies as st
    from jaxoplanet.starry.core import rotation as rn

    fns = {}

    def get(L, pat):
        if (L, pat) not in fns:
            def f(a, c):
                v = [a[i] if on else None for i, on in enumerate(pat)]
                fast = rn.fast_direct_left_project(L, *v, c) if L in FAST else c
                return rn.left_project(L, *v, c), rn.right_project(L, *v, c), rn.full_rotation_axis_angle(*v), fast
            fns[L, pat] = jax.jit(jax.vmap(f, in_axes=(0, None)))
        return fns[L, pat]

    def prop(case, ctx):
        L, pat = case["deg"], tuple(case["given"])
        n = (L + 1) ** 2
        rows = pad(case["angles"], NB)
        c = np.array(case["coeffs"])
        l, r, (x, y, z, t), fast = get(L, pat)(rows, c)
        l, r = np.asarray(l, float), np.asarray(r, float)
        for i in range(len(case["angles"])):
            inc, obl, th, tz = (v if on else 0.0 for v, on in zip(rows[i], pat))
            O = sph.orientation(inc, obl, th)
            Q = sph.rot([0, 0, 1], tz) @ O
            # precision lost in each of the elementary rotations
            Rx = sph.rot([1, 0, 0], math.pi / 2 - inc)
            tilt = sph.rot([0, 0, 1], obl) @ sph.rot([1, 0, 0], -inc)
            # inclination and obliquity make one rotation, its angle comes from an arccosine
            half = math.sqrt(max(0.0, 1 - (math.cos(inc / 2) * math.cos(obl / 2)) ** 2))
            small = 40 * ctx.eps * (1 + L) / max(half, math.sqrt(ctx.eps))
            tol = (small + tol_rot(L, tilt, ctx.eps) + tol_rot(L, sph.rot([1, 0, 0], math.pi / 2), ctx.eps)) * np.linalg.norm(c)
            info = f"inc, obl, theta, theta_z = {[float(v) if on else None for v, on in zip(rows[i], pat)]} degree {L}"
            ctx.close("projected map", l[i], sph.rotate_coeffs(c, Q), tol, info=info)
            ctx.close("transposed projection", r[i], sph.rotate_coeffs(c, Q.T), tol, info=info)
            # the angle comes from an arccosine: sqrt(eps) when it is small or next to a full turn
            got = np.array([float(v) for v in (x[i], y[i], z[i], t[i])])
            ctx.true("axis of the full rotation", np.isfinite(got), f"{got} {info}")
            ang = got[3]
            ctx.close("axis and angle of the full rotation", sph.rot(got[:3] if np.any(got[:3]) else [1, 0, 0], ang), Q, 3e-7, info=info)
            if L in FAST and 1e-4 < math.hypot(Q[0, 2], Q[1, 2]) and 1e-4 < ang < 2 * math.pi - 1e-4:
                ctx.close("projection by a single rotation", np.asarray(fast, float)[i], sph.rotate_coeffs(c, Q), 1e-7, info=info)
                ctx.label("single rotation")
            ctx.label("every angle", all(pat))
            ctx.label("seen from the pole", inc == 0)
            ctx.label("edge on", abs(inc - math.pi / 2) < 1e-12)
            ctx.nt(L > 0 and sum(v != 0 for v in (inc, obl, th, tz)) >= 2)
        ctx.label("None given", not all(pat))

    pats = st.sampled_from([(False, True, True, True), (False, True, False, False), (True, False, True, True),
                                              (True, False, True, False), (False, False, True, True), (True, True, False, True),
                                              (True, True, True, False), (False, True, True, False), (False, False, False, False)])
    inc = st.one_of(uni(0, math.pi), angles())
    tiny = st.one_of(st.just(0.0), loguni(1e-9, 0.3), loguni(1e-9, 0.3).map(lambda d: -d))
    rows = st.one_of(st.tuples(inc, angles(), angles(), angles()), st.tuples(inc, angles(), angles(), angles()),
                     st.tuples(tiny.map(lambda d: math.pi / 2 + d), tiny, tiny, tiny))
    kind = st.one_of(st.tuples(st.sampled_from((1, 2, 3, 6)), st.just((True,) * 4)), st.tuples(st.just(2), pats))
    strat = kind.flatmap(lambda k: st.fixed_dictionaries(dict(
        deg=st.just(k[0]), given=st.just(k[1]), angles=lists(rows.map(list), NB),
        coeffs=coeff_lists((k[0] + 1) ** 2))))
    return strat, prop


register("C17",
         Sub("axis", make_axis, prec=("f64", "f32"), quick=200, thorough=6000, shards=4, tshards=4, f32_scale=0.4, rule="a proper rotation of a map that is not uniform"),
         Sub("project", make_project, quick=120, thorough=5000, shards=4, tshards=4, rule="at least two angles not zero"))
