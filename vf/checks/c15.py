"""C15: basis tables and the occulted integrals of the polynomial basis."""
import math

import numpy as np

from ..core import Sub, ints, lists, loguni, pad, register, sym, uni
from ..oracles import disc, sph

ASSUMPTIONS = ["oracle: exact rational spherical-harmonic polynomials, closed-form disc integrals, and "
               "star-centred Gauss quadrature of the hidden part of the disc (~1e-11)"]
NPT = 6
NB = 8


def unit_vec():
    """A point of the sphere: anywhere, poles, limb, axes."""
    from hypothesis import strategies as st

    gen = st.tuples(uni(-1, 1), uni(-math.pi, math.pi)).map(
        lambda t: [math.sqrt(max(0, 1 - t[0] ** 2)) * math.cos(t[1]), math.sqrt(max(0, 1 - t[0] ** 2)) * math.sin(t[1]), t[0]])
    return st.one_of(gen, gen, st.sampled_from(
        [[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]]))


def make_tables(prec):
    import jax
    from hypothesis import strategies as st
    from jaxoplanet.starry.core import basis, solution

    jits = {}
    cols = {}

    def a1(deg):
        if deg not in cols:
            cols[deg] = np.asarray(basis.A1(deg).todense(), float).reshape((deg + 1) ** 2, -1)
        return cols[deg]

    def prop(case, ctx):
        deg = case["deg"]
        N = (deg + 1) ** 2
        x, y, z = np.array(pad(case["points"], NPT)).T
        P = sph.eval_poly(N, x, y, z)
        # spherical harmonics in polynomials
        A1 = a1(deg)
        ctx.true("shape of the change of basis matrix", A1.shape == (N, N), A1.shape)
        want = sph.A1(deg)
        top = np.abs(want).max(0)
        ctx.close("spherical harmonics in the polynomial basis", A1, want, 3e-14 * top[None, :])
        # the monomials cancel: rounding grows with the size of the terms
        ctx.close("values of the spherical harmonics", A1.T @ P, (2 / math.sqrt(math.pi)) * sph.eval_ylm(deg, x, y, z),
                  1e-13 * (1 + top[:, None] * np.abs(P).sum(0)))
        # powers of the basis
        for n in (N - 1, case["n"] % N):
            ctx.true("powers of the polynomial basis", tuple(int(v) for v in basis.ptilde(n)) == sph.ptilde(n), f"n={n}")
        # disc integrals
        ctx.close("disc integrals of the polynomial basis", solution.rT(deg), [disc.poly_integral(*sph.ptilde(n)) for n in range(N)], 1e-13)
        # evaluating the basis
        d = min(deg, 8)
        if d not in jits:
            jits[d] = jax.jit(basis.poly_basis(d))
        zz = np.where(case["off"], np.nan, np.abs(z))
        got = np.asarray(jits[d](x, y, zz), float)
        if case["off"]:
            ctx.true("values off the disc are NaN", np.isnan(got), "")
        else:
            ctx.close("values of the polynomial basis", got, sph.eval_poly((d + 1) ** 2, x, y, zz).T, 1e-14)
        # limb darkening
        ud = case["udeg"]
        U = np.asarray(basis.U(ud), float)
        mu = np.abs(z)
        pu = sph.eval_poly((ud + 1) ** 2, x, y, mu)
        u = np.concatenate([[1.0], case["u"][:ud], np.zeros(max(0, ud - len(case["u"])))])
        want = 1 - sum(u[i] * (1 - mu) ** i for i in range(1, ud + 1))
        ctx.true("shape of the limb darkening matrix", U.shape == (ud + 1, (ud + 1) ** 2), U.shape)
        ctx.close("limb darkening profile in the polynomial basis", (u @ U) @ pu, want + 0 * mu, 1e-13 * (1 + np.abs(u) @ np.abs(U) @ np.abs(pu)))
        # Green's basis and back
        if deg <= 10:
            B = np.asarray(basis.basis(deg).todense(), float)
            A2i = np.asarray(basis.A2_inv(deg).todense(), float)
            ctx.close("spherical harmonics in Green's basis", A2i @ B, A1, 1e-12 * (1 + np.abs(A2i) @ np.abs(B)))
        ctx.label(f"deg{deg}")
        ctx.label("off", case["off"])
        ctx.nt(deg >= 2 and ud >= 1)

    strat = st.fixed_dictionaries(dict(
        deg=ints(0, 14), udeg=ints(0, 8), u=st.lists(sym(2.0), min_size=8, max_size=8), n=ints(0, 300),
        points=lists(unit_vec(), NPT), off=st.integers(0, 5).map(lambda k: k == 5)))
    return strat, prop


DEGS = (1, 2, 3, 4, 5, 6, 8, 11)


def geometry():
    from hypothesis import strategies as st

    def out(t):
        r, x, d, k, s = t
        b = [max(0.0, r - 1) + x * (1 + r - max(0.0, r - 1)), abs(1 - r) + s * d, 1 + r + s * d, r, abs(1 - r), 1 + r,
             0.0, x * 1e-6, r + s * d, x * (2 + r)][k]
        return (abs(b), r)

    r = st.one_of(uni(0.01, 1.0), loguni(1e-4, 1.0), uni(0.5, 3.0), loguni(1.0, 100.0), st.sampled_from([0.5, 1.0, 2.0]))
    return st.tuples(r, uni(0, 1), loguni(1e-13, 0.3), st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
                     st.sampled_from([1.0, -1.0])).map(out)


TOL = {20: 8e-7, 60: 6e-9}


def make_occulted(prec):
    from hypothesis import strategies as st
    from jaxoplanet.starry.core import basis, solution

    fns, g2p, full = {}, {}, {}

    def prop(case, ctx):
        deg, order = case["deg"], case["order"]
        N = (deg + 1) ** 2
        if deg not in g2p:
            g2p[deg] = np.asarray(basis.A2_inv(deg).todense(), float)
            full[deg] = np.array([disc.poly_integral(*sph.ptilde(n)) for n in range(N)])
        if (deg, order) not in fns:
            fns[deg, order] = solution.solution_vector(deg, order=order)
        geo = case["geometry"]
        pts = pad(geo, NB)
        sgn = -1.0 if case["negative"] else 1.0
        got = np.asarray(fns[deg, order](sgn * pts[:, 0], pts[:, 1]), float)
        ctx.true("shape of the solution vector", got.shape == (NB, N), got.shape)
        for i, (b, r) in enumerate(geo):
            h = disc.hidden_nodes(b, r)
            want = full[deg] - (sph.eval_poly(N, *h[:3]) @ h[3] if len(h[0]) else 0.0)
            if b >= 1 + r:
                continue  # nothing hidden: not evaluated by the light curve (see C20)
            if b <= r - 1:
                want = np.zeros(N)
            inv = np.linalg.solve(g2p[deg].T, got[i])  # polynomial basis: what the flux is made of
            ctx.close("visible integrals of the polynomial basis", inv, want, TOL[order], info=f"b={b!r} r={r!r} degree {deg} order {order}")
            ctx.label("partial", abs(1 - r) < b < 1 + r)
            ctx.label("contact", min(abs(b - abs(1 - r)), abs(b - 1 - r)) < 1e-6)
            ctx.label("b0", b == 0)
            ctx.nt(abs(1 - r) < b < 1 + r)
        ctx.label(f"deg{deg}")

    strat = st.fixed_dictionaries(dict(
        deg=st.sampled_from(DEGS), order=st.sampled_from([20, 20, 60]), negative=st.booleans(),
        geometry=lists(geometry(), NB)))
    return strat, prop


register("C15",
         Sub("tables", make_tables, quick=300, thorough=6000, shards=3, tshards=4, rule="degree at least 2 with limb darkening"),
         Sub("occulted", make_occulted, quick=300, thorough=9000, shards=5, tshards=8, rule="part of the disc hidden in some geometry"))
