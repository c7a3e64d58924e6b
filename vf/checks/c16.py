"""C16: algebra of maps in the polynomial and spherical harmonic bases."""
import math

import numpy as np

from ..core import Sub, ints, pad, register, sym, uni
from ..oracles import sph

ASSUMPTIONS = ["functions are compared by their values on a spherical grid fine enough to determine them"]


def sparse_coeffs(dmax, signed_m=True):
    """{degree, list of (index, value)} with few or all entries, some exactly zero."""
    from hypothesis import strategies as st

    return st.fixed_dictionaries(dict(
        deg=ints(0, dmax), dense=st.booleans(), keep=st.lists(st.booleans(), min_size=(dmax + 1) ** 2, max_size=(dmax + 1) ** 2),
        vals=st.lists(st.one_of(sym(2.0), sym(2.0), st.sampled_from([0.0, 1.0, -1.0])), min_size=(dmax + 1) ** 2, max_size=(dmax + 1) ** 2)))


def entries(c, need0=False):
    n = (c["deg"] + 1) ** 2
    out = {i: c["vals"][i] for i in range(n) if c["dense"] or c["keep"][i]}
    if need0 and abs(out.get(0, 0)) < 0.05:
        out[0] = 1.0
    if not out:
        out[n - 1] = 1.0
    return out


def make_pijk(prec):
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.starry.core.polynomials import Pijk, polynomial_product_matrix

    def ev(dense, xyz):
        d = np.asarray(dense, float)
        return np.tensordot(d, sph.eval_poly(len(d), *xyz), 1)

    def prop(case, ctx):
        tol = 200 * ctx.eps
        ea, eb = entries(case["a"]), entries(case["b"])
        A = Pijk({sph.ptilde(i): v for i, v in ea.items()})
        B = Pijk({sph.ptilde(i): v for i, v in eb.items()})
        da, db = max(sph.lm(i)[0] for i in ea), max(sph.lm(i)[0] for i in eb)
        ctx.true("degree", (int(A.degree), int(B.degree)) == (da, db), f"{A.degree}, {B.degree}")
        xyz = sph.sphere_points(da + db)[:3]

        def dense(e, deg):
            v = np.zeros((deg + 1) ** 2)
            for i, x in e.items():
                v[i] = x
            return v

        va, vb = dense(ea, da), dense(eb, db)
        ctx.close("dense form", A.todense(), va, tol * 2)
        fa, fb = ev(va, xyz), ev(vb, xyz)
        sa, sb = np.abs(va).sum(), np.abs(vb).sum()
        # dense round trip, padded to a larger degree
        k = case["pad"]
        D = Pijk.from_dense(np.concatenate([va, np.zeros((da + k + 1) ** 2 - len(va))]), degree=da + k)
        ctx.close("dense round trip", D.todense(), dense(ea, da + k), 2 * tol)
        i = case["n"] % len(va)
        ctx.close("item", A[sph.ptilde(i)], va[i], 2 * tol)
        # index bijections
        n = case["n"]
        l, m = sph.lm(n)
        ctx.true("index to (l, m)", tuple(map(int, Pijk.n2lm(n))) == (l, m), f"{n}: {Pijk.n2lm(n)}")
        ctx.true("(l, m) to index", int(Pijk.lm2n(l, m)) == n, f"{n}")
        ctx.true("index to powers", tuple(map(int, Pijk.n2ijk(n))) == sph.ptilde(n), f"{n}: {Pijk.n2ijk(n)}")
        ctx.true("powers to (l, m)", tuple(map(int, Pijk.ijk2lm(*sph.ptilde(n)))) == (l, m), f"{n}")
        ctx.true("(l, m) to powers", tuple(map(int, Pijk.lm2ijk(l, m))) == sph.ptilde(n), f"{n}")
        # sums, scalings, products
        S = A + B
        ctx.close("sum", ev(S.todense(), xyz), fa + fb, tol * (sa + sb))
        s = case["scalar"]
        ctx.close("sum with a number", ev((A + s).todense(), xyz), fa + s, tol * (sa + abs(s)))
        ctx.close("scaled on the left", ev((s * A).todense(), xyz), s * fa, tol * sa * (1 + abs(s)))
        ctx.close("scaled on the right", ev((A * s).todense(), xyz), s * fa, tol * sa * (1 + abs(s)))
        Pr = A * B
        pd = np.asarray(Pr.todense(), float)
        ctx.true("degree of the product", math.isqrt(len(pd)) - 1 <= da + db, f"{Pr.degree}")
        ctx.close("product", ev(pd, xyz), fa * fb, tol * (1 + sa * sb) * 9)
        if da <= 3 and db <= 3:
            M = np.asarray(polynomial_product_matrix(va, db), float)
            ctx.true("shape of the product matrix", M.shape == ((da + db + 1) ** 2, (db + 1) ** 2), M.shape)
            ctx.close("product by the product matrix", ev(M @ vb, xyz), fa * fb, tol * (1 + sa * sb) * 9)
        # entries given as arrays
        J = Pijk({sph.ptilde(i): jnp.asarray(v) for i, v in ea.items()}) * B
        ctx.close("product of array entries", ev(J.todense(), xyz), fa * fb, tol * (1 + sa * sb) * 9)
        ctx.label("z times z", any(sph.ptilde(i)[2] for i in ea) and any(sph.ptilde(i)[2] for i in eb))
        ctx.nt(da >= 1 and db >= 1)

    strat = st.fixed_dictionaries(dict(a=sparse_coeffs(5), b=sparse_coeffs(5), pad=ints(0, 2), n=ints(0, 600), scalar=sym(3.0)))
    return strat, prop


def make_ylm(prec):
    from hypothesis import strategies as st
    from jaxoplanet.starry.ylm import Ylm

    def ev(dense, Y):
        d = np.asarray(dense, float)
        return np.tensordot(d, Y[:len(d)], 1)

    def prop(case, ctx):
        tol = 300 * ctx.eps
        ea, eb = entries(case["a"], need0=True), entries(case["b"])
        A = Ylm({sph.lm(i): v for i, v in ea.items()})
        B = Ylm({sph.lm(i): v for i, v in eb.items()})
        da, db = max(sph.lm(i)[0] for i in ea), max(sph.lm(i)[0] for i in eb)
        ctx.true("degree", (A.deg, B.deg) == (da, db), f"{A.deg}, {B.deg}")
        va, vb = np.zeros((da + 1) ** 2), np.zeros((db + 1) ** 2)
        for i, v in ea.items():
            va[i] = v
        for i, v in eb.items():
            vb[i] = v
        ctx.close("dense form", A.todense(), va, 2 * tol)
        ctx.true("shape", tuple(A.shape) == va.shape, A.shape)
        for (l, m) in [sph.lm(i) for i in list(ea)[:3]]:
            ctx.true("index", int(Ylm.index(l, m)) == l * l + l + m, f"{l},{m}")
            ctx.close("item", A[(l, m)], va[l * l + l + m], 2 * tol)
        ctx.true("diagonal", bool(A.diagonal) == all(sph.lm(i)[1] == 0 for i in ea), "")
        ctx.close("dense round trip", Ylm.from_dense(va, normalize=False).todense(), va, 2 * tol)
        ctx.close("normalized", Ylm.from_dense(va).todense(), va / va[0], tol * (1 + np.abs(va / va[0])))
        ctx.close("normalize", A.normalize().todense(), va / va[0], tol * (1 + np.abs(va / va[0])))
        # a ragged number of coefficients: missing ones are zero
        k = 1 + case["n"] % len(va)
        got = np.asarray(Ylm.from_dense(va[:k], normalize=False).todense(), float)
        want = np.zeros((sph.lm(k - 1)[0] + 1) ** 2)
        want[:k] = va[:k]
        ctx.close("ragged dense array", got, want, 2 * tol)
        s = case["scalar"]
        ctx.close("scaled on the left", (s * A).todense(), s * va, tol * (1 + np.abs(va)))
        ctx.close("scaled on the right", (A * s).todense(), s * va, tol * (1 + np.abs(va)))
        x, y, z, _ = sph.sphere_points(da + db)
        Y = sph.eval_ylm(da + db, x, y, z)
        fa, fb = ev(va, Y), ev(vb, Y)
        sa, sb = np.abs(va).sum() * da + 1, np.abs(vb).sum() * db + 1
        prod = A * B
        ctx.close("product", ev(prod.todense(), Y), fa * fb, tol * sa * sb)
        ctx.label("zonal", A.diagonal and B.diagonal)
        ctx.nt(da >= 1 and db >= 1)

    strat = st.fixed_dictionaries(dict(a=sparse_coeffs(4), b=sparse_coeffs(4), n=ints(0, 600), scalar=sym(3.0)))
    return strat, prop


register("C16",
         Sub("pijk", make_pijk, quick=160, thorough=3600, shards=5, tshards=5, rule="two polynomials of degree at least 1"),
         Sub("ylm", make_ylm, quick=120, thorough=3000, shards=3, tshards=4, rule="two maps of degree at least 1"))
