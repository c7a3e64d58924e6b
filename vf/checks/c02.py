"""C02: derivatives of the Kepler solver."""
import math

import numpy as np

from ..core import Sub, lists, loguni, pad, register, sym, uni
from ..oracles import kepler as ref
from .c01 import pairs, tol_f

N = 32
ASSUMPTIONS = ["closed-form derivatives of the true anomaly evaluated in long double"]


def exact(M, e):
    L = ref.L
    M, e = np.asarray(M, L), np.asarray(e, L)
    s, c, _, _ = ref.solve(M, e)
    w = (1 - e) * (1 + e)
    q = 1 + e * c
    fM = q**2 / w ** L(1.5)
    fe = (2 + e * c) * s / w
    # second derivatives of f
    fM_f = -2 * e * s * q / w ** L(1.5)
    fM_e = 2 * q * c / w ** L(1.5) + 3 * e * q**2 / w ** L(2.5)
    fe_f = (2 * c + e * (2 * c * c - 1)) / w
    fe_e = c * s / w + (2 + e * c) * s * 2 * e / w**2
    fMM = fM_f * fM
    fMe = fM_e + fM_f * fe
    fee = fe_e + fe_f * fe
    return s, c, fM, fe, fMM, fMe, fee


def make_first(prec):
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.core.kepler import kepler

    fwd = jax.jit(jax.vmap(lambda M, e: (jax.jacfwd(kepler, (0, 1))(M, e))))
    rev = jax.jit(jax.vmap(lambda M, e: (jax.jacrev(kepler, (0, 1))(M, e))))
    onlyM = jax.jit(lambda M, e, d: jax.jvp(lambda M_: kepler(M_, e), (M,), (d,))[1])
    onlye = jax.jit(lambda M, e, d: jax.jvp(lambda e_: kepler(M, e_), (e,), (d,))[1])

    def prop(case, ctx):
        dt = np.float64 if ctx.f64 else np.float32
        p = pad([list(x) for x in case["pairs"]], N).astype(dt)
        M, e = p[:, 0], p[:, 1]
        s, c, fM, fe = [np.asarray(x, float) for x in exact(M, e)[:4]]
        tf = tol_f(M, e, ctx.eps, fM)
        w = (1 - e.astype(float) ** 2)
        # sensitivity of each derivative to the solver's own error in f
        tM = tf * (np.abs(fM) + 6 / w**1.5) + 60 * ctx.eps * np.abs(fM) / (1 - e.astype(float))
        te = tf * (np.abs(fe) + 8 / w) + 60 * ctx.eps * (np.abs(fe) + 1) / (1 - e.astype(float))
        want = ((c * fM, c * fe), (-s * fM, -s * fe))
        for tag, fn in (("jacfwd", fwd), ("jacrev", rev)):
            got = fn(jnp.asarray(M), jnp.asarray(e))
            for i, n in enumerate(("sin f", "cos f")):
                for j, (v, t) in enumerate((("M", tM), ("e", te))):
                    ctx.close(f"{tag} d({n})/d{v}", got[i][j], want[i][j], t)
        d = np.full(N, case["dir"], dt)
        gM = onlyM(jnp.asarray(M), jnp.asarray(e), jnp.asarray(d))
        ge = onlye(jnp.asarray(M), jnp.asarray(e), jnp.asarray(d))
        for i in range(2):
            ctx.close("jvp in M only", gM[i], want[i][0] * d, tM * abs(d) + 1e-300)
            ctx.close("jvp in e only", ge[i], want[i][1] * d, te * abs(d) + 1e-300)
        ctx.label("e>0.9", (e > 0.9).any())
        ctx.label("apsis", (np.abs(s) < 1e-9).any())
        ctx.nt(bool(((e > 0.01) & (np.abs(s) > 1e-3)).any()))

    emax = 1 - 1e-6 if prec == "f64" else 0.95
    return st.fixed_dictionaries({
        "pairs": lists(pairs(emax), N),
        "dir": st.one_of(st.just(1.0), uni(0.1, 3.0)).map(lambda x: float(np.float32(x)))}), prop


def make_second(prec):
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.core.kepler import kepler

    hes = jax.jit(jax.vmap(jax.hessian(lambda p: jnp.stack(kepler(p[0], p[1])))))

    def prop(case, ctx):
        p = pad([list(x) for x in case["pairs"]], N)
        M, e = p[:, 0], p[:, 1]
        s, c, fM, fe, fMM, fMe, fee = [np.asarray(x, float) for x in exact(M, e)]
        H = np.asarray(hes(jnp.asarray(p)))
        tf = tol_f(M, e, ctx.eps, fM)
        w = 1 - e**2
        t = (tf + 60 * ctx.eps) * 60 / w**3.5
        f = {(0, 0): fMM, (0, 1): fMe, (1, 0): fMe, (1, 1): fee}
        g = [fM, fe]
        for (i, j), fij in f.items():
            ctx.close(f"hessian sin f [{i}{j}]", H[:, 0, i, j], c * fij - s * g[i] * g[j], t)
            ctx.close(f"hessian cos f [{i}{j}]", H[:, 1, i, j], -s * fij - c * g[i] * g[j], t)
        ctx.nt(bool(((e > 0.01) & (np.abs(s) > 1e-3)).any()))

    return st.fixed_dictionaries({"pairs": lists(pairs(0.9), N)}), prop


register("C02",
         Sub("first", make_first, prec=("f64", "f32"), quick=400, thorough=12000, shards=2, tshards=4,
             rule="a batch with some e > 0.01 away from the apsides"),
         Sub("second", make_second, quick=200, thorough=6000, tshards=3,
             rule="a batch with some e > 0.01 away from the apsides"))
