"""C04: gradients of the limb-darkened eclipse flux."""
import numpy as np

from ..core import Sub, lists, loguni, pad, register, sym, uni
from ..oracles import limbdark as ref
from .c03 import coeffs, geometry

N = 16
ASSUMPTIONS = [
    "oracle: the derivative of the hidden flux is a line integral of the intensity along the "
    "occultor's limb (b, r) or a disc integral (u)",
    "accuracy is not judged within 1e-8 of a contact point (the true gradient has a square-root "
    "cusp there); finiteness is judged everywhere",
]
TOL64 = {10: 5e-4, 50: 5e-7}


def make_grad(prec):
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.core.limb_dark import light_curve

    cache = {}

    def fn(order):
        if order not in cache:
            cache[order] = jax.jit(jax.vmap(
                jax.grad(lambda u, b, r: light_curve(u, b, r, order=order), (0, 1, 2)), in_axes=(None, 0, 0)))
        return cache[order]

    def prop(case, ctx):
        dt = np.float64 if ctx.f64 else np.float32
        p = pad([list(x) for x in case["br"]], N).astype(dt)
        u = np.asarray(case["u"], dt)
        b, r = p[:, 0], p[:, 1]
        gu, gb, gr = [np.asarray(g, float) for g in fn(case["order"])(jnp.asarray(u), jnp.asarray(b), jnp.asarray(r))]
        for n, g in (("u", gu), ("b", gb), ("r", gr)):
            ctx.true(f"d/d{n} finite", np.isfinite(g), f"{g} at b={b} r={r} u={u}")
        uf = u.astype(float)
        b, r = b.astype(float), r.astype(float)
        T = ref.total(uf)
        B = np.array([ref.blocked(uf, b[i], r[i]) for i in range(N)])
        G = np.array([ref.blocked_grad(uf, b[i], r[i]) for i in range(N)])
        margin = np.minimum(np.abs(b - np.abs(1 - r)), np.abs(b - 1 - r))
        if ctx.f64:
            ok = (margin > 1e-8) & (r < 5)
            tol = (TOL64[case["order"]] if len(u) else 2e-8) * (1 + np.zeros(N))
            tol = tol + np.where((b < 1e-7) & (b > 0), 1e-3 * (len(u) > 2), 0)
        else:
            ok = (margin > 2e-3) & ((b > 1e-2) | (b == 0))
            tol = np.full(N, 2e-2)
        if ok.any():
            ctx.close("d/db", gb[ok], -(G[:, 0] / T)[ok], tol[ok], info=f"b={b[ok]} r={r[ok]} u={list(uf)}")
            ctx.close("d/dr", gr[ok], -(G[:, 1] / T)[ok], tol[ok], info=f"b={b[ok]} r={r[ok]} u={list(uf)}")
        for k in range(len(u)):
            e = np.zeros(len(u))
            e[k] = 1.0
            Bk = np.array([ref.blocked(e, b[i], r[i]) - ref.blocked([], b[i], r[i]) for i in range(N)])
            Tk = ref.total(e) - ref.total([])
            ctx.close("d/du", gu[:, k], -(Bk * T - B * Tk) / T**2, (3e-5 if ctx.f64 else 2e-4) + (r > 3) * 1e-6 * r)
        ctx.label("exact contact or b in {0, r}", ((margin == 0) | (b == 0) | (b == r)).any())
        ctx.label("inside", ((b < 1 - r) & ok).any())
        ctx.nt(bool((ok & (np.abs(G[:, 1]) > 1e-3) & (b > np.abs(1 - r))).any()))

    if prec == "f64":
        kind = st.sampled_from([(0, 10), (1, 10), (2, 10), (2, 50), (4, 50), (3, 10), (6, 50)])
    else:
        kind = st.sampled_from([(0, 10), (2, 10), (4, 10)])
    return kind.flatmap(lambda k: st.fixed_dictionaries({
        "order": st.just(k[1]), "u": coeffs(k[0]), "br": lists(geometry(prec), N)})), prop


register("C04",
         Sub("grad", make_grad, prec=("f64", "f32"), quick=500, thorough=12000, shards=4, tshards=6,
             rule="some partially occulted geometry away from the contact points"))
