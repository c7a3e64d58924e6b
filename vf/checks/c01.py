"""C01: Kepler's equation."""
import math

import numpy as np

from ..core import Sub, lists, loguni, pad, register, sym, uni
from ..oracles import kepler as ref

N = 64
ASSUMPTIONS = [
    "x86 80-bit long double is the oracle's precision; tolerance grows like eps/(1-e)^2 as the "
    "single-refinement solver's own error does",
]


def pairs(emax):
    from hypothesis import strategies as st

    e_small = loguni(1e-12, 1e-3)
    e = st.one_of(
        uni(0.0, min(0.95, emax)), e_small, st.just(0.0),
        loguni(1 - emax, 0.3).map(lambda x: 1.0 - x))
    special = st.sampled_from([k * math.pi / 2 for k in range(-12, 13)] + [0.0, 2 * math.pi])
    near = st.tuples(st.integers(-6, 6), loguni(1e-12, 1e-1), st.sampled_from([1.0, -1.0])).map(
        lambda t: t[0] * math.pi + t[1] * t[2])
    M = st.one_of(sym(math.pi), sym(40.0), special, near, loguni(1e-9, 3.0), sym(1e4))
    return st.tuples(M, e)


def tol_f(M, e, eps, ref_dfdM):
    M = np.asarray(M, float)
    e = np.asarray(e, float)
    ome = 1 - e
    base = np.minimum(30 * eps / ome**2, 3e-8 if eps < 1e-10 else 2.0)
    return base + 20 * eps + 4 * eps * (np.abs(M) + 2 * math.pi) * np.asarray(ref_dfdM, float)


def tol_sc(dphi, sinf, cosf):
    """Error of (sin f, cos f) when f is off by dphi."""
    dphi = np.minimum(dphi, 2.0)
    return dphi


def make_value(prec):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.core.kepler import kepler

    def prop(case, ctx):
        p = pad([list(x) for x in case["pairs"]], N)
        dt = np.float64 if ctx.f64 else np.float32
        M, e = p[:, 0].astype(dt), p[:, 1].astype(dt)
        s, c = kepler(jnp.asarray(M), jnp.asarray(e))
        s, c = np.asarray(s, float), np.asarray(c, float)
        ctx.true("sin f, cos f finite", np.isfinite(s) & np.isfinite(c), f"M={M} e={e}")
        ctx.close("sin^2 f + cos^2 f", s * s + c * c, 1.0, 16 * ctx.eps)
        rs, rc, _, _ = ref.solve(M.astype(ref.L), e.astype(ref.L))
        t = tol_f(M, e, ctx.eps, ref.dfdM(rc, e))
        ctx.close("sin f", s, np.asarray(rs, float), t)
        ctx.close("cos f", c, np.asarray(rc, float), t)
        ctx.label("e>0.9", (e > 0.9).any())
        ctx.label("|M|>2pi", (np.abs(M) > 7).any())
        ctx.label("M<0", (M < 0).any())
        ctx.label("e==0", (e == 0).any())
        ctx.label("beyond pi", ((M % (2 * np.pi)) > np.pi).any())
        ctx.nt(bool(((e > 0.01) & (np.abs(s) > 1e-6)).any()))

    from hypothesis import strategies as st

    emax = 1 - 1e-9 if prec == "f64" else 1 - 1e-4
    return st.fixed_dictionaries({"pairs": lists(pairs(emax), N)}), prop


def make_relations(prec):
    """Metamorphic relations that need no oracle: periodicity, reflection, monotonicity, and the
    closed form at e = 0."""
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.core.kepler import kepler

    def prop(case, ctx):
        e = case["e"]
        M = pad(case["M"], 32)
        k = case["k"]
        s, c = map(np.asarray, kepler(jnp.asarray(M), jnp.full(32, e)))
        s2, c2 = map(np.asarray, kepler(jnp.asarray(M + 2 * np.pi * k), jnp.full(32, e)))
        d = np.asarray(ref.dfdM(c, e), float)
        t = 2 * tol_f(np.abs(M) + 7 * abs(k), e, ctx.eps, d)
        # near periastron dfdM varies quickly: use the worst case over the orbit there
        t = np.maximum(t, 4 * ctx.eps * (np.abs(M) + 7 * abs(k) + 7) * d * 4)
        ctx.close("sin f periodic", s2, s, t)
        ctx.close("cos f periodic", c2, c, t)
        s3, c3 = map(np.asarray, kepler(jnp.asarray(-M), jnp.full(32, e)))
        ctx.close("sin f odd", s3, -s, t)
        ctx.close("cos f even", c3, c, t)
        # scalar / broadcast calls agree with the array call
        ss, cs = kepler(float(M[0]), float(e))
        ctx.close("scalar sin f", float(ss), float(s[0]), t[0])
        ctx.close("scalar cos f", float(cs), float(c[0]), t[0])
        sb, cb = kepler(jnp.asarray(M.reshape(4, 8)), float(e))
        ctx.close("2-d sin f", np.asarray(sb), s.reshape(4, 8), t.reshape(4, 8))
        ctx.close("2-d cos f", np.asarray(cb), c.reshape(4, 8), t.reshape(4, 8))
        s0, c0 = map(np.asarray, kepler(jnp.asarray(M), jnp.zeros(32)))
        ctx.close("e=0 sin", s0, np.sin(M), 8 * ctx.eps * (1 + np.abs(M)))
        ctx.close("e=0 cos", c0, np.cos(M), 8 * ctx.eps * (1 + np.abs(M)))
        # the true anomaly increases with the mean anomaly
        m = np.sort(np.mod(M, 2 * np.pi))
        sm, cm = map(np.asarray, kepler(jnp.asarray(m), jnp.full(32, e)))
        f = np.mod(np.arctan2(sm, cm), 2 * np.pi)
        inner = (m > 1e-3) & (m < 2 * np.pi - 1e-3)
        f, mi = f[inner], m[inner]
        if len(f) > 1:
            ctx.true("true anomaly is monotone in M", np.diff(f) >= -2 * t.max(), f"e={e} M={mi} f={f}")
        ctx.nt(e > 0.01 and k != 0)

    e = st.one_of(uni(0.0, 0.95), loguni(1e-3, 0.3).map(lambda x: 1 - x), st.just(0.0))
    return st.fixed_dictionaries({
        "e": e, "M": lists(st.one_of(uni(1e-3, math.pi - 1e-3), sym(30.0)), 32), "k": st.integers(-20, 20)}), prop


register("C01",
         Sub("value", make_value, prec=("f64", "f32"), quick=900, thorough=24000, shards=2, tshards=4,
             rule="a batch of (M, e) pairs with some e > 0.01 off the apsides"),
         Sub("relations", make_relations, quick=250, thorough=8000, tshards=3,
             rule="e > 0.01 and a non-zero number of whole turns"))
