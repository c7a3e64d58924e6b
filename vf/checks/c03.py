"""C03: limb-darkened eclipse flux equals the disc integral."""
import numpy as np

from ..core import Sub, lists, loguni, pad, register, sym, uni
from ..oracles import limbdark as ref

N = 24
ASSUMPTIONS = ["oracle: piecewise Gauss-Legendre (120 nodes, sin substitution) radial integral, ~1e-14"]
TOL64 = {10: 6e-6, 20: 3e-7, 50: 1e-8}


def geometry(prec):
    """(b, r) pairs: interior, contacts from both sides, tiny, huge and concentric occultors."""
    from hypothesis import strategies as st

    if prec == "f32":
        r = st.one_of(uni(0.01, 0.5), loguni(1e-3, 0.5))

        def out(t):
            r, x, d, k, s = t
            b = [x * (1 + r), abs(1 - r) + s * max(d, 2e-3), 1 + r + s * d, x * 1e-3][k]
            return (abs(b), r)

        return st.tuples(r, uni(0.0, 1.05), loguni(1e-7, 0.1), st.integers(0, 3),
                         st.sampled_from([1.0, -1.0])).map(out)
    r = st.one_of(uni(0.01, 0.5), uni(0.3, 2.0), loguni(1e-5, 1.0), loguni(1.0, 100.0), st.sampled_from([0.5, 1.0, 2.0]))

    def out(t):
        r, x, d, k, s = t
        b = [x * (1 + r), abs(1 - r) + s * d, 1 + r + s * d, x * 1e-2, r - 1 + 2 * x, r, abs(1 - r), 1 + r, 0.0, d][k]
        return (abs(b), r)

    return st.tuples(r, uni(0.0, 1.1), loguni(1e-13, 0.2), st.integers(0, 9), st.sampled_from([1.0, -1.0])).map(out)


def coeffs(nu):
    """nu coefficients with sum |u| <= 1.2, any signs (the total flux stays positive)."""
    from hypothesis import strategies as st

    if nu == 0:
        return st.just([])
    return st.lists(sym(1.0), min_size=nu, max_size=nu).flatmap(
        lambda v: uni(0.0, 1.2).map(lambda s: [float(x * s / max(1.0, sum(map(abs, v)))) for x in v]))


def make_value(prec):
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.core.limb_dark import light_curve

    def prop(case, ctx):
        dt = np.float64 if ctx.f64 else np.float32
        p = pad([list(x) for x in case["br"]], N).astype(dt)
        u = np.asarray(case["u"], dt)
        b, r = p[:, 0], p[:, 1]
        order = case["order"]
        args = (jnp.asarray(u), jnp.asarray(b), jnp.asarray(r))
        got = light_curve(*args) if order is None else light_curve(*args, order=order)
        want = np.array([ref.light_curve(u.astype(float), float(b[i]), float(r[i])) for i in range(N)])
        o = order or 10
        if ctx.f64:
            big = np.where(r > 3, 4e-9 * r, 0) * (1 + len(u))
            tol = (TOL64[o] if len(u) else 2e-11) + big
        else:
            tol = 4e-5
        ctx.close("light_curve", got, want, tol, info=f"u={list(u)}")
        part = (want < -1e-6) & (want > -1 + 1e-6)
        ctx.label("partial", ((b > np.abs(1 - r)) & (b < 1 + r)).any())
        ctx.label("r>1", (r > 1).any())
        ctx.label("nu>=3", len(u) >= 3)
        ctx.label("full occultation", (want <= -1 + 1e-12).any())
        ctx.label("none", (want == 0).any())
        ctx.nt(bool(part.any()))

    if prec == "f64":
        kind = st.sampled_from([(0, None), (1, None), (2, None), (2, 20), (3, 10), (2, 50), (4, 50), (6, 20), (1, 50), (8, 50)])
    else:
        kind = st.sampled_from([(0, None), (1, None), (2, None), (2, 20), (4, 10)])
    return kind.flatmap(lambda k: st.fixed_dictionaries({
        "order": st.just(k[1]), "u": coeffs(k[0]), "br": lists(geometry(prec), N)})), prop


def make_linear(prec):
    """The eclipsed flux is linear in the intensity profile; trailing zero coefficients and the
    coefficients' container do not matter; b and r broadcast elementwise."""
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.core.limb_dark import light_curve

    def prop(case, ctx):
        p = pad([list(x) for x in case["br"]], N)
        b, r = p[:, 0], p[:, 1]
        u, v, w = np.array(case["u"]), np.array(case["v"]), case["w"]
        J = jnp.asarray
        f = lambda u, b=b, r=r: np.asarray(light_curve(J(u), J(b), J(r), order=20))
        tu, tv = ref.total(u), ref.total(v)
        m = w * u + (1 - w) * v
        tm = ref.total(m)
        # order 20 quadrature is itself linear in the profile
        ctx.close("linearity in the profile", f(m) * tm, w * f(u) * tu + (1 - w) * f(v) * tv,
                  1e-10 * (1 + 100 * r))
        ctx.close("trailing zeros", f(np.concatenate([u, [0.0]])), f(u), 1e-11 * (1 + 100 * r))
        out = f(u)
        ctx.true("finite", np.isfinite(out))
        no = b >= 1 + r
        ctx.close("0 out of occultation", out[no], 0.0, 1e-14)
        full = 1 + b <= r
        ctx.close("-1 when fully covered", out[full], -1.0, 1e-14)
        ctx.close("even in b", f(u, -b), out, 1e-15)
        ctx.close("r=0", f(u, b, 0 * r), 0.0, 1e-14)
        one = float(light_curve(J(u), float(b[0]), float(r[0]), order=20))
        ctx.close("scalar call", one, out[0], 1e-12 * (1 + 100 * r[0]))
        k = min(4, N)
        tab = np.asarray(light_curve(J(u), J(b[:k, None]), J(r[None, :k]), order=20))
        ctx.true("broadcast shape", tab.shape == (k, k), str(tab.shape))
        ctx.close("broadcast diagonal", np.diag(tab), out[:k], 1e-12 * (1 + 100 * r[:k]))
        # a larger occultor hides at least as much of a non-negative disc
        if np.all(ref.intensity(u, np.linspace(0, 1, 41)) >= 0):
            ctx.label("physical profile")
            grow = f(u, b, r * (1 + case["g"]))
            ctx.true("monotone in r", grow <= out + 1e-6, f"{(grow - out).max()}")
            ctx.true("-1 <= flux <= 0", (out >= -1 - 1e-6) & (out <= 1e-6), f"{out.min()} {out.max()}")
        ctx.nt(bool(((out < -1e-6) & (out > -1 + 1e-6)).any()) and 0.01 < w < 0.99)

    nu = st.sampled_from([1, 2, 4])
    return nu.flatmap(lambda n: st.fixed_dictionaries({
        "u": coeffs(n), "v": coeffs(n), "w": uni(0.0, 1.0), "g": uni(0.0, 0.5),
        "br": lists(geometry("f64"), N)})), prop


register("C03",
         Sub("value", make_value, prec=("f64", "f32"), quick=600, thorough=12000, shards=3, tshards=6,
             rule="some (b, r) hides part (not none, not all) of the disc"),
         Sub("relations", make_linear, quick=200, thorough=5000, shards=2, tshards=4,
             rule="part of the disc hidden and a genuine mixture of two profiles"))
