"""C14: units of inputs and fields."""
import math

import numpy as np

from ..core import Fail, Sub, ints, loguni, pad, register, sym, uni

ASSUMPTIONS = ["the conversion factors (SI and IAU 2015 / CODATA) are written out in the check"]

# unit name -> (dimension, factor to SI)
UNITS = {
    "m": ("length", 1.0), "km": ("length", 1e3), "cm": ("length", 1e-2), "au": ("length", 149597870700.0),
    "R_sun": ("length", 6.957e8), "R_earth": ("length", 6.3781e6), "R_jupiter": ("length", 7.1492e7), "parsec": ("length", 3.0856775814913674e16),
    "s": ("time", 1.0), "minute": ("time", 60.0), "hour": ("time", 3600.0), "day": ("time", 86400.0), "year": ("time", 31557600.0),
    "kg": ("mass", 1.0), "g": ("mass", 1e-3),
    "radian": ("angle", 1.0), "degree": ("angle", math.pi / 180), "arcsecond": ("angle", math.pi / 648000),
    "km/s": ("speed", 1e3), "m/s": ("speed", 1.0), "R_sun/day": ("speed", 6.957e8 / 86400), "au/year": ("speed", 149597870700.0 / 31557600.0),
    "1/day": ("rate", 1 / 86400), "1/hour": ("rate", 1 / 3600),
    "dimensionless": ("none", 1.0), "percent": ("none", 0.01),
    "kg/m**3": ("density", 1.0), "g/cm**3": ("density", 1e3),
}
# G M in m^3/s^2 (IAU 2015 nominal), compared through ratios since G itself is measured
GM = {"M_sun": 1.3271244e20, "M_earth": 3.986004e14, "M_jupiter": 1.2668653e17}


def available(ureg):
    out = {}
    for k, v in UNITS.items():
        try:
            ureg.parse_units(k) if hasattr(ureg, "parse_units") else ureg(k)
            out[k] = v
        except Exception:
            pass
    return out


def make_decorator(prec):
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet import units
    from jaxoplanet.units import unit_registry as ureg
    from pint import DimensionalityError

    U = available(ureg)
    names = sorted(U)
    by_dim = {}
    for k in names:
        by_dim.setdefault(U[k][0], []).append(k)
    und = {k: ureg.Unit(k) if k != "dimensionless" else ureg.dimensionless for k in names}

    def val(x, shape):
        if shape == 0:
            return float(x)
        if shape == 1:
            return jnp.asarray([x, 2 * x])
        return jnp.asarray([[x], [-x]])

    def prop(case, ctx):
        ps = case["params"]
        spec, argv, want, defaults = {}, {}, {}, {}
        expect_error = None
        for i, p in enumerate(ps):
            n = f"p{i}"
            defaults[n] = None
            target = names[p["unit"] % len(names)]
            dim, f = U[target]
            tgt = target if p["as_string"] else und[target]
            given = by_dim[dim][p["given"] % len(by_dim[dim])]
            v = val(p["v"], p["shape"])
            how = p["how"]
            if how == "bare" and not case["strict"]:
                arg, w = v, np.asarray(v, float)
            elif how == "omit":
                arg, w = "omit", None
            elif how == "default" and not (p["default_bare"] and case["strict"]):
                # left out, with a default that is a number or a quantity
                defaults[n] = v if p["default_bare"] else v * und[given]
                arg, w = "omit", np.asarray(v, float) * (1.0 if p["default_bare"] else U[given][1] / f)
            elif how in ("none", "default"):
                how = "none"
                arg, w = None, None
            elif how == "wrong":
                od = sorted(d for d in by_dim if d != dim and not {d, dim} <= {"angle", "none"})
                o = by_dim[od[p["given"] % len(od)]][0]
                arg, w = v * und[o], None
                expect_error = expect_error or DimensionalityError
            elif how == "bare":
                arg, w = v, None
                expect_error = expect_error or ValueError
            else:
                arg, w = v * und[given], np.asarray(v, float) * (U[given][1] / f)
            unit_spec = tgt
            if how == "skip":  # a parameter with no unit is passed through untouched
                unit_spec = None
                arg, w = object(), None
            if p["tree"] and how in ("bare", "quantity", "wrong"):
                flag = object()
                arg = {"q": arg, "flag": flag, "l": (arg,)}
                unit_spec = {"q": tgt, "flag": None, "l": (tgt,)}
                want[n] = ("tree", w, target, flag)
            else:
                want[n] = ({"skip": "same", "none": "none", "omit": "omit"}.get(how, "q"), w, target, arg)
            if unit_spec is not None or p["explicit_none"]:
                spec[n] = unit_spec
            argv[n] = arg
        seen = {}

        sig = []
        for i, p in enumerate(ps):
            n = f"p{i}"
            if i == case["kwonly"]:
                sig.append("*")
            sig.append(f"{n}=defaults[{n!r}]")
        ns = {}
        exec(f"def fn({', '.join(sig)}{', **rest' if case['rest'] else ''}):\n    seen.update(locals())\n    return 'result'", {"seen": seen, "defaults": defaults}, ns)
        fn = ns["fn"]
        opts = {"_strict": True} if case["strict"] else {}
        w = units.quantity_input(fn, **spec, **opts) if case["direct"] else units.quantity_input(**spec, **opts)(fn)
        posn, kw = [], {}
        stop = False
        for i in range(len(ps)):
            n = f"p{i}"
            if i >= case["kwonly"] or i >= case["positional"] or argv[n] is not None and isinstance(argv[n], str):
                stop = True
            if isinstance(argv[n], str):
                continue
            if stop:
                kw[n] = argv[n]
            else:
                posn.append(argv[n])
        if case["rest"]:
            kw["unrelated"] = 3
        try:
            r = w(*posn, **kw)
        except (DimensionalityError, ValueError) as e:
            if expect_error is None:
                raise Fail(f"rejected valid input: {type(e).__name__}: {e}; {case}")
            ctx.true("kind of the error", isinstance(e, (DimensionalityError, ValueError)))
            ctx.label("rejected")
            ctx.nt()
            return
        if expect_error is not None:
            raise Fail(f"accepted invalid units: {case}")
        ctx.true("return value", r == "result")

        def check(what, got, wv, target):
            ctx.true(f"{what} is a quantity", hasattr(got, "magnitude") and hasattr(got, "units"), repr(got))
            ctx.true(f"{what} has the declared units", got.units == und[target], f"{got.units} not {target}")
            ctx.close(f"{what} magnitude", got.magnitude, wv, 1e-10 * np.abs(wv) + 1e-300)

        for n, (k, wv, target, arg) in want.items():
            got = seen[n]
            if k == "same":
                ctx.true("untouched", got is arg)
            elif k in ("none", "omit"):
                ctx.true("None stays None", got is None)
            elif k == "q":
                check("argument", got, wv, target)
            else:
                check("tree leaf", got["q"], wv, target)
                check("tree leaf", got["l"][0], wv, target)
                ctx.true("unlisted leaf untouched", got["flag"] is arg)
            ctx.label(k)
        if case["rest"]:
            ctx.true("extra keyword", seen["rest"] == {"unrelated": 3})
        ctx.true("name kept", w.__name__ == "fn")
        ctx.nt(any(k in ("q", "tree") for k, *_ in want.values()))

    param = st.fixed_dictionaries({
        "unit": ints(0, 200), "given": ints(0, 50), "as_string": st.booleans(), "v": st.one_of(sym(100.0), loguni(1e-6, 1e6)),
        "shape": ints(0, 2), "how": st.sampled_from(["quantity", "quantity", "quantity", "bare", "none", "omit", "skip", "wrong", "default"]),
        "tree": st.booleans(), "default_bare": st.booleans(), "explicit_none": st.booleans()})
    return st.fixed_dictionaries({
        "params": st.lists(param, min_size=1, max_size=4), "strict": st.sampled_from([False, False, True]), "direct": st.booleans(),
        "kwonly": ints(0, 4), "positional": ints(0, 4), "rest": st.booleans()}), prop


def make_field(prec):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet import units
    from jaxoplanet.units import unit_registry as ureg
    from pint import DimensionalityError

    U = available(ureg)
    names = sorted(U)
    by_dim = {}
    for k in names:
        by_dim.setdefault(U[k][0], []).append(k)
    und = {k: ureg.Unit(k) if k != "dimensionless" else ureg.dimensionless for k in names}
    made = {}

    def module(target, strict):
        if (target, strict) not in made:
            made[target, strict] = type(eqx.Module)(
                "M", (eqx.Module,), {"__annotations__": {"a": object, "b": object, "c": object},
                                     "a": units.field(units=und[target], strict=strict),
                                     "b": units.field(default=2.5),
                                     "c": units.field(units=target if target != "dimensionless" else und[target], default=None)})
        return made[target, strict]

    def prop(case, ctx):
        target = names[case["unit"] % len(names)]
        dim, f = U[target]
        M = module(target, case["strict"])
        given = by_dim[dim][case["given"] % len(by_dim[dim])]
        v = case["v"]
        if case["strict"]:
            try:
                M(a=v)
            except ValueError:
                pass
            else:
                raise Fail("bare number accepted by a strict field")
        else:
            ctx.close("bare number", M(a=v).a.to(und[target]).magnitude, v, 0)
        m = M(a=v * und[given], c=v * und[given])
        w = v * U[given][1] / f
        for x in (m.a, m.c):
            ctx.true("units of a field", x.units == und[target], str(x))
            ctx.close("field", x.magnitude, w, 1e-10 * abs(w))
        ctx.true("optional field", M(a=v * und[given]).c is None and m.b == 2.5)
        od = sorted(d for d in by_dim if d != dim and not {d, dim} <= {"angle", "none"})
        o = by_dim[od[case["given"] % len(od)]][0]
        try:
            M(a=v * und[o])
        except DimensionalityError:
            pass
        else:
            raise Fail(f"field in {target} accepted {o}")
        # units survive transformations
        g = jax.jit(lambda q: q.a.to(und[given]))(m)
        ctx.close("through jit", g.magnitude, v, 1e-10 * abs(v))
        stack = jax.vmap(lambda x: M(a=x * und[given]))(jnp.asarray([v, 2 * v]))
        ctx.true("through vmap", stack.a.units == und[target])
        ctx.close("through vmap", stack.a.magnitude, [w, 2 * w], 1e-10 * abs(w) * 2)
        d = jax.grad(lambda x: M(a=x * und[given]).a.magnitude)(v)
        ctx.close("derivative is the conversion factor", d, U[given][1] / f, 1e-10 * U[given][1] / f)
        ctx.nt(given != target)
        ctx.label(dim)

    return st.fixed_dictionaries({"unit": ints(0, 200), "given": ints(0, 50), "v": st.one_of(sym(100.0), loguni(1e-6, 1e6)), "strict": st.booleans()}), prop


def make_constants(prec):
    from hypothesis import strategies as st
    from jaxoplanet.units import unit_registry as ureg

    U = available(ureg)
    names = sorted(U)

    def prop(case, ctx):
        a = names[case["a"] % len(names)]
        same = [n for n in names if U[n][0] == U[a][0]]
        b = same[case["b"] % len(same)]
        x = case["x"]
        ua, ub = (ureg.Unit(n) if n != "dimensionless" else ureg.dimensionless for n in (a, b))
        w = x * U[a][1] / U[b][1]
        ctx.close(f"{a} in {b}", (x * ua).to(ub).magnitude, w, 1e-9 * abs(w))
        m, n = sorted(GM)[case["m"]], sorted(GM)[case["n"]]
        r = float((1 * ureg.Unit(m)).to(ureg.Unit(n)).magnitude)
        ctx.close(f"{m} in {n}", r, GM[m] / GM[n], 1e-6 * GM[m] / GM[n])
        G = float((1 * ureg.gravitational_constant).to(ureg.R_sun**3 / ureg.M_sun / ureg.day**2).magnitude)
        ctx.close("G M_sun", G * (6.957e8) ** 3 / 86400**2, GM["M_sun"], 2e-5 * GM["M_sun"])
        ctx.nt(a != b)
        ctx.label(U[a][0])

    return st.fixed_dictionaries({"a": ints(0, 200), "b": ints(0, 200), "x": loguni(1e-3, 1e3), "m": ints(0, 2), "n": ints(0, 2)}), prop


register("C14",
         Sub("decorator", make_decorator, quick=500, thorough=12000, shards=3, tshards=4, rule="a converted argument or a rejected one"),
         Sub("field", make_field, quick=120, thorough=2500, shards=3, tshards=3, rule="value given in another unit than the field's"),
         Sub("constants", make_constants, quick=200, thorough=2000, shards=1, tshards=1, rule="two different units"))
