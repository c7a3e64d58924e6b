"""C30: the comparisons of jaxoplanet.test_utils accept what agrees and reject what does not."""
import numpy as np

from ..core import Fail, Sub, ints, loguni, register, sym, uni

ASSUMPTIONS = ["differences are at least 1.5 times or at most half of the stated tolerance of the element they are made in"]
RTOL = {"float64": 5e-7, "float32": 5e-4}
UNITS = [("m", "km", 1e-3), ("day", "hour", 24.0), ("R_sun", "m", 6.957e8), ("rad", "deg", 180 / np.pi), ("dimensionless", "percent", 100.0)]


def make_compare(prec):
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet import test_utils
    from jaxoplanet.units import unit_registry as ureg

    def prop(case, ctx):
        leaves, others, verdicts = [], [], []
        for k, leaf in enumerate(case["leaves"]):
            dt = leaf["dtype"]
            v = np.array(leaf["values"], dt)
            if leaf["column"]:
                v = v[:, None]
            if leaf["scalar"]:
                v = v.ravel()[0]
            w = np.array(v)
            how = case["how"] if k == case["where"] % len(case["leaves"]) else "same"
            rtol = case["rtol"] if case["rtol"] is not None else RTOL[dt]
            rtol = rtol * w.size  # as jax compares arrays
            if how in ("near", "far"):
                i = leaf["at"] % w.size
                f = 1 + case["sign"] * rtol * (0.4 if how == "near" else 1.6)
                w.reshape(-1)[i] = np.asarray(w.reshape(-1)[i] * (f if how == "near" or case["sign"] > 0 else 1 - 1.6 * rtol), dt)
            unit, other, f = UNITS[leaf["unit"] % len(UNITS)]
            lib = jnp.asarray if leaf["jax"] else np.asarray
            if how == "longer":
                w = np.concatenate([np.atleast_1d(w), np.atleast_1d(w)[-1:]])
            elif how == "nan":
                w.reshape(-1)[leaf["at"] % w.size] = np.nan
            a, b = lib(v), lib(w)
            if leaf["quantity"]:
                if how == "unit" or (case["convert"] and leaf["turn"]):
                    a, b = a * ureg.Unit(unit), lib(np.asarray(w * f, dt)) * ureg.Unit(other)
                    verdicts.append("accept" if case["convert"] else "reject")
                elif how == "dimension":
                    a, b = a * ureg.Unit(unit), b * ureg.Unit("kg")
                    verdicts.append("reject")
                else:
                    a, b = a * ureg.Unit(unit), b * ureg.Unit(unit)
            verdicts.append({"far": "reject", "longer": "reject", "nan": "reject"}.get(how, "accept"))
            leaves.append(a)
            others.append(b)
        kw = {} if case["rtol"] is None else dict(rtol=case["rtol"])
        if case["convert"]:
            kw["convert"] = True
        n = len(leaves)
        trees = [lambda x: list(x), lambda x: {f"k{i}": v for i, v in enumerate(x)}, lambda x: (x[0], {"rest": list(x[1:])})]
        shape = trees[case["tree"]]
        structure = case["structure"]
        A, B = shape(leaves), shape(others)
        if structure == "missing":
            B = shape(others + [others[0]])
        elif structure == "kind":
            B = trees[(case["tree"] + 1) % 3](others)
        want = "reject" if "reject" in verdicts or structure != "same" else "accept"

        def judge(f, a, b, want, what):
            try:
                f(a, b, **kw)
            except Exception as e:
                if want == "accept":
                    raise Fail(f"{what} rejected what agrees ({type(e).__name__}: {str(e)[:200]}); {case}")
                # a comparison that fails is an assertion that does not hold, or units that cannot be compared
                ctx.true("kind of the error", isinstance(e, AssertionError) or type(e).__name__ == "DimensionalityError", f"{type(e).__name__}: {e}")
            else:
                if want == "reject":
                    raise Fail(f"{what} accepted what does not agree; {case}")
        judge(test_utils.assert_quantity_pytree_allclose, A, B, want, "the comparison of trees")
        judge(test_utils.assert_quantity_pytree_allclose, A, A, "accept", "the comparison of a tree with itself")
        if structure == "same" and n == 1:
            judge(test_utils.assert_quantity_allclose, leaves[0], others[0], want, "the comparison of quantities")
            if not case["leaves"][0]["quantity"] and not case["convert"]:
                judge(test_utils.assert_allclose, leaves[0], others[0], want, "the comparison of arrays")
        ctx.label(case["how"])
        ctx.label(structure)
        ctx.label("converted", case["convert"])
        ctx.nt(want == "reject" or case["how"] == "near" or case["convert"])

    value = st.tuples(st.sampled_from([1.0, -1.0]), st.one_of(uni(0.5, 2.0), loguni(1e-2, 1e6))).map(lambda t: t[0] * t[1])
    leaf = st.fixed_dictionaries(dict(dtype=st.sampled_from(["float64", "float32", "float64"]), values=st.lists(value, min_size=1, max_size=4), column=st.booleans(),
                                      scalar=st.booleans(), at=ints(0, 9), unit=ints(0, 9), quantity=st.booleans(), jax=st.booleans(), turn=st.booleans()))
    return st.fixed_dictionaries(dict(
        leaves=st.lists(leaf, min_size=1, max_size=4), where=ints(0, 9), how=st.sampled_from(["same", "near", "near", "far", "far", "far", "longer", "nan", "unit", "dimension"]),
        sign=st.sampled_from([1.0, -1.0]), rtol=st.one_of(st.none(), st.none(), loguni(1e-3, 3e-2)), convert=st.sampled_from([False, False, True]),
        tree=ints(0, 2), structure=st.sampled_from(["same"] * 6 + ["missing", "kind"]))), prop


register("C30", Sub("compare", make_compare, quick=600, thorough=20000, shards=2, tshards=4, rule="something to reject, a small difference, or a conversion"))
