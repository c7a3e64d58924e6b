"""C08: systems of bodies behave as the list of their bodies, whatever mixture they are."""
import math

import numpy as np

from .. import gen_orbit as g
from ..core import Fail, Sub, ints, loguni, pad, register, sym, uni
from ..oracles import orbit as O

ASSUMPTIONS = ["reference: a Python loop over the bodies, and the independent two-body oracle of C05"]
NT = 3


def make_history(prec):
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.units import unit_registry as ureg

    def mag(v, u):
        return np.stack([np.asarray(x.to(u).magnitude, float) for x in v])

    METHODS = [("relative_position", ureg.R_sun), ("position", ureg.R_sun), ("relative_velocity", ureg.R_sun / ureg.day),
               ("velocity", ureg.R_sun / ureg.day), ("central_position", ureg.R_sun), ("central_velocity", ureg.R_sun / ureg.day)]

    def observe(sysm, t, i):
        name, u = METHODS[i % len(METHODS)]
        return mag(getattr(sysm, name)(t), u)

    def prop(case, ctx):
        cens = [case["central"], case["central2"]]
        Cs = [Central(**g.ckwargs(c)) for c in cens]
        bodies = case["bodies"]
        if case["alike"]:  # same description, other numbers: one pytree structure
            f = bodies[0]
            out = []
            for i, b in enumerate(bodies):
                n = dict(f)
                n["size"] = (f["size"][0], f["size"][1] * (1 + 0.37 * i))
                if f["mass"] is not None:
                    n["mass"] = f["mass"] * (1 + i)
                if f["radius"] is not None:
                    n["radius"] = f["radius"] * (1 + 0.21 * i)
                if f["epoch"] is not None:
                    n["epoch"] = (f["epoch"][0], f["epoch"][1] + 0.13 * i)
                out.append(n)
            bodies = out
        s0 = System(Cs[0])
        t = jnp.asarray(pad(case["times"], NT))
        snaps = []
        orbs = []
        sysm = s0
        k = case["observe"]
        for b, how in zip(bodies, case["how"]):
            own = how == "other central"
            c = cens[1] if own else cens[0]
            p = g.resolve(c, b)
            if how == "kwargs":
                new = sysm.add_body(**g.kwargs(p))
            elif how == "body":
                new = sysm.add_body(Body(**g.kwargs(p)))
            elif how == "orbital body":
                new = System(Cs[0], bodies=sysm.bodies + (OrbitalBody(Cs[0], Body(**g.kwargs(p))),))
            elif how == "constructor":
                new = System(Cs[0], bodies=list(sysm.bodies) + [Body(**g.kwargs(p))])
            else:
                new = sysm.add_body(Body(**g.kwargs(p)), central=Cs[1])
            orbs.append(O.Orbit(c, p))
            ctx.true("number of bodies", new.shape == (len(orbs),) and len(new.bodies) == len(orbs))
            sysm = new
            has_mass = all(o_p["mass"] is not None for o_p in (g.resolve(cens[1 if h == "other central" else 0], bb)
                                                               for bb, h in zip(bodies[:len(orbs)], case["how"])))
            kk = k % (len(METHODS) if has_mass else 4)
            if not has_mass and kk == 3:
                kk = 1  # velocity of a massless body has its own convention
            snaps.append((sysm, kk, observe(sysm, t, kk)))
            k += 1
        n = len(orbs)
        for j, (old, kk, want) in enumerate(snaps):
            got = observe(old, t, kk)
            ctx.true(f"system of {j + 1} bodies changed by adding others", np.array_equal(got, want, equal_nan=True) and old.shape == (j + 1,))
            name, u = METHODS[kk]
            each = np.stack([mag(getattr(b, name)(t), u) for b in old.bodies], axis=1)
            sc = np.abs(each).max(axis=(0, 2), keepdims=True)
            ctx.close(f"System.{name} against its bodies", got, each, 1e-11 * sc + 1e-300, info=str(case["how"]))
        # order and identity of the bodies, against the independent oracle
        got = mag(sysm.relative_position(t), ureg.R_sun)
        for i, o in enumerate(orbs):
            tt = np.asarray(t)
            tol = 1e-8 * o.a * (1 + np.abs(o.n * (tt - o.tp))) * o.dfdM_max() / (1 - o.e) ** 2 + (1e-6 * o.a if o.si < 1e-2 else 0)
            ctx.close(f"position of body {i}", got[:, i], o.relative(tt), tol, info=str(case["how"]))
        # user functions of (body, mapped, unmapped)
        x = jnp.arange(1.0, n + 1)
        y = jnp.asarray([0.5, 2.0])
        f = lambda b, a, d: (b.period.to(ureg.day).magnitude * a, {"s": b.semimajor * d["y"]})
        r = sysm.body_vmap(f, in_axes=(0, None), out_axes=(0, {"s": 1}))(x, {"y": y})
        ctx.close("body_vmap: mapped argument", r[0], [o.P * (i + 1) for i, o in enumerate(orbs)], [1e-10 * o.P * n for o in orbs])
        ctx.close("body_vmap: out_axes 1", r[1]["s"].to(ureg.R_sun).magnitude, np.stack([o.a * np.asarray(y) for o in orbs], axis=1),
                  1e-10 * max(o.a for o in orbs))
        ctx.close("central_radius", sysm.central_radius.to(ureg.R_sun).magnitude, [o.R for o in orbs], [1e-12 * o.R for o in orbs])
        rad = [g.resolve(case["central"], b)["radius"] for b in bodies[:n]]
        if all(q is not None for q in rad):
            ctx.close("radius", sysm.radius.to(ureg.R_sun).magnitude, rad, [1e-12 * q for q in rad])
        ctx.label("alike", case["alike"])
        ctx.label("other central", "other central" in case["how"][:n])
        ctx.label(f"{n} bodies")
        ctx.nt(n >= 2)

    hows = st.sampled_from(["kwargs", "body", "orbital body", "constructor", "other central"])
    return st.fixed_dictionaries({
        "central": g.central_params(), "central2": g.central_params(),
        "bodies": st.lists(g.body_params(emax=0.7), min_size=1, max_size=4),
        "how": st.lists(hows, min_size=4, max_size=4), "alike": st.booleans(),
        "times": st.lists(sym(30.0), min_size=1, max_size=NT), "observe": ints(0, 11)}), prop


def make_stack(prec):
    """ObjectStack.vmap(f, in_axes, out_axes) against a plain loop over arbitrary pytrees."""
    import jax.numpy as jnp
    from hypothesis import strategies as st
    from jaxoplanet.object_stack import ObjectStack
    from jaxoplanet.units import unit_registry as ureg

    SH = (2, 3)

    def build(o):
        d = {"a": jnp.asarray(o["a"]), "v": jnp.asarray([o["a"], 1.0 + o["a"]])}
        if o["kind"] == 1:
            d["extra"] = jnp.asarray(1.5)
        if o["kind"] == 2:
            d["nested"] = (jnp.asarray(0.25), None)
        return d

    def place(axis, n, seed, q):
        """An argument whose `axis` has length n (or none), filled with distinct values."""
        sh = list(SH)
        if axis is not None:
            sh.insert(axis if axis >= 0 else len(sh) + 1 + axis, n)
        v = np.arange(int(np.prod(sh)), dtype=float).reshape(sh) * 0.37 + seed
        return v

    def take(v, axis, i):
        return v if axis is None else np.take(v, i, axis=axis)

    def prop(case, ctx):
        objs = [build(o) for o in case["objs"]]
        n = len(objs)
        st_ = ObjectStack(*objs)
        ctx.true("length", len(st_) == n)
        ax = case["axes"]
        raw = [place(a, n, 1.0 + 10 * j, False) for j, a in enumerate(ax)]
        quant = case["quantity"]
        args = [jnp.asarray(raw[0]) * (ureg.day if quant else 1), {"k": jnp.asarray(raw[1]), "l": (jnp.asarray(raw[2]),)}]
        form = case["form"]
        if form == "scalar":  # one axis for every argument
            a0 = ax[0]
            raw = [place(a0, n, 1.0 + 10 * j, False) for j in range(3)]
            axs = [a0] * 3
            args = [jnp.asarray(raw[0]) * (ureg.day if quant else 1), {"k": jnp.asarray(raw[1]), "l": (jnp.asarray(raw[2]),)}]
            in_axes = a0
        elif form == "per argument":
            axs = [ax[0], ax[1], ax[1]]
            raw[2] = place(ax[1], n, 21.0, False)
            args[1] = {"k": jnp.asarray(raw[1]), "l": (jnp.asarray(raw[2]),)}
            in_axes = (ax[0], ax[1])
        else:
            axs = list(ax)
            in_axes = (ax[0], {"k": ax[1], "l": (ax[2],)})

        def f(obj, t, d):
            u = t.to(ureg.hour).magnitude if quant else t
            return {"p": obj["a"] * u + d["k"], "q": [d["l"][0] * obj["v"].sum(), obj["a"]], "c": jnp.asarray(3.0)}

        want_p, want_q0, want_q1 = [], [], []
        for i, o in enumerate(case["objs"]):
            u = take(raw[0], axs[0], i) * (24 if quant else 1)
            want_p.append(o["a"] * u + take(raw[1], axs[1], i))
            want_q0.append(take(raw[2], axs[2], i) * (2 * o["a"] + 1))
            want_q1.append(o["a"])
        oa = case["out"]
        out_axes = {"p": oa[0], "q": [oa[1], 0], "c": None} if case["out_tree"] else oa[0]
        if not case["out_tree"]:
            out_axes, g_ = oa[0], f

            def f(obj, t, d):  # noqa: F811  (one leaf-compatible axis for all outputs)
                r = g_(obj, t, d)
                return r["p"], r["q"][0]
        r = st_.vmap(f, in_axes=in_axes, out_axes=out_axes)(*args)
        P, Q = (r["p"], r["q"][0]) if case["out_tree"] else r
        a1 = oa[1] if case["out_tree"] else oa[0]
        wp, wq = np.stack(want_p, axis=oa[0]), np.stack(want_q0, axis=a1)
        inf = f"in_axes={in_axes} out_axes={out_axes} kinds={[o['kind'] for o in case['objs']]}"
        ctx.close("vmap result", P, wp, 1e-11 * (1 + np.abs(wp)), info=inf)
        ctx.close("vmap nested result", Q, wq, 1e-11 * (1 + np.abs(wq)), info=inf)
        if case["out_tree"]:
            ctx.close("vmap scalar result", r["q"][1], want_q1, 1e-14 * 10)
            ctx.close("vmap unmapped result", r["c"], 3.0, 0)
        mixed = len({o["kind"] for o in case["objs"]}) > 1
        # arguments whose mapped size is not the number of objects are rejected
        bad = case["bad"]
        if bad:
            v = place(axs[0], n + bad if n + bad > 0 else n + 1, 1.0, False)
            try:
                st_.vmap(lambda o, t: o["a"] * t, in_axes=axs[0] if axs[0] is not None else 0)(jnp.asarray(v if axs[0] is not None else place(0, n + abs(bad), 1.0, False)))
            except (ValueError, TypeError, IndexError):
                pass
            else:
                raise Fail(f"argument of mapped size other than {n} accepted; {inf}")
        ctx.label("mixed", mixed)
        ctx.label("negative axis", any(a is not None and a < 0 for a in axs))
        ctx.nt(n >= 2 and any(a is not None for a in axs))

    axis = st.sampled_from([0, 1, 2, None, -1, -2, -3])
    obj = st.fixed_dictionaries({"a": uni(0.5, 3.0), "kind": ints(0, 2)})
    same = st.tuples(ints(0, 2), st.lists(uni(0.5, 3.0), min_size=1, max_size=4)).map(lambda t: [{"a": a, "kind": t[0]} for a in t[1]])
    return st.fixed_dictionaries({
        "objs": st.one_of(same, st.lists(obj, min_size=2, max_size=4)),
        "axes": st.lists(axis, min_size=3, max_size=3), "quantity": st.booleans(),
        "form": st.sampled_from(["scalar", "per argument", "tree"]),
        "out": st.lists(st.sampled_from([0, 1, 2, -1, -2]), min_size=2, max_size=2), "out_tree": st.booleans(),
        "bad": ints(-1, 2)}), prop


register("C08",
         Sub("history", make_history, quick=160, thorough=4000, shards=5, tshards=5, rule="at least two bodies"),
         Sub("stack", make_stack, quick=400, thorough=8000, shards=3, tshards=3, rule="at least two objects and a mapped argument"))
