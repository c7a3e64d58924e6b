"""C29: a number means the same in every form in which it can be given."""

import numpy as np

from ..core import Fail, Sub, ints, register

ASSUMPTIONS = ["metamorphic: the same numbers as Python floats and arrays of doubles; what these give is judged by the other properties"]

WHOLE = [0.0, 1.0, 2.0, 3.0, 5.0, -1.0, -2.0, 7.0]
HALF = [0.5, 1.5, 2.25, -0.75, 0.3]


class A:
    """An argument: values it may take, how many (None: a number), its unit, whether a list will do, and an array of no dimension."""

    def __init__(self, values, n=None, unit=None, lists=False, optional=False, arrays=True):
        self.values, self.n, self.unit, self.lists, self.optional, self.arrays = values, n, unit, lists, optional, arrays


POS = [1.0, 2.0, 3.0, 4.0, 0.5, 1.5, 2.25]
ANY = WHOLE + HALF
TIMES = [0.0, 1.0, 2.0, 3.0, -1.0, 5.0, 0.25, 1.5, -2.75]
FRACTION = [0.0, 0.0, 1.0, 0.5, 0.25]


def operations():
    """name -> (arguments, function of a dictionary of them and of a whole number)"""
    import jax
    import jax.numpy as jnp
    from jaxoplanet.core.kepler import kepler as solve
    from jaxoplanet.core.limb_dark import light_curve as core_flux
    from jaxoplanet.light_curves import limb_dark, transforms
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.orbits.keplerian import Body, Central, System
    from jaxoplanet.orbits.transit import TransitOrbit
    from jaxoplanet.orbits.ttv import TTVOrbit, compute_expected_transit_times
    from jaxoplanet.starry import light_curves as SL, utils as SU, ylm as Y
    from jaxoplanet.starry.core import basis, polynomials, rotation, solution
    from jaxoplanet.starry.doppler import radial_velocity, surface_radial_velocity
    from jaxoplanet.starry.multiprecision import flux as mpflux
    from jaxoplanet.starry.orbit import SurfaceSystem
    from jaxoplanet.starry.surface import Surface

    ops = {}

    def op(**spec):
        def deco(f):
            ops[f.__name__] = (spec, f)
            return f
        return deco

    t = A(TIMES, 4, "day")
    number = dict(inc=A(ANY), obl=A(ANY), theta=A(ANY))

    def turned(deg):
        return A(ANY, (deg + 1) ** 2)

    @op(M=A(ANY, 5), e=A([0.0, 0.0, 0.5, 0.25]))
    def kepler(a, k):
        return solve(a["M"], a["e"])

    @op(u=A([0.0, 1.0, 0.5, -0.25], 2, lists=True), b=A([0.0, 1.0, 2.0, 0.5, 1.25], 3), r=A([1.0, 2.0, 0.5, 0.25]))
    def occultation(a, k):
        return core_flux(a["u"], a["b"], a["r"])

    @op(b=A([0.0, 1.0, 2.0, 0.5, 1.25]), r=A([1.0, 2.0, 0.5, 0.25]))
    def occultation_of_a_number(a, k):
        return core_flux(np.array([0.3, 0.1]), a["b"], a["r"])

    star = dict(mass=A(POS, unit="M_sun"), radius=A(POS, unit="R_sun"))
    orbit = dict(star, size=A(POS, unit="R_sun", optional=True), weight=A(POS, unit="M_sun", optional=True), time=A(TIMES, unit="day", optional=True), Omega=A(ANY, unit="radian", optional=True),
                 plx=A(POS, unit="arcsecond", optional=True))

    def around(a, body):
        keep = {k: v for k, v in body.items() if v is not None}
        return System(Central(mass=a["mass"], radius=a["radius"]), bodies=[Body(radius=a["size"], mass=a["weight"], asc_node=a["Omega"], parallax=a["plx"], **keep)])

    def seen(S, a, K=None):
        out = [S.relative_position(a["t"]), S.relative_velocity(a["t"]), S.bodies[0].inclination, S.bodies[0].time_peri, S.bodies[0].total_mass, S.bodies[0].semimajor]
        if a["weight"] is not None:
            out.append(S.central_position(a["t"]))
        if a["weight"] is not None or K is not None:
            out.append(S.radial_velocity(a["t"]) if K is None else S.bodies[0].radial_velocity(a["t"], semiamplitude=K))
        return out

    @op(t=t, period=A([3.0, 5.0, 7.0, 2.5], unit="day"), b=A([0.0, 1.0, 0.5], unit=None, optional=True), **orbit)
    def circular(a, k):
        return seen(around(a, dict(period=a["period"], impact_param=a["b"], time_transit=a["time"])), a)

    @op(t=t, semi=A([8.0, 11.0, 9.5], unit="R_sun"), i=A([1.0, 1.5, 0.5], unit="radian", optional=True), **orbit)
    def by_size(a, k):
        return seen(around(a, dict(semimajor=a["semi"], inclination=a["i"], time_peri=a["time"])), a)

    @op(t=t, period=A([30.0, 50.0, 42.5], unit="day"), e=A([0.0, 0.5, 0.25]), omega=A(ANY, unit="radian"), K=A(POS), **orbit)
    def eccentric(a, k):
        return seen(around(a, dict(period=a["period"], eccentricity=a["e"], omega_peri=a["omega"], time_transit=a["time"])), a, a["K"])

    @op(t=t, period=A([30.0, 50.0, 42.5], unit="day"), e=A([0.0, 0.5]), way=A([0.0, 1.0, 2.0, 3.0]), s=A([0.0, 1.0, -1.0]), **{k: v for k, v in orbit.items() if k != "Omega"})
    def directions(a, k):
        c = [1.0, 0.0][int(abs(np.asarray(getattr(a["s"], "magnitude", a["s"]))))]
        a = dict(a, Omega=None)
        return seen(around(a, dict(period=a["period"], eccentricity=a["e"], sin_omega_peri=a["s"], cos_omega_peri=c)), a)

    @op(x=A(POS), y=A(POS))
    def of_stars(a, k):
        C = Central(**{n: v for n, v in zip((("mass", "radius"), ("mass", "density"), ("radius", "density"))[k % 3], (a["x"], a["y"]))})
        return [C.mass, C.radius, C.density]

    @op(period=A(POS, unit="day"), semi=A([8.0, 11.0, 9.5], unit="R_sun"), radius=A(POS, unit="R_sun", optional=True), weight=A([0.0, 0.25], unit="M_sun", optional=True))
    def stars_from_orbits(a, k):
        C = Central.from_orbital_properties(period=a["period"], semimajor=a["semi"], radius=a["radius"], body_mass=a["weight"])
        return [C.mass, C.radius, C.density]

    @op(t=t, period=A([3.0, 5.0, 4.5], unit="day"), b=A([0.0, 1.0, 0.5], unit="dimensionless"), r=A([1.0, 0.5, 0.25], unit="dimensionless"), t0=A(TIMES, unit="day"),
        how=A([1.0, 2.0, 0.75]))
    def shapes(a, k):
        o = TransitOrbit(period=a["period"], time_transit=a["t0"], impact_param=a["b"], radius_ratio=a["r"], **{("duration", "speed")[k % 2]: a["how"]})
        return [o.relative_position(a["t"]), o.speed, o.duration, o.central_radius, o.radius]

    @op(t=t, u1=A([1.0, 0.0, 0.5]), u2=A([0.0, 0.25]), r=A([0.5, 1.0], unit="R_sun"), period=A([3.0, 5.0, 4.5], unit="day"), b=A([0.0, 0.5]))
    def transits(a, k):
        S = System(Central(mass=2.0, radius=1.5), bodies=[Body(period=a["period"], radius=a["r"], impact_param=a["b"])])
        return limb_dark.light_curve(S, *(a["u1"], a["u2"])[:k % 3])(a["t"])

    @op(t=t, amplitude=A(POS), r=A([0.5, 1.0], unit="R_sun"), period=A([3.0, 5.0, 4.5], unit="day"), A0=A(POS))
    def eclipses(a, k):
        star = Surface(amplitude=a["A0"], normalize=False) if k % 2 else None
        return emission(SurfaceSystem(Central(mass=2.0, radius=1.5), star, bodies=[(Body(period=a["period"], radius=a["r"]), Surface(amplitude=a["amplitude"], normalize=False))]))(a["t"])

    @op(t=t, dt=A([1.0, 2.0, 0.5], unit="day"))
    def exposures(a, k):
        return transforms.integrate(lambda x: jnp.cos(x.to("day").magnitude), exposure_time=a["dt"], order=k % 3, num_samples=5)(a["t"])

    @op(t=t, period=A([3.0, 5.0, 4.5], unit="day"), t0=A(TIMES, unit="day"), width=A([1.0, 2.0, 0.5], unit="day", optional=True))
    def interpolated(a, k):
        return transforms.interpolate(lambda x: jnp.cos(x.to("day").magnitude), period=a["period"], time_transit=a["t0"], num_samples=7 + k % 3, duration=a["width"])(a["t"])

    @op(t=t, period=A([3.0, 4.0, 3.5], unit="day"), t0=A(TIMES, unit="day"), off=A([0.0, 1.0, -1.0, 0.25], 4, "day"), b=A([0.0, 0.5]), r=A([1.0, 0.25]), d=A([1.0, 0.5], unit="day"))
    def timing(a, k):
        o = TTVOrbit(period=a["period"], time_transit=a["t0"], ttvs=(a["off"],), duration=a["d"], impact_param=a["b"], radius_ratio=a["r"])
        return [o.relative_position(a["t"]), o.transit_times, o.ttvs]

    @op(t=t, tt=A([0.0, 1.0, -1.0, 0.25], 4, "day"), b=A([0.0, 0.5]), r=A([1.0, 0.25]), d=A([1.0, 0.5], unit="day"))
    def times_of_transits(a, k):
        o = TTVOrbit(transit_times=(a["tt"] + np.array([0, 5, 10, 15]) * (a["tt"].units if hasattr(a["tt"], "units") else 1),), duration=a["d"], impact_param=a["b"], radius_ratio=a["r"])
        return [o.relative_position(a["t"]), o.transit_times, o.ttvs, o.linear_period, o.linear_t0]

    @op(start=A([0.0, -1.0, -2.5]), end=A([5.0, 9.0, 7.25]), period=A([3.0, 2.0, 1.5], 2), t0=A(TIMES, 2))
    def expected(a, k):
        return [np.asarray(v) for v in compute_expected_transit_times(a["start"], a["end"], a["period"], a["t0"])]

    @op(x=A([1.0, 0.0, 0.5]), y=A([0.0, 1.0, -0.5]), z=A([1.0, 2.0]), theta=A(ANY), c=turned(2))
    def rotations(a, k):
        # the axis is of length one where it is along an axis of the frame
        axis = [(1, 0, 0), (0, 1, 0), (0, 0, 1)][k % 3]
        return rotation.dot_rotation_matrix(2, *axis, a["theta"])(a["c"])

    @op(theta=A(ANY), c=turned(2))
    def polar_rotations(a, k):
        return rotation.dot_rz(2, a["theta"])(a["c"])

    @op(tz=A(ANY), c=turned(2), **number)
    def projections(a, k):
        return [rotation.left_project(2, a["inc"], a["obl"], a["theta"], a["tz"], a["c"]), rotation.right_project(2, a["inc"], a["obl"], a["theta"], a["tz"], a["c"])]

    @op(b=A([0.0, 1.0, 2.0, 0.5, 1.25], 3), r=A([1.0, 2.0, 0.5, 0.25]))
    def integrals(a, k):
        return solution.solution_vector(k % 3 + 1)(a["b"], a["r"])

    @op(x=A([0.0, 1.0, 0.5], 2), y=A([0.0, 0.5], 2), z=A([0.0, 1.0, 0.5], 2))
    def monomials(a, k):
        return basis.poly_basis(k % 4)(a["x"], a["y"], a["z"])

    @op(c=turned(1), d=turned(1), f=A(ANY))
    def polys(a, k):
        P, Q = polynomials.Pijk.from_dense(a["c"]), polynomials.Pijk.from_dense(a["d"])
        return [(P * Q).todense(), (P + Q).todense(), (P * a["f"]).todense(), polynomials.polynomial_product_matrix(a["c"], 1) @ np.arange(4.0)]

    @op(c=A([2.0, 1.0, 3.0, 0.5], 4, lists=True), d=A([1.0, 2.0, 0.5], 9, lists=True), f=A(POS))
    def maps(a, k):
        P, Q = Y.Ylm.from_dense(a["c"], normalize=k % 2 == 0), Y.Ylm.from_dense(a["d"])
        return [(P * Q).todense(), (P * a["f"]).todense(), (a["f"] * P).todense(), P.normalize().todense(), P.todense(), P.tosparse().todense()]

    @op(x=A(POS), y=A(ANY), z=A(ANY))
    def maps_of_dictionaries(a, k):
        P = Y.Ylm({(0, 0): a["x"], (1, -1): a["y"], (2, 1): a["z"]})
        return [P.todense(), P.normalize().todense(), (P * P).todense()]

    @op(u=A([0.0, 1.0, 0.5, 0.25], 3, lists=True))
    def dark_maps(a, k):
        return Y.Ylm.from_limb_darkening(a["u"]).todense()

    @op(contrast=A([1.0, -1.0, 0.5]), r=A([1.0, 0.5]), lat=A([0.0, 1.0, -0.5]), lon=A(ANY))
    def spots(a, k):
        return Y.ylm_spot(3)(a["contrast"], a["r"], a["lat"], a["lon"]).todense()

    look = dict(u=A([0.0, 1.0, 0.5, 0.25], 2, lists=True), inc=A([1.0, 2.0, 0.5], optional=True), obl=A(ANY, optional=True), y0=A(POS), y1=A(ANY), period=A(POS), amplitude=A(POS), phase=A(ANY), size=A(POS))

    def surface(a, k):
        return Surface(y=Y.Ylm({(0, 0): a["y0"], (1, 1): a["y1"], (2, -1): 0.5}), u=a["u"], inc=a["inc"], obl=a["obl"], period=a["period"], amplitude=a["amplitude"], phase=a["phase"], radius=a["size"], normalize=k % 2 == 0)

    @op(theta=A(ANY), lat=A([0.0, 1.0, 0.5]), lon=A([0.0, 1.0, 0.5]), t=A(TIMES, 3), **look)
    def images(a, k):
        S = surface(a, k)
        return [S.render(a["theta"], 5, rv=k % 4 > 1), S.intensity(a["lat"], a["lon"]), S.rotational_phase(a["t"]), S.veq, S.amplitude]

    @op(theta=A(ANY), r=A([1.0, 0.5, 2.0]), x=A([0.0, 1.0, 0.25]), y=A([0.0, 1.0, 0.5]), z=A([1.0, 5.0, -1.0]), **look)
    def surfaces(a, k):
        S = surface(a, k)
        return [SL.surface_light_curve(S, a["r"], a["x"], a["y"], a["z"], a["theta"]), SL.surface_light_curve(S, theta=a["theta"])]

    @op(theta=A(ANY), r=A([1.0, 0.5, 2.0]), x=A([0.0, 1.0, 0.25]), y=A([0.0, 1.0, 0.5]), z=A([1.0, 5.0, -1.0]), **look)
    def velocities(a, k):
        return surface_radial_velocity(surface(a, k), a["r"], a["x"], a["y"], a["z"], a["theta"])

    @op(t=t, P=A([3.0, 5.0, 4.5], unit="day"), R=A([1.0, 0.5], unit="R_sun"), **look)
    def worlds(a, k):
        S = surface(a, k)
        W = SurfaceSystem(Central(mass=2.0, radius=1.5), S, bodies=[(Body(period=a["P"], radius=a["R"]), S if k % 4 > 1 else None)])
        return (SL.light_curve, radial_velocity)[k % 5 == 0](W)(a["t"])

    @op(b=A([0.0, 1.0, 0.5, 1.25], arrays=False), r=A([1.0, 0.5, 0.25], arrays=False), phi=A(ANY, arrays=False), y=A([1.0, 2.0, 0.5, -1.0], 4, arrays=False))
    def digits(a, k):
        return [float(mpflux.flux(ydeg=1, udeg=0)(a["b"], a["r"], y=a["y"], phi=a["phi"])), float(mpflux.flux(ydeg=0, udeg=2)(a["b"], a["r"], u=a["y"][:2]))]

    @op(radius=A(POS), **number)
    def graphics(a, k):
        return [SU.rotate_lines(v, a["inc"], a["obl"], a["theta"]) for v in SU.lon_lat_lines(n=2, pts=6, radius=a["radius"])]

    del jax
    return ops


NAMES = ["kepler", "occultation", "occultation_of_a_number", "circular", "by_size", "eccentric", "directions", "of_stars", "stars_from_orbits", "shapes", "transits", "eclipses", "exposures", "interpolated",
         "timing", "times_of_transits", "expected", "rotations", "polar_rotations", "projections", "integrals", "monomials", "polys", "maps", "maps_of_dictionaries", "dark_maps", "spots", "images", "surfaces",
         "velocities", "worlds", "digits", "graphics"]
SCALAR = ["float", "int", "numpy float", "numpy int", "0-d numpy", "0-d numpy of ints", "0-d jax", "0-d jax of ints"]
ARRAY = ["numpy", "numpy of ints", "jax", "jax of ints", "strided numpy", "list", "list of ints"]


def forms(arg):
    out = list(SCALAR[:None if arg.arrays else 4] if arg.n is None else ARRAY[:None if arg.lists else 5])
    if not arg.arrays:
        out = [f for f in out if "jax" not in f]
    if arg.unit:
        out += [f + ", quantity" for f in out]
    return out


def give(v, form, unit):
    import jax.numpy as jnp
    from jaxoplanet.units import unit_registry as ureg

    how = form.split(",")[0]
    whole = np.asarray(v).astype(int)
    out = {"float": lambda: float(v), "int": lambda: int(v), "numpy float": lambda: np.float64(v), "numpy int": lambda: np.int64(v), "0-d numpy": lambda: np.array(float(v)), "0-d numpy of ints": lambda: whole,
           "0-d jax": lambda: jnp.asarray(float(v)), "0-d jax of ints": lambda: jnp.asarray(whole), "numpy": lambda: np.array(v, float), "numpy of ints": lambda: whole, "jax": lambda: jnp.asarray(np.array(v, float)),
           "jax of ints": lambda: jnp.asarray(whole), "strided numpy": lambda: np.stack([np.array(v, float), np.zeros(len(v))], axis=1)[:, 0], "list": lambda: [float(x) for x in v],
           "list of ints": lambda: [int(x) for x in v]}[how]()
    return out * ureg.Unit(unit) if form.endswith("quantity") and unit != "dimensionless" else out * ureg.dimensionless if form.endswith("quantity") else out


def numbers(out):
    import jax

    out = jax.tree_util.tree_map(lambda q: q.magnitude if hasattr(q, "magnitude") else q, out, is_leaf=lambda q: hasattr(q, "magnitude"))
    return [np.asarray(v) for v in jax.tree_util.tree_leaves(out)]


def make(prec):
    from hypothesis import strategies as st

    ops = operations()
    assert set(ops) == set(NAMES)

    def prop(case, ctx):
        name, k = case["op"], case["k"]
        spec, f = ops[name]
        plain, given, told = {}, {}, {}
        for a, s in spec.items():
            if s.optional and not case["args"][a]["there"]:
                plain[a] = given[a] = None
                continue
            kind = case["args"][a]["kind"]
            # whole values, or any; of the whole ones, integers more often than not
            values = [x for x in s.values if x % 1 == 0] if kind else s.values
            v = [values[i % len(values)] for i in case["args"][a]["v"]]
            v = v[0] if s.n is None else v
            fs = forms(s)
            if np.any(np.asarray(v) % 1):
                fs = [x for x in fs if "int" not in x]
            elif kind > 1:
                fs = [x for x in fs if "int" in x]
            form = fs[case["args"][a]["form"] % len(fs)]
            plain[a] = float(v) if s.n is None else np.array(v, float)
            given[a] = give(v, form, s.unit)
            told[a] = f"{v} as {form}"
            ctx.label(form)
        want = numbers(f(plain, k))
        try:
            got = numbers(f(given, k))
        except Exception as e:
            raise Fail(f"{name} {k} of {told}: {type(e).__name__}: {str(e)[:300]}") from e
        ctx.true(f"{name}: number of results", len(got) == len(want), f"{len(got)} and {len(want)}")
        for i, (x, y) in enumerate(zip(got, want)):
            ctx.true(f"{name}: shape of result {i}", x.shape == y.shape, f"{x.shape} and {y.shape} of {told}")
            x, y = x.astype(float), y.astype(float)
            ok = np.isfinite(y)
            ctx.true(f"{name}: not finite", np.array_equal(ok, np.isfinite(x)), f"{x} and {y} of {told}")
            ctx.close("result", x[ok], y[ok], 1e-6 * (1 + np.abs(y[ok]).max() if ok.any() else 1), info=f"{name} {k}, result {i}, of {told}")
        ctx.label(name)
        ctx.nt(any("int" in v or "quantity" in v or "jax" in v for v in told.values()))

    def of(name):
        spec = ops[name][0]
        arg = lambda s: st.fixed_dictionaries(dict(v=st.lists(ints(0, 8), min_size=s.n or 1, max_size=s.n or 1), form=ints(0, 15), kind=ints(0, 3), there=st.booleans()))  # noqa: E731
        return st.fixed_dictionaries(dict(op=st.just(name), k=ints(0, 5), args=st.fixed_dictionaries({a: arg(s) for a, s in spec.items()})))

    return ints(0, len(NAMES) - 1).flatmap(lambda i: of(NAMES[i])), prop


register("C29", Sub("forms", make, quick=720, thorough=12000, shards=6, tshards=8, rule="an argument given as something else than a Python float or an array of doubles"))
