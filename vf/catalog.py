"""One list of the properties; `python -m vf.catalog` writes properties.jsonl, MANIFEST.json and
the per-property part of DESIGN.md from it."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/jaxoplanet/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, design, note, observe=(), technique=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
        mech=mech, design=design, note=note, observe=list(observe),
        technique=technique or "property-based testing (Hypothesis), explicit oracle"))


P("C01", "Kepler's equation is solved for every mean anomaly and eccentricity",
  "For every mean anomaly and every eccentricity in [0, 1) the solver returns the sine and cosine of the true "
  "anomaly of the orbit, to a few rounding errors at the conditioning of the problem, in double and in single "
  "precision. The pair lies on the unit circle, is periodic in the mean anomaly, odd/even under its sign, and the "
  "same for scalars, arrays and broadcast arguments.",
  ["inputs"], "all real mean anomalies (several turns, next to apsides, denormal-small) x all eccentricities in [0,1), f32 and f64",
  "Existing tests sample a 1-d grid of anomalies at a handful of eccentricities; the worst errors of the starter and "
  "refinement sit in corners (e near 1 and M near 0, range reduction) that a grid does not contain.",
  ["core/kepler.py"], [("starter and third-order refinement", "core/kepler.py starter/refine"), ("range reduction to [0, pi]", "core/kepler.py _kepler")],
  "Batches of 64 (M, e) pairs, log-distributed next to e=1, M=0, M=k*pi, compared with an 80-bit Newton/bisection solver; "
  "metamorphic relations (period, parity, broadcasting, scalar vs array) in a second sub-check.",
  "Random search over the whole domain with an extended-precision reference; tolerance follows the conditioning of the problem.",
  ["jaxoplanet.core.kepler.kepler"])

P("C02", "Derivatives through the Kepler solver are the analytic ones",
  "First derivatives (forward and reverse) and second derivatives of the solver's output with respect to mean anomaly and "
  "eccentricity equal the analytic derivatives of the true anomaly, everywhere in the domain, including circular orbits and apsides.",
  ["inputs"], "all mean anomalies x eccentricities in [0,1), forward, reverse and nested differentiation, f32 and f64",
  "Tests use finite differences at a few points; a wrong custom JVP at e=0, at the apsides or in second order is invisible there.",
  ["core/kepler.py"], [("custom JVP rule", "core/kepler.py kepler_jvp")],
  "Random batches; jax.jvp, jax.vjp and nested derivatives compared with closed-form derivatives in extended precision.",
  "Random search; relative tolerance set by the conditioning (1-e)^-k of each derivative.",
  ["jax.jvp/grad of jaxoplanet.core.kepler.kepler"])

P("C03", "Limb-darkened occultation flux equals the integral over the hidden disc",
  "For every impact parameter, occultor radius and set of polynomial limb-darkening coefficients the returned flux change is minus "
  "the fraction of the disc-integrated light that the occultor hides: zero without contact, -1 when everything is hidden. It is "
  "linear in the intensity profile, symmetric under the sign of b, and independent of how coefficients and arguments are batched.",
  ["inputs"], "impact parameters from 0 past 1+r including exact contacts, radii 1e-5..100, 0..6 coefficients, quadrature orders 10/20/50, f32 and f64",
  "Tests compare a few radii on a grid with one other implementation, which is not installed here, and never hit exact contact points "
  "or large/small occultors with high-order coefficients.",
  ["core/limb_dark.py"], [("Green's-theorem solution vector", "core/limb_dark.py solution_vector"), ("kite area / kappas at contacts", "core/limb_dark.py kappas, kite_area"),
   ("change of basis of u", "core/limb_dark.py greens_basis_transform")],
  "Geometry generator weighted to contacts (from both sides, by log-distributed distances down to exact), compared with an "
  "independent piecewise Gauss-Legendre radial integral; linearity, mixture, sign and shape relations in a second sub-check.",
  "Random search; quadrature-order dependent tolerance measured with margin, so errors below 6e-6 (order 10) or 1e-8 (order 50) are not seen.",
  ["jaxoplanet.core.limb_dark.light_curve"])

P("C04", "Gradients of the occultation flux are finite and correct",
  "The derivative of the occultation flux with respect to impact parameter, radius and every limb-darkening coefficient is finite for "
  "every geometry (also at exact contacts, b=0, r=0 and b=r) and, away from contact cusps, equals the derivative of the hidden flux.",
  ["inputs"], "same geometry space as the flux, including degenerate points, reverse mode, f32 and f64",
  "Tests check finiteness at a few hand-picked points; NaNs from sqrt/arctan2/where appear on measure-zero sets only.",
  ["core/limb_dark.py", "utils.py"], [("where-guarded square roots", "utils.py zero_safe_sqrt; core/limb_dark.py")],
  "jax.grad on generated geometries compared with a line integral along the occultor's limb (db, dr) and disc integrals (du).",
  "Random search weighted to degenerate points; within 1e-8 of a contact only finiteness is judged.",
  ["jax.grad of jaxoplanet.core.limb_dark.light_curve"])

P("C05", "Sky positions on Keplerian orbits follow the two-body problem",
  "Whatever parameterisation describes the orbit, the relative, body and central positions at any time are those of the two-body "
  "problem with the documented axis convention (z towards the observer, transit at time_transit, periastron at time_peri, optional parallax and node).",
  ["inputs"], "all eccentricities < 0.95, arguments of periapsis, nodes, inclinations/impact parameters, masses, epochs, times",
  "Tests compare selected orbits with one reference package; the sign and phase conventions interact (e, omega, node, epoch) and only a full product of cases separates them.",
  ["orbits/keplerian.py"], [("orbital to sky rotation", "orbits/keplerian.py OrbitalBody._rotate_vector"), ("epoch handling", "orbits/keplerian.py time_ref, _warp_times")],
  "Random systems and times against an independent numpy two-body model with the constants written out again and an extended-precision Kepler solver.",
  "Random search, tolerance derived from propagation of rounding through the mean anomaly.",
  ["System.relative_position/position/central_position"])

P("C06", "Velocities are the time derivatives of the positions, and momentum balances",
  "Reported velocities equal the time derivative of the reported positions, body and central velocities balance in momentum, and the radial "
  "velocity of the centre equals its line-of-sight velocity with the documented sign, also when the orbit is given a semi-amplitude instead of masses.",
  ["inputs"], "all orbits of the previous property x times x mass or semi-amplitude descriptions",
  "Tests compare a few orbits with finite differences; semi-amplitude bodies, nodes and high eccentricities are not sampled together.",
  ["orbits/keplerian.py"], [("velocity rotation and scaling", "orbits/keplerian.py OrbitalBody._get_velocity, radial_velocity")],
  "Closed-form two-body velocities in numpy, jax.jacfwd of the reported positions as a second oracle, momentum sum, and semi-amplitude consistency.",
  "Random search.", ["System.velocity/relative_velocity/central_velocity/radial_velocity"])

P("C07", "Equivalent orbit descriptions agree and contradictory ones are rejected",
  "Two descriptions of the same orbit (period or semi-major axis, inclination or impact parameter, time of transit or of periastron, omega or its "
  "sine and cosine, mass/radius/density pairs) give the same derived elements, which satisfy Kepler's third law. Under- or over-determined descriptions are rejected with an error.",
  ["inputs", "configurations"], "all subsets of parameterisations x orbit values x unit choices",
  "The number of parameter subsets times values is far beyond the examples tested; one swapped formula shows only for a particular combination (e.g. eccentric with impact parameter).",
  ["orbits/keplerian.py"], [("argument resolution", "orbits/keplerian.py Body/Central/OrbitalBody __init__")],
  "One orbit resolved analytically, then described in two randomly chosen ways and units; derived values compared with formulas written out again; generated invalid descriptions must raise.",
  "Random search over descriptions and units.", ["Central, Body, OrbitalBody attributes"])

P("C08", "A system behaves as the list of its bodies, however it was built",
  "After any sequence of adding bodies (in constructor or one at a time, with same or different optional parameters, units, dtypes), every vector-valued observable "
  "of the system equals the stack of the observables of its bodies in order, and mapping a function over the bodies equals the Python loop for every choice of mapped axes.",
  ["histories", "inputs"], "sequences of add operations over heterogeneous bodies, mapped functions with any in_axes and in/out shapes",
  "Stacking falls back to different code paths for homogeneous and heterogeneous bodies; tests cover a few two-body systems.",
  ["object_stack.py", "orbits/keplerian.py"], [("stack or loop dispatch", "object_stack.py ObjectStack.vmap"), ("add_body", "orbits/keplerian.py System.add_body")],
  "Generated histories of add operations interleaved with observations, compared with a model holding the plain list; plus direct ObjectStack cases with random trees and in_axes.",
  "Random model-based search.", ["System.* vectorised observables; ObjectStack.vmap"])

P("C09", "Orbits given by transit shape reproduce that shape",
  "An orbit described by period, duration or speed, impact parameter and radius ratio puts the occultor at the stated impact parameter at mid-transit, makes first "
  "and last contact exactly one duration apart, repeats every period and is never in front of the star half a period away; descriptions with neither duration nor speed are rejected.",
  ["inputs", "configurations"], "periods, durations, impact parameters up to grazing, radius ratios, epochs, scalars or vectors of planets, f32 and f64",
  "Tests check one orbit.", ["orbits/transit.py"], [("speed from duration", "orbits/transit.py TransitOrbit.__init__"), ("phase folding", "orbits/transit.py relative_position")],
  "Closed-form straight-line geometry written out again; contact times located from the light curve as a second observer.",
  "Random search.", ["TransitOrbit.*; limb_dark.light_curve(TransitOrbit)"])

P("C10", "Transit timing variations move transits to the stated times",
  "With given transit times, or linear ephemeris plus offsets, the k-th transit of each planet is centred at the k-th stated time and the position near it is that of the underlying orbit; "
  "the derived linear ephemeris is the least-squares one; building, differentiating and compiling the orbit give the same numbers.",
  ["inputs", "histories"], "numbers of transits, gaps in the numbering, offsets, planets of different sizes, units, eager or compiled",
  "Tests use one example; binning errors arise at the ends, with missing transits, and when offsets approach the boundaries between transits.",
  ["orbits/ttv.py"], [("time warping by bins", "orbits/ttv.py _get_model_dt / _warp_times"), ("linear ephemeris", "orbits/ttv.py compute_expected_transit_times and least squares")],
  "Generated ephemerides with gaps; numpy least squares and nearest-transit geometry as oracle; gradients and jit compared.",
  "Random search; transit times increasing in the transit number.", ["TTVOrbit.*"])

P("C11", "Light curves of systems are the sum of what each body hides at each time",
  "For every system and time, each body's limb-darkened light-curve column equals the eclipse flux at the body's projected separation if the body is in front and zero otherwise, "
  "with per-body order preserved, for any shape of the time array; values and gradients are finite at every alignment, including exactly central ones.",
  ["inputs"], "systems of 1..3 bodies of any shapes/sizes, any times and time-array shapes, all limb-darkening sets",
  "Tests compare one or two systems; front/back selection, units of separation and body order need the product of cases.",
  ["light_curves/limb_dark.py", "light_curves/utils.py", "light_curves/emission.py"], [("front/back mask", "light_curves/limb_dark.py light_curve_impl"), ("vectorisation over time", "light_curves/utils.py vectorize")],
  "End-to-end against the two-body oracle combined with the eclipse quadrature; exact alignments generated for the finiteness sub-check.",
  "Random search.", ["jaxoplanet.light_curves.limb_dark_light_curve"])

P("C12", "Exposure-time integration is the stated quadrature of the light curve",
  "The exposure-integrated light curve equals the midpoint, trapezoidal or Simpson average of the instantaneous one over the exposure centred on each time, for any function, time "
  "shape and extra arguments; constants and (order permitting) polynomials are exact; invalid options are rejected.",
  ["inputs", "configurations"], "orders 0/1/2, sample counts, exposure times with units, wrapped functions (sinusoids, polynomials, real light curves), argument passing styles",
  "Tests check one transit at one exposure time.", ["light_curves/transforms.py"], [("stencil and weights", "light_curves/transforms.py integrate")],
  "Reference composite rules in numpy and exact averages of sinusoids/polynomials; wrapped real light curves; invalid requests must raise.",
  "Random search.", ["jaxoplanet.light_curves.transforms.integrate"])

P("C13", "Interpolated light curves equal linear interpolation of the original",
  "The pre-computed interpolated light curve equals, at every time, the linear interpolation on the stated grid of the original after folding on the period around the transit time, and the "
  "edge value outside the window, so the error is second order in the grid spacing.",
  ["inputs"], "periods, epochs (also negative, many periods away), windows, sample counts, times of any shape",
  "Tests use one period and epoch.", ["light_curves/transforms.py"], [("folding and jnp.interp", "light_curves/transforms.py interpolate")],
  "numpy reconstruction of the fold and of the interpolation for generated functions.",
  "Random search; window starts and ends at the same flux.", ["jaxoplanet.light_curves.transforms.interpolate"])

P("C14", "Units are converted consistently and wrong dimensions rejected",
  "Every quantity argument gives the same result whichever compatible unit expresses it; bare numbers are taken in the documented unit; incompatible units raise instead of computing; "
  "defaults and optional arguments behave as without the decorator.",
  ["inputs", "programs"], "generated function signatures with unit specifications, call styles, units from the registry, values, pytrees of quantities",
  "Tests check a handful of signatures and units.", ["units/decorator.py", "units/field.py", "units/registry.py"], [("quantity_input", "units/decorator.py"), ("unit fields", "units/field.py")],
  "Generated signatures and calls run through the decorator, compared with a model that converts with SI factors written out in the check; unit-carrying module fields; constants of the registry.",
  "Random search over programs (signatures) and inputs.", ["units.quantity_input, units.field, unit_registry"])


P("C15", "The polynomial basis of maps and its occulted integrals are exact",
  "For every degree the tables that carry a map from spherical harmonics to polynomials to Green's basis describe the same functions on the disc, limb darkening included, and the stored disc "
  "integrals are the integrals of the basis. For every occultor position and radius the solution vector is the integral of each basis function over the part of the disc left visible, to the "
  "precision of its quadrature order.",
  ["inputs"], "degrees 0..14, points anywhere on the sphere, limb darkening up to degree 8; occultor distances and radii from contacts (to 1e-13) to 100 radii, either sign, orders 20 and 60",
  "Tests compare tables of a few degrees with another implementation (mostly skipped here) and integrals at some radii; single entries of high degree and geometries at the contacts are out of their reach.",
  ["starry/core/basis.py", "starry/core/solution.py"],
  [("change of basis matrices", "starry/core/basis.py A1, A2_inv, U, poly_basis"), ("disc integrals", "starry/core/solution.py rT"), ("occulted integrals", "starry/core/solution.py solution_vector, q_integral, p_integral")],
  "Tables against exact rational spherical-harmonic polynomials and closed-form disc integrals, and as functions at generated points; occulted integrals (mapped back to monomials) against Gauss quadrature of the hidden region.",
  "Random search; occulted integrals to 8e-7 (order 20) or 6e-9 (order 60), smaller errors are not seen.",
  ["jaxoplanet.starry.core.basis", "jaxoplanet.starry.core.solution"])

P("C16", "Maps add, scale and multiply as the functions they stand for",
  "Polynomial and spherical-harmonic maps, sparse or dense, of any pair of degrees: sums, scalings and products have the values of the pointwise operation, conversions between dense arrays, indices "
  "and sparse entries lose nothing, and normalizing divides by the mean coefficient.",
  ["inputs", "programs"], "pairs of maps of degree 0..6, any subset of the entries present (also exact zeros), scalars, index round trips to large n",
  "Tests multiply a few dense maps; sparse maps with missing entries, unequal degrees and zeros follow other paths.",
  ["starry/core/polynomials.py", "starry/ylm.py"],
  [("polynomials", "starry/core/polynomials.py Pijk, polynomial_product, polynomial_product_matrix"), ("spherical harmonics", "starry/ylm.py Ylm, product")],
  "Generated sparse maps; every operation is compared through the values of the functions on a grid that determines them.",
  "Random search; equality of functions to rounding.", ["jaxoplanet.starry.core.polynomials.Pijk", "jaxoplanet.starry.ylm.Ylm"])

P("C17", "Rotating a map's coefficients rotates its function",
  "For every axis, angle, degree and map, the rotated coefficients describe the rotated function, whether by matrices, by Euler products, batched or through the projection onto the sky by inclination, obliquity and "
  "phase (each of which may be left out). The transposed projection is its inverse, and the axis and angle reported for a whole orientation generate it.",
  ["inputs", "configurations"], "axes of any kind (coordinate axes, next to them, not normalized), angles (0, half turns, many turns, tiny), degrees 0..10, angles given or None, f32 and f64",
  "Tests use random axes at a few degrees; identity, half turns and rotations next to an axis are the singular points of the Euler decomposition and are not sampled.",
  ["starry/core/rotation.py", "starry/core/s2fft_rotation.py"],
  [("rotation", "starry/core/rotation.py dot_rotation_matrix, compute_rotation_matrices"), ("projection", "starry/core/rotation.py left_project, right_project"), ("Wigner recursion", "starry/core/s2fft_rotation.py")],
  "The oracle samples the rotated function on a spherical quadrature grid and projects it back; generated axes and angles concentrate on the singular configurations.",
  "Random search; tolerance follows the loss of precision of an Euler decomposition next to its poles.",
  ["jaxoplanet.starry.core.rotation"])

P("C18", "Wigner 3-j symbols and Clebsch-Gordan coefficients are right",
  "For all angular momenta and projections up to the size the calculator was made for, the returned symbols equal Racah's formula, symmetries and selection rules included; a calculator gives the same values "
  "whatever it was asked before.",
  ["inputs", "histories"], "angular momenta up to 40, all projections (extreme, zero, forbidden), sequences of calls of one calculator",
  "Tests compare a short list of symbols; the recursion changes method in the non-classical regions and reuses work arrays between calls.",
  ["starry/core/wigner3j.py"], [("three-term recursion in both directions", "starry/core/wigner3j.py Wigner3jCalculator"), ("wrappers", "starry/core/wigner3j.py Wigner3j, clebsch_gordan")],
  "Sequences of calls of one calculator, each compared with Racah's sum in integer arithmetic.", "Random search; exact oracle.",
  ["jaxoplanet.starry.core.wigner3j"])

P("C19", "Surfaces look as their map, orientation and limb darkening say",
  "Rendered images, intensities at latitudes and longitudes, velocity images, drawn graticules and figures show the map turned by phase, inclination and obliquity, darkened towards the limb and scaled by the amplitude, "
  "NaN off the disc; figures are drawn on the axes given and at the radius of the body. Amplitude, normalization, phase and equatorial velocity have their documented values.",
  ["inputs", "configurations"], "maps of degree 0..5, up to 3 limb darkening coefficients, inclination and obliquity given or None, normalized or not, any phase, point, radius and resolution",
  "Tests look at one or two orientations; signs of obliquity, longitude and rotation compensate in symmetric configurations.",
  ["starry/surface.py", "starry/utils.py", "starry/visualization.py"],
  [("intensity", "starry/surface.py _intensity, intensity, render"), ("lines on the sphere", "starry/utils.py, starry/visualization.py graticule"), ("figures", "starry/visualization.py show_surface")],
  "The map evaluated in its own frame at the inversely rotated point; figures drawn with a non-interactive matplotlib backend and read back.", "Random search.",
  ["Surface.render, Surface.intensity, show_surface, graticule"])

P("C20", "Flux of a mapped surface is the light of its visible part",
  "For every map, limb darkening, orientation, phase and occultor, the flux is the integral of the visible intensity over the disc (pi times the mean for a uniform map is 1), times the amplitude: unocculted, partly or "
  "wholly hidden, occultor behind or in front, at contacts and at the centre.",
  ["inputs", "configurations"], "maps to degree 6, limb darkening to degree 3, orientations given or None, occultor radius 1e-3..50 at any position, orders 20/60, higher precision mode, f32 and f64",
  "Tests compare particular maps with another implementation at a few radii; special positions (contacts, b=0, r=1, occultor larger than the star) need a generator aimed at them.",
  ["starry/light_curves.py", "starry/core/solution.py", "starry/core/basis.py"],
  [("design vector of a surface", "starry/light_curves.py surface_light_curve, _rv/_flux"), ("occulted integrals", "starry/core/solution.py")],
  "Gauss quadrature of the map times limb darkening over the disc, minus the hidden region, in an independent frame.",
  "Random search; 8e-7 of the scale at order 20, 6e-9 at order 60.", ["jaxoplanet.starry.light_curves.surface_light_curve"])

P("C21", "Radial velocity of a surface is its light-weighted velocity",
  "The radial velocity of a rotating surface is the line-of-sight velocity of solid rotation averaged over the visible disc with the visible intensity as weight, for every map, orientation and occultor (the Rossiter-McLaughlin effect); it does not depend on "
  "the amplitude and is zero for a surface seen from the pole, not rotating, or hidden. The velocity field itself is that of a rotation omega = omega_eq (1 - alpha sin^2 latitude), for every inclination, obliquity and shear.",
  ["inputs", "configurations"], "maps to degree 5, limb darkening to degree 3, orientations given or None, occultors as for the flux",
  "Tests compare one configuration with a numerical integral.", ["starry/doppler.py"],
  [("velocity field expansion", "starry/doppler.py rv_map_expansion"), ("ratio of two fluxes", "starry/doppler.py surface_radial_velocity")],
  "Ratio of two Gauss quadratures over the visible part of the disc; the field evaluated at points of the sphere.", "Random search; not judged where nearly no light is visible.",
  ["jaxoplanet.starry.doppler.surface_radial_velocity, rv_map_expansion"])

P("C22", "Systems of mapped bodies: each body's light, occulted by the right others",
  "Light curves, emission curves and radial velocities of a system give, for every time and every body, the observable of that body's surface at its rotational phase, hidden by the bodies in front of it and by nothing else, "
  "in the order the bodies were added and whichever way they were added; bodies without surface give zero.",
  ["inputs", "histories", "configurations"], "systems of 0..3 bodies with different kinds of surfaces, given as lists, surface bodies or by adding, scalar to 2-d times in and around transits and eclipses",
  "Tests use one planet, or systems at fixed parameters; the order of bodies, the frame of the eclipse and the scaling of radii show only in mixed systems.",
  ["starry/orbit.py", "starry/light_curves.py", "starry/doppler.py", "starry/system_observable.py", "light_curves/emission.py"],
  [("system of surfaces", "starry/orbit.py SurfaceSystem"), ("who hides whom", "starry/system_observable.py"), ("observables", "starry/light_curves.py light_curve, starry/doppler.py radial_velocity, light_curves/emission.py light_curve")],
  "Independent two-body positions and disc quadratures, body by body, for generated systems and times aimed at transits and eclipses.",
  "Random search over six kinds of systems; shadows of several bodies in front of the central are summed as the library does.",
  ["jaxoplanet.starry.light_curves.light_curve, doppler.radial_velocity, light_curves.emission.light_curve"])

P("C23", "Spots and limb-darkened maps are the maps described",
  "A spot map has the documented profile around the stated latitude and longitude for every contrast, radius, degree and resolution, with finite and correct derivatives; a map made from limb-darkening coefficients has the "
  "intensity of that law over the visible disc, unit flux, and the light curves of that law.",
  ["inputs"], "contrasts, radii, positions (poles, zero, several turns), degrees 0..6, limb darkening of any degree to 6, f32 and f64",
  "Tests draw one spot.", ["starry/ylm.py"], [("spot expansion", "starry/ylm.py ylm_spot, Bp, spot_profile"), ("limb darkening as a map", "starry/ylm.py Ylm.from_limb_darkening")],
  "A numpy Legendre fit as a function of the angular distance to the spot; the law itself on the disc; both light curves of one law.", "Random search.",
  ["jaxoplanet.starry.ylm.ylm_spot, Ylm.from_limb_darkening"])

P("C24", "Objects and observables are transparent to JAX transformations",
  "Orbits, systems, surfaces and maps give the same observables evaluated eagerly, compiled, passed to compiled functions, rebuilt from their leaves, batched, scanned or differentiated, and two objects of the same make have the same structure whatever "
  "the values of their parameters.",
  ["configurations", "inputs"], "17 kinds of objects and observables x 8 ways of evaluating them x random parameters and times (near transits)",
  "Tests evaluate mostly eagerly, one way each; a branch on a concrete value, a parameter lost by flattening or constants that depend on tracing appear only in another mode.",
  ["orbits/keplerian.py", "orbits/transit.py", "orbits/ttv.py", "object_stack.py", "starry/surface.py", "starry/ylm.py", "starry/orbit.py", "light_curves/limb_dark.py"],
  [("modules as pytrees", "orbits/keplerian.py System, Body, Central; starry/surface.py Surface; starry/ylm.py Ylm"), ("mapping over bodies", "object_stack.py ObjectStack")],
  "Metamorphic: one whole-program compiled evaluation against seven other ways, same parameters.", "Random search; the values themselves are decided by the other properties.",
  ["jax.jit/vmap/scan/jvp/vjp of the public observables"])

P("C25", "The arbitrary-precision reference equals the integrals it stands for",
  "The multiprecision fluxes, tables, integrals and rotations equal the mathematical ones for every geometry (also without occultation, concentric or wholly hidden), and a value does not depend on what was computed or cached before. They have the digits asked for with mp.dps, whenever it was set.",
  ["inputs", "histories"], "maps of degree 0..4, limb darkening to degree 5, orientations, geometries with contacts, histories of evaluations over default, shared and fresh caches",
  "Tests use this module as the reference of other tests and check it only where it is known to work.",
  ["starry/multiprecision/flux.py", "starry/multiprecision/basis.py", "starry/multiprecision/rotation.py", "starry/multiprecision/solution.py", "starry/multiprecision/precision.py", "starry/multiprecision/utils.py"],
  [("flux with caches", "starry/multiprecision/flux.py flux"), ("tables", "starry/multiprecision/basis.py"), ("integrals", "starry/multiprecision/solution.py sT, rT, solution_limb_dark")],
  "Histories of evaluations against disc quadratures (2e-9 of the scale), with earlier evaluations repeated; tables against exact ones. `digits`: sequences of calls at 15, 30 and 45 digits, changed in between, against rotations and one-dimensional quadratures of closed arcs written here in an mpmath context of its own with 80 digits.",
  "Random search; between 1e-10 and rounding, errors are seen by `digits` only (degree at most 3).", ["jaxoplanet.starry.multiprecision"])

P("C26", "Derivatives of surface observables are finite and correct",
  "Fluxes, velocities, intensities and images of surfaces and of systems have finite derivatives with respect to map, orientation, limb darkening, phase, time, orbit and occultor at every position (also at the centre, polar views, exact transit times), "
  "equal in forward and reverse mode and to the slope of the observable.",
  ["inputs", "configurations"], "surfaces and systems of several kinds, random directions of all or single groups of parameters, occultors at contacts and at the centre",
  "Tests differentiate at a few ordinary points; NaN from square roots and angles at special points, and wrong custom rules, do not show there.",
  ["starry/light_curves.py", "starry/doppler.py", "starry/core/solution.py", "starry/core/rotation.py", "starry/surface.py", "light_curves/emission.py"],
  [("occulted integrals", "starry/core/solution.py"), ("position of the occultor", "starry/light_curves.py"), ("rotations", "starry/core/rotation.py")],
  "jvp, vjp and fourth-order differences of the observable along generated directions.",
  "Random search; finiteness everywhere, values away from contacts by 1e-2.", ["jax.jvp/grad of surface and system observables"])


P("C27", "Derivatives of orbits and their light curves are finite and correct",
  "Positions, velocities, radial velocities and light curves of orbits (Keplerian, from transit shapes, with timing variations, exposure-integrated, interpolated) have, "
  "with respect to time and to every parameter and in whatever description the orbit is given, the derivatives of the functions they stand for, the same in forward and reverse mode and "
  "finite wherever the function is differentiable: also for circular orbits, zero impact parameter, mid-transit, out of transit, edge-on, non-transiting orbits and transits at the apsides.",
  ["inputs", "configurations"], "descriptions of orbits x times x parameters, special values over-represented; forward and reverse mode, f32 and f64",
  "Tests differentiate one orbit at ordinary values; a parameter that reaches the result by two paths, one of which is lost or singular, has wrong derivatives with right values.",
  ["orbits/keplerian.py", "orbits/transit.py", "orbits/ttv.py", "light_curves/limb_dark.py", "light_curves/transforms.py"],
  [("shape, epoch and tilt of an orbit", "orbits/keplerian.py OrbitalBody"), ("speed and chord of a transit", "orbits/transit.py"), ("interpolation and integration", "light_curves/transforms.py")],
  "The documented orbit is written out in numpy and differentiated by the complex step; the flux follows by the chain rule with integrals along the occultor's limb. "
  "Random descriptions and times; every parameter is compared in forward and in reverse mode; transit orbits and interpolated curves against their closed forms.",
  "Random search; fluxes are compared away from contacts by 1e-6, finiteness everywhere.", ["jax.jvp/grad of relative_position, radial_velocity, light_curve"])


P("C28", "Results do not depend on history, and arguments are not modified",
  "What a call returns is a function of its arguments: it is the same whatever was computed before it, in this or another order, compiled or not, and when it is repeated. No call changes the arrays, lists, dictionaries, maps, surfaces, bodies or systems it is given, nor the settings of the process (digits of mpmath, configuration of jax, state of numpy and matplotlib, environment).",
  ["histories"], "sequences of up to 12 calls of 27 operations over the whole package, each in several variants, on shared objects; plain, compiled, differentiated, vectorized",
  "Caches, shared workspaces and in-place updates show in particular sequences of calls only; each test makes one call with fresh arguments.",
  ["orbits/keplerian.py", "orbits/transit.py", "orbits/ttv.py", "light_curves/limb_dark.py", "light_curves/transforms.py", "object_stack.py", "units/decorator.py", "starry/ylm.py", "starry/surface.py", "starry/orbit.py", "starry/light_curves.py", "starry/core/basis.py", "starry/core/rotation.py", "starry/core/solution.py", "starry/core/wigner3j.py", "starry/multiprecision/flux.py"],
  [("bodies of a system", "orbits/keplerian.py System"), ("spherical harmonics", "starry/ylm.py Ylm"), ("3j symbols", "starry/core/wigner3j.py Wigner3jCalculator"), ("caches", "starry/multiprecision/flux.py")],
  "`history`: each sequence is evaluated in two new processes, in order and in the opposite order, each of them twice. Values of equal calls agree to 1000 eps, arguments and settings are compared bit by bit with what they were when they were made. `arguments`: many shorter sequences in one process, with the same comparison of arguments and settings and the first call repeated.",
  "Random search; a sequence of at most 12 calls of at most 3 operations. That the values are right is left to the other properties.",
  ["jaxoplanet"])

P("C29", "A number means the same in every form in which it can be given",
  "Wherever a number or an array of numbers is asked for, the value alone decides: Python floats and integers, scalars and arrays of numpy and JAX of floats or integers, strided views and, where a unit is meant, "
  "quantities in this unit give the same result. Integers are neither rejected nor is anything computed from them truncated.",
  ["inputs", "configurations"], "33 operations over the whole public interface; every argument on its own in one of 4 to 16 forms; whole and fractional values, optional arguments given or not",
  "Tests use the form that is at hand. An integer radius or map breaks in one function for one combination of the forms of the other arguments only.",
  ["core/kepler.py", "core/limb_dark.py", "orbits/keplerian.py", "orbits/transit.py", "orbits/ttv.py", "light_curves/limb_dark.py", "light_curves/emission.py", "light_curves/transforms.py", "units/decorator.py", "starry/ylm.py",
   "starry/surface.py", "starry/light_curves.py", "starry/doppler.py", "starry/core/basis.py", "starry/core/polynomials.py", "starry/core/rotation.py", "starry/core/solution.py", "starry/multiprecision/flux.py"],
  [("arguments with units", "units/decorator.py quantity_input"), ("types of arrays", "starry/core/rotation.py dot_rz, core/limb_dark.py solution_vector, orbits/transit.py relative_position")],
  "Metamorphic: the operation with Python floats and arrays of doubles against the same with a generated form for each argument; agreement to 1e-6, no exception that the first does not raise.",
  "Random search in double precision; 32-bit integers and floats (which JAX computes in single precision) and lists where arrays are documented are left out.",
  ["the public interface"])

P("C30", "The comparison helpers accept what agrees and reject what does not",
  "assert_allclose, assert_quantity_allclose and assert_quantity_pytree_allclose raise exactly if the trees, shapes, units (or dimensions, with convert) differ or an element differs by more than the relative tolerance (the one given or that of the type of the numbers, times the size of the array as in JAX).",
  ["inputs"], "trees of 1 to 4 arrays and quantities of both precisions; one difference, just below or above the tolerance, in one element of one leaf, in shape, unit, dimension, structure, or NaN",
  "Everything is compared with them in the tests, and a comparison that always passes is not noticed there.",
  ["test_utils.py"], [("comparisons", "test_utils.py")],
  "The verdict is known by construction of the pair.", "Random search; differences between 0.4 and 1.6 times the tolerance are left out.", ["jaxoplanet.test_utils"])


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=S + b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    run = "PYTHONPATH=/verif /opt/venv/bin/python -m vf.run"
    man = dict(
        version=1, setup_cmd="cd /verif && PYTHONPATH=/verif /opt/venv/bin/python -m vf.deps",
        checks=[dict(property=p["id"], quick_cmd=f"{run} {p['id']} --tier quick", thorough_cmd=f"{run} {p['id']} --tier thorough",
                     evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
                     level_note=p["note"]) for p in PROPS],
        not_applicable=[],
        notes="Every check imports jaxoplanet from /repo/src at run time; no hooks are needed. Seeds: VERIF_SEED.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    d = os.path.join(ROOT, "DESIGN.md")
    if os.path.exists(d):
        txt = open(d).read()
        a, b = "<!-- properties:begin -->", "<!-- properties:end -->"
        if a in txt:
            body = "\n".join(
                f"### {p['id']} {p['title']}\n\n{p['design']}\n\n*Bounds / trust:* {p['note']}\n" for p in PROPS)
            txt = txt[:txt.index(a) + len(a)] + "\n\n" + body + "\n" + txt[txt.index(b):]
            open(d, "w").write(txt)


if __name__ == "__main__":
    main()
