"""Writes properties.jsonl and MANIFEST.json from the table below"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KEP = "src/exoplanet/orbits/keplerian.py"
TTV = "src/exoplanet/orbits/ttv.py"
SIM = "src/exoplanet/orbits/simple.py"
LD = "src/exoplanet/light_curves/limb_dark.py"
SE = "src/exoplanet/light_curves/secondary_eclipse.py"
IL = "src/exoplanet/light_curves/interpolated.py"
GI = "src/exoplanet/interp.py"
UN = "src/exoplanet/units.py"
DI = "src/exoplanet/distributions/distributions.py"
EC = "src/exoplanet/distributions/eccentricity.py"
ES = "src/exoplanet/estimators.py"
CI = "src/exoplanet/citations.py"

IN = ["inputs", "configurations"]
P = []


def prop(id, title, statement, text, why, mech, level_note, technique,
         over=IN, observe=None):
    files = []
    for m in mech:
        f = m[1].split(":")[0]
        if f not in files:
            files.append(f)
    P.append(dict(
        p=dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=a, where=b) for a, b in mech],
                observe_at=observe or ["values returned by the public API"],
                hook_needed=None,
            ),
        ),
        c=dict(
            property=id,
            quick_cmd="bash ./run.sh " + id,
            thorough_cmd="VERIF_TIER=thorough bash ./run.sh " + id,
            technique=technique, level="exploration", level_note=level_note,
        ),
    ))


MON = "runtime monitoring: "
NOTE = ("Held on the executions counted in the evidence, nothing more; trusts "
        "the reference in vmon/ (own Kepler solver, extended precision) and "
        "the floating point tolerances stated there. ")

prop(
    "C01", "Positions follow the documented Keplerian geometry",
    "For every accepted set of orbital elements and every time, the positions "
    "of the planet, the star and the planet relative to the star are those of "
    "the two-body solution for those elements in the documented frame, in "
    "solar radii, and the relative separation and position angle on the sky "
    "agree with them; given a parallax, they are reported in arcseconds.",
    "all accepted argument combinations (scalar/vector, circular/eccentric, "
    "with and without node angle, masses, parallax), all times including far "
    "epochs, conjunctions and apsides",
    "tests compare a few fixed systems with batman/rebound at a few hundred "
    "times; a wrong sign, axis or barycentre share shows only for particular "
    "combinations of angles, masses and options",
    [("true anomaly from the mean anomaly", KEP + ": KeplerianOrbit._get_true_anomaly"),
     ("rotation into the observer frame", KEP + ": KeplerianOrbit._rotate_vector"),
     ("radius, scale and parallax", KEP + ": KeplerianOrbit._get_position")],
    NOTE + "Monitors every returned coordinate of random and hostile systems.",
    MON + "reference-model monitor over recorded positions",
    observe=["get_planet_position, get_star_position, get_relative_position, "
             "get_relative_angles"])
prop(
    "C02", "Velocities and accelerations are derivatives of the positions",
    "For every orbit and time, the velocities that are returned for the "
    "planet, the star and their relative motion are the time derivatives of "
    "the corresponding positions, the accelerations are those of Newtonian "
    "gravity between the two bodies, and momentum about the barycentre is "
    "conserved.",
    "all orbits and times, including massless and heavy planets, high "
    "eccentricities and all three bodies",
    "tests check velocities of a few orbits by autodiff and never the star's "
    "acceleration of massless planets; sign and mass-ratio slips survive them",
    [("orbital velocity", KEP + ": KeplerianOrbit._get_velocity"),
     ("acceleration", KEP + ": KeplerianOrbit._get_acceleration")],
    NOTE + "Three independent oracles: analytic two-body, Newton's law, finite "
    "differences of the returned positions.",
    MON + "reference-model and conservation monitors over recorded motions")
prop(
    "C03", "Masses, sizes and periods of an orbit are mutually consistent",
    "Whichever accepted combination of period, semi-major axis, stellar mass, "
    "radius and density and planet mass is given, the orbit reproduces the "
    "given values and the computed ones satisfy Kepler's third law, the "
    "definition of density and the barycentre relation. Combinations that are "
    "insufficient or contradictory are refused.",
    "every subset of the physical arguments, scalar or vector, symbolic or "
    "literal, planet masses from zero to equal mass",
    "tests pin a handful of combinations with planet mass zero or tiny",
    [("completion of the inputs", KEP + ": _get_consistent_inputs"),
     ("derived attributes", KEP + ": KeplerianOrbit.__init__")],
    NOTE + "All combinations are enumerated, their numbers sampled.",
    MON + "invariant monitors on the attributes of every combination")
prop(
    "C04", "Epochs and angles mean what the documentation says",
    "At the reference transit time the planet is at inferior conjunction in "
    "front of the star with the given impact parameter, at the periastron "
    "time its distance is smallest, and the motion repeats every period. The "
    "inclination, impact parameter, epochs and angles that the orbit reports "
    "agree with each other and with what was given, whichever of them was "
    "given.",
    "every parameterisation of epoch and inclination, any argument of "
    "periastron including the apsidal special cases",
    "tests use a few angles; quadrant and branch errors of the reference "
    "anomaly appear only for particular orientations",
    [("mean anomaly of the transit", KEP + ": KeplerianOrbit.__init__"),
     ("impact parameter and inclination", KEP + ": KeplerianOrbit.__init__")],
    NOTE + "Observes the motion at the epochs, not the formulas.",
    MON + "trace-invariant monitors at transit and periastron epochs")
prop(
    "C05", "A given transit duration is the duration one observes",
    "For a circular orbit described by its transit duration, the planet "
    "touches the stellar limb exactly half that duration before and after "
    "mid-transit. For an eccentric orbit the geometry that is implied solves "
    "the documented (Winn 2010) duration relation.",
    "all feasible durations, impact parameters, radius ratios, "
    "eccentricities and arguments of periastron",
    "tests cover two or three systems at one precision level",
    [("size from the duration", KEP + ": get_aor_from_transit_duration"),
     ("impact parameter from the duration", KEP + ": KeplerianOrbit.__init__")],
    NOTE + "The eccentric relation is an approximation by documentation and is "
    "judged against that relation.",
    MON + "contact-time monitor on observed separations")
prop(
    "C06", "Every Jacobian that is reported is the derivative it claims",
    "Each Jacobian that an orbit, light curve or helper exposes for "
    "reparameterising a prior equals the derivative of the reported quantity "
    "with respect to the given one.",
    "all parameterisations that record Jacobians, scalar and vector, any "
    "planet mass and eccentricity; the transit-depth inversion included",
    "tests evaluate autodiff Jacobians for one or two massless circular "
    "systems",
    [("Jacobian bookkeeping", KEP + ": KeplerianOrbit.__init__"),
     ("duration helper", KEP + ": get_aor_from_transit_duration"),
     ("depth inversion", LD + ": LimbDarkLightCurve.get_ror_from_approx_transit_depth")],
    NOTE + "Oracle: Richardson-extrapolated difference quotients with their "
    "own error estimate.",
    MON + "differential monitor of reported Jacobians")
prop(
    "C07", "Units attached to inputs never change the described system",
    "An orbit built from quantities with units describes the same system as "
    "one built from the equivalent numbers in the documented default units; "
    "conversions are exact factors and incompatible units are refused.",
    "every dimensional argument in every compatible unit, alone and combined, "
    "circular and eccentric, duration-based too",
    "tests attach units in a few places only; a path that forgets a "
    "conversion works for unitless users",
    [("unit protocol", UN + ": with_unit, to_unit"),
     ("conversions at construction", KEP + ": KeplerianOrbit.__init__")],
    NOTE, MON + "metamorphic twin execution with and without units")
prop(
    "C08", "Transit finding is exact: no exposure missed, none added",
    "For circular and eccentric orbits, the indices that the orbit reports as "
    "being in transit are exactly those exposures during which some planet is "
    "in front of the star closer than the sum of the radii, plus at most the "
    "exposures of a planet that never transits.",
    "all orbits and time arrays, exposure times scalar or per observation, "
    "radii zero or positive, edges of contacts",
    "tests check a dense grid of a few systems; missing one sample at a "
    "contact shows only for grazing, eccentric or long-exposure cases",
    [("contact times", KEP + ": KeplerianOrbit.in_transit")],
    NOTE + "Samples within the rounding of a contact are judged by neither "
    "rule. Nothing is said of bodies that touch at periastron.",
    MON + "exactness monitor (completeness and soundness) on index sets")
prop(
    "C09", "Skipping the out-of-transit observations never alters the flux",
    "The light curve computed only for the observations found to be in "
    "transit is identical, sample for sample, to the one computed for all "
    "observations, for every kind of orbit, exposure scheme and radius; the "
    "default is one of the two.",
    "Keplerian, timing-variation and simple orbits; exposure schemes; any "
    "times, in arrays of any shape, and radii; light delay",
    "tests compare the two paths on one or two orbits without exposure times",
    [("sub-setting and scattering", LD + ": LimbDarkLightCurve.get_light_curve"),
     ("selection", KEP + ": KeplerianOrbit.in_transit"),
     ("selection, simple orbit", SIM + ": SimpleTransitOrbit.in_transit"),
     ("shift by timing variations", TTV + ": TTVOrbit._warp_times")],
    NOTE, MON + "differential twin execution of the two paths")
prop(
    "C10", "The flux is the limb-darkened starlight that a body blocks",
    "For every position of a planet in front of the star and every radius, "
    "the relative change of flux equals minus the fraction of the quadratic "
    "limb-darkened starlight inside the overlap; behind the star and away from it "
    "the change is exactly zero, and it is never outside of the physical "
    "range.",
    "all radii (smaller and larger than the star), positions including "
    "contacts, concentric and internal tangency, limb darkening coefficients, "
    "several planets",
    "tests compare with starry/batman on a smooth grid and skip the corner "
    "cases and large bodies",
    [("flux of one body", LD + ": LimbDarkLightCurve._compute_light_curve"),
     ("normalisation", LD + ": get_cl"),
     ("line-of-sight sign and separation", LD + ": LimbDarkLightCurve.get_light_curve")],
    NOTE + "Oracle: independent quadrature of the occulted profile. One known "
    "finding of the installed native kernel is listed.",
    MON + "reference photometry on recorded geometry, with kernel-call hooks")
prop(
    "C11", "Exposure integration averages the flux with the stated rule",
    "With an exposure time, every sample of a light curve is the weighted "
    "mean of the instantaneous light curve over that exposure with the stated "
    "rule (midpoint, trapezoid or Simpson) and number of evaluations; it "
    "converges to the true average, an exposure of zero length changes "
    "nothing and an unknown order is refused.",
    "orders 0-2, even and odd oversampling, scalar and per-observation "
    "exposure times, every kind of orbit",
    "tests check convergence for one orbit with a loose tolerance",
    [("stencil and weights", LD + ": LimbDarkLightCurve.get_light_curve")],
    NOTE, MON + "differential monitor against instantaneous samples")
prop(
    "C12", "Secondary eclipse light curves combine both discs correctly",
    "A secondary eclipse light curve equals the flux of star plus companion, "
    "each weighted by its share of the light, minus what is hidden when the "
    "companion transits and when the star occults it, relative to the "
    "unocculted total, for every companion.",
    "any orientation, radius ratio, surface brightness ratio, number of "
    "companions, limb darkening of both bodies, exposure times and light "
    "travel time",
    "tests compare with starry for one companion on one orbit",
    [("flux combination", SE + ": SecondaryEclipseLightCurve.get_light_curve"),
     ("exchange of the bodies", KEP + ": KeplerianOrbit._flip"),
     ("delay of the exchanged bodies", SE + ": _DelayedFlip")],
    NOTE, MON + "reference photometry of both bodies")
prop(
    "C13", "Light travel time solves the retarded-position equation",
    "With light travel time requested, every position, angle and flux is the "
    "one at the emission time whose light arrives at the given time, measured "
    "from the plane through the barycentre; a body that approaches is seen "
    "earlier in its orbit by the right sign and size.",
    "orbits up to a hundredth of the speed of light, every method that "
    "accepts the option, all bodies, massless planets, parallax",
    "tests compare one slow orbit with a numerical solve for the planet only",
    [("retarded position", KEP + ": KeplerianOrbit._get_retarded_position"),
     ("dispatch", KEP + ": KeplerianOrbit._get_position")],
    NOTE + "The documented method is a second-order expansion; the tolerance "
    "includes its remainder.",
    MON + "reference-model monitor of emission times")
prop(
    "C14", "Transit timing variations move transits to the labelled times",
    "An orbit with timing variations places each labelled transit exactly at "
    "its given time, reports the linear ephemeris that fits the times, and "
    "keeps the shape of every transit; transits that are not listed follow "
    "the linear ephemeris. With zero variations it is the Keplerian orbit.",
    "any number of planets, transits, gaps in the labels, offsets, a separate "
    "shape period, periods and epochs of one planet or shared, light travel "
    "time",
    "tests use two planets with consecutive labels; gaps, unobserved epochs "
    "and ends of the series are not covered",
    [("ephemeris fit and bins", TTV + ": TTVOrbit.__init__"),
     ("clock offset per epoch", TTV + ": TTVOrbit._get_model_dt"),
     ("clock warp", TTV + ": TTVOrbit._warp_times")],
    NOTE, MON + "trajectory monitor against a clock-reset reference",
    over=["inputs", "configurations", "histories"])
prop(
    "C15", "Expected transit times are exactly the transits of the window",
    "The expected transit times listed for a window contain each transit of "
    "each planet between the two ends once, in order, at the linear "
    "ephemeris, and nothing outside.",
    "any window, period and epoch, windows without transits and with transits "
    "on the ends, exactly or as computed in double precision; periods and "
    "epochs per planet or shared",
    "tests check one window; off-by-one errors appear on the ends",
    [("epoch range", TTV + ": compute_expected_transit_times")],
    NOTE + "Oracle: rational arithmetic on the same numbers.",
    MON + "exactly-once monitor over listed events")
prop(
    "C16", "The simple transit orbit honours duration, impact and epoch",
    "An orbit described only by period, duration, epoch and impact parameter "
    "crosses the stellar disc on a straight line at the impact parameter, is "
    "inside the contacts for exactly the duration in every period, is never "
    "in front of the star otherwise, and finds its transits exactly.",
    "all periods, durations, impact parameters, radius ratios, input forms "
    "and far epochs, exposure times",
    "tests compare one configuration with a Keplerian orbit",
    [("geometry", SIM + ": SimpleTransitOrbit.__init__, get_relative_position"),
     ("selection", SIM + ": SimpleTransitOrbit.in_transit")],
    NOTE, MON + "trace-invariant monitors on path, contacts and index sets")
prop(
    "C17", "Grid interpolation is multilinear, including on its edges",
    "Interpolating on a regular grid returns the value at a node exactly, the "
    "multilinear combination inside of a cell up to and including the edges "
    "of the grid, the fill value outside when one is given and the linear "
    "extension otherwise, with matching gradients.",
    "one to four dimensions, uneven grids, trailing output dimensions, fill "
    "values, nodes, edges and far points",
    "tests compare random interior points of two grids with scipy",
    [("cell search and weights", GI + ": regular_grid_interp"),
     ("class interface", GI + ": RegularGridInterpolator")],
    NOTE, MON + "reference-model monitor with boundary workloads")
prop(
    "C18", "Radial velocities: redshift positive, requested units, K as defined",
    "The radial velocity of the star is positive when it recedes, equals the "
    "reflex motion implied by the masses or, given a semi-amplitude, "
    "K(cos(omega+f) + e cos omega), and is reported in the requested units "
    "(m/s unless told otherwise).",
    "all orbits, units, semi-amplitudes, masses and times",
    "tests check K only, on one orbit in the default units",
    [("radial velocity", KEP + ": KeplerianOrbit.get_radial_velocity")],
    NOTE, MON + "reference-model and invariant monitors")
prop(
    "C19", "Companions and timestamps never influence each other",
    "Evaluating several companions together gives each the values it has "
    "alone, and evaluating times together gives each time the value it has "
    "alone, in whatever order, number or array shape they are passed; "
    "scalars, vectors, lists and symbolic inputs with equal values give equal "
    "results.",
    "two or three companions, scalar/vector mixes, permutations, repeats and "
    "matrix-shaped times; positions, velocities, fluxes, transit finding",
    "tests broadcast a few shapes and compare only shapes",
    [("broadcasting of times", KEP + ": KeplerianOrbit._warp_times"),
     ("broadcasting of rotations", KEP + ": KeplerianOrbit._rotate_vector"),
     ("broadcasting in the light curve", LD + ": LimbDarkLightCurve.get_light_curve"),
     ("offset lookup per companion", TTV + ": TTVOrbit._get_model_dt"),
     ("simple orbit", SIM + ": SimpleTransitOrbit.get_relative_position")],
    NOTE, MON + "metamorphic executions (alone/together, permuted, reshaped)")
prop(
    "C20", "Gradients are finite and are derivatives of what is returned",
    "The gradient of positions, velocities, fluxes and radial velocities with "
    "respect to every parameter is finite and equals the derivative of the "
    "values that the same model returns, in every regime away from the "
    "points where the model has a kink.",
    "all orbit classes and parameterisations, all outputs, random directions, "
    "special epochs",
    "tests run verify_grad for the kernels at a few points only",
    [("differentiable orbit graph", KEP + ": KeplerianOrbit._get_true_anomaly"),
     ("differentiable flux graph", LD + ": LimbDarkLightCurve._compute_light_curve"),
     ("timing variations", TTV + ": TTVOrbit._get_model_dt"),
     ("simple orbit", SIM + ": SimpleTransitOrbit.get_relative_position")],
    NOTE + "Oracle: Ridders extrapolation with its own error estimate.",
    MON + "differential monitor of directional derivatives")
prop(
    "C21", "Bounded parameters stay in support with the documented density",
    "Angles, unit discs, limb darkening pairs and impact parameters always "
    "take values in their support and have the documented density there "
    "(isotropic, uniform in the disc, uniform over the physical triangle, "
    "uniform up to one plus the radius ratio), with finite gradients and "
    "draws of the same distribution; the regularization of an angle changes "
    "its sampling, in proportion to the given strength, and not its prior.",
    "any shape, radius ratio form, starting value and any point of the "
    "unconstrained space",
    "tests compare samples of one short chain with a Kolmogorov-Smirnov test",
    [("angle", DI + ": angle"), ("unit disc", DI + ": unit_disk"),
     ("limb darkening", DI + ": quad_limb_dark"),
     ("impact parameter", DI + ": impact_parameter")],
    NOTE + "Density implied by the model is derived with the Jacobian of the "
    "outputs, not read from the code.",
    MON + "density and support monitors over sampler-level evaluations")
prop(
    "C22", "Eccentricity priors are the published ones, truncated as asked",
    "The eccentricity priors give eccentricity, and the hyperparameters when "
    "they are marginalised, the published (Kipping 2013b, Van Eylen et al. "
    "2019) density for the chosen population, restricted to the requested "
    "bounds, whether the eccentricity is sampled or computed from other "
    "variables. Impossible eccentricities have zero probability, and gradients "
    "are finite.",
    "both priors, all populations, fixed or marginalised, all bounds, shapes, "
    "starting values, observed eccentricities, any unconstrained point",
    "tests compare short chains with a Kolmogorov-Smirnov test for fixed "
    "hyperparameters; bounds, observed eccentricities and hyperpriors are only "
    "smoke-tested",
    [("beta prior", EC + ": kipping13"), ("mixture prior", EC + ": vaneylen19"),
     ("truncation", EC + ": _truncate")],
    NOTE + "Two known findings are listed: the default population of the "
    "Kipping prior and NaN gradients for one-sided bounds.",
    MON + "density and support monitors over sampler-level evaluations")
prop(
    "C24", "RV estimates are the weighted fit, in the documented units",
    "The estimates of radial velocity semi-amplitudes and minimum masses are "
    "those of the weighted least squares fit of circular orbits with the given "
    "periods (and transit times), whatever the number of companions, the "
    "uncertainties and the units of the inputs; noise-free series return the "
    "amplitudes and masses that made them, and inputs are not modified.",
    "any periods, epochs, sampling, noise, even or uneven uncertainties, and "
    "units attached to any subset of the inputs",
    "tests estimate two amplitudes of one series to within a few per cent",
    [("semi-amplitude", ES + ": estimate_semi_amplitude"),
     ("design matrix", ES + ": _get_design_matrix"),
     ("minimum mass", ES + ": estimate_minimum_mass")],
    NOTE, MON + "differential monitor against an independent weighted fit",
    over=["inputs"])
prop(
    "C25", "Period searches report true maxima of what they computed",
    "Every peak that a period search reports is a strict local maximum of the "
    "periodogram, in order of power and none skipped, with the period and "
    "uncertainty of the parabola through it; the searches respect limits and "
    "find the period of a strong injected sinusoid, periodic signal or "
    "box-shaped transit, whose epoch, depth and duration are reported with it.",
    "any periodogram and grid, any time series with a detectable signal, "
    "limits, filters, uncertainties and options of the searches",
    "tests find one injected signal per estimator, within a per cent",
    [("peaks", ES + ": find_peaks"),
     ("Lomb-Scargle", ES + ": lomb_scargle_estimator"),
     ("autocorrelation", ES + ": autocorr_estimator"),
     ("box least squares", ES + ": bls_estimator")],
    NOTE, MON + "online checker of every reported peak against its arrays",
    over=["inputs"])
prop(
    "C26", "Citations acknowledge exactly the components that a model used",
    "The acknowledgement of a model cites exoplanet, its dependencies and "
    "exactly the components that were created for that model, each once and "
    "each defined in the returned BibTeX, whether the model was given by "
    "keyword or by context and whatever was done in other models or outside of "
    "any; what is part of a nested model is part of the models around it; a "
    "model without components has none and warns.",
    "any history of components over several models, nested ones too, any line "
    "width",
    "the test registers one component in one model",
    [("registration", CI + ": add_citations_to_model"),
     ("acknowledgement", CI + ": get_citations_for_model"),
     ("keyword", KEP + ": KeplerianOrbit.__init__")],
    NOTE, MON + "trace monitor: log of creations against the parsed text",
    over=["histories", "configurations"])
prop(
    "C27", "Interpolated light curves are the cubic through what they cache",
    "The interpolated light curve is the four point cubic through the base "
    "light curve (of any class, with any of its options) on a grid of "
    "num_phase + 1 intervals of one period of every planet: exact on the nodes, "
    "periodic, and as accurate as a cubic can be in between.",
    "any base light curve, orbit, number of planets and of grid points, any "
    "times (in arrays of any shape) and epochs",
    "the class has no tests and is declared experimental",
    [("cubic", IL + ": interp"),
     ("phase folding", IL + ": InterpolatedLightCurve.get_light_curve")],
    NOTE, MON + "differential monitor against Lagrange polynomials")
prop(
    "C28", "Results depend on the arguments, not on what was computed before",
    "Every call returns the same bits whenever it is repeated, in any order "
    "and among any other calls on shared objects, inside or outside of a model, "
    "and on newly made objects; no call changes its inputs, the model or any "
    "global state, and updated parameters take effect everywhere.",
    "any history of calls of the orbits (with everything they offer to be "
    "read), light curves, interpolators, estimators and priors over shared "
    "objects and parameters that change",
    "unit tests make new objects and call them once",
    [("orbit state", KEP + ": KeplerianOrbit.__init__"),
     ("timing state", TTV + ": TTVOrbit.__init__"),
     ("flipped orbits", SE + ": SecondaryEclipseLightCurve.get_light_curve"),
     ("subsets of times", LD + ": LimbDarkLightCurve.get_light_curve"),
     ("estimators", ES + ": bls_estimator")],
    NOTE, MON + "offline checker of recorded histories (replay equality)",
    over=["histories", "configurations"])
prop(
    "C23", "A posterior is its priors times the likelihood of the real signal",
    "In a model of priors, an orbit and a light curve or radial velocities, the "
    "log probability at every point is that of the priors plus the likelihood "
    "of the signal that those parameters produce, its gradient is finite and "
    "its own, it is finite where sampling starts, survives pickling, and draws "
    "of the model pair every parameter with its signal.",
    "models of all orbit classes, eccentricity and limb darkening priors, one "
    "or two companions, exposure times, any unconstrained point",
    "tests never build a complete model; each part is checked alone",
    [("orbits", KEP + ": KeplerianOrbit.__init__"),
     ("timing", TTV + ": TTVOrbit.__init__"),
     ("priors", DI + ": impact_parameter"),
     ("light curve", LD + ": LimbDarkLightCurve.get_light_curve"),
     ("simple orbit", SIM + ": SimpleTransitOrbit.__init__")],
    NOTE, MON + "differential monitor at the interface of the sampler")
prop(
    "C29", "A transit depth converts into the radius that blocks that light",
    "The radius ratio that is computed from a transit depth and an impact "
    "parameter makes a planet whose transit has that depth to the accuracy of "
    "the small planet approximation, with the shape of the impact parameter, "
    "and the reported Jacobian is its derivative.",
    "any physical limb darkening, depths to two per cent, impact parameters "
    "below one, shapes and forms of input",
    "the test inverts three combinations",
    [("inversion", LD + ": LimbDarkLightCurve.get_ror_from_approx_transit_depth"),
     ("normalisation", LD + ": get_cl")],
    NOTE, MON + "round trip monitor through the light curve and quadrature")
prop(
    "C30", "The form in which values are given never matters",
    "The same values give the same results whether they are given as lists, "
    "tuples, integers, single precision, strided or read-only arrays, columns "
    "of tables, constants, shared variables, expressions or symbols of unknown "
    "length, in any mixture.",
    "every constructor and method of the orbits, the light curves, the grid "
    "interpolation and the radial velocity estimators; all inputs independently, "
    "down to the shortest integers that hold a value (giant stars, dates, long "
    "periods)",
    "tests pass arrays of doubles",
    [("conversion", "src/exoplanet/utils.py: as_tensor_variable"),
     ("orbit inputs", KEP + ": KeplerianOrbit.__init__"),
     ("timing inputs", TTV + ": TTVOrbit.__init__"),
     ("simple inputs", SIM + ": SimpleTransitOrbit.in_transit"),
     ("grid inputs", GI + ": regular_grid_interp")],
    NOTE, MON + "metamorphic executions over forms of the same values")
prop(
    "C31", "What is contradictory, incomplete or unsupported is refused",
    "An orbit or a light curve is made exactly when the documentation gives "
    "its arguments a meaning: any over-determined, incomplete or unsupported "
    "request raises, whatever the values (zeros included) and forms, and every "
    "accepted request keeps each value as it was given.",
    "every subset of the arguments of Keplerian and timing-variation orbits, "
    "with zeros among the values; missing or unsupported arguments of light "
    "curves, simple orbits and units",
    "tests try four of the combinations; one that is resolved silently gives a "
    "model of another system",
    [("combinations", KEP + ": KeplerianOrbit.__init__"),
     ("star and size", KEP + ": _get_consistent_inputs"),
     ("timing", TTV + ": TTVOrbit.__init__"),
     ("light curves", LD + ": LimbDarkLightCurve.get_light_curve"),
     ("units", "src/exoplanet/units.py: with_unit")],
    NOTE + "Omega, ror and angles without an eccentricity are never "
    "contradictory; unknown keyword arguments are not judged.",
    MON + "specification monitor over random requests")
#MORE


def main():
    P.sort(key=lambda q: q["p"]["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["p"]["title"]) <= 80, q["p"]["title"]
            f.write(json.dumps(q["p"]) + "\n")
    man = dict(
        version=1, setup_cmd="bash ./setup.sh",
        checks=[q["c"] for q in P], not_applicable=[],
        notes="Every check imports the sources of /repo directly (VERIF_REPO "
        "overrides), observes executions from outside and needs no hook in "
        "/repo. VERIF_SEED and VERIF_TIER are honoured; a violation leaves a "
        "replay file, rerun with: bash ./run.sh <ID> --replay FILE.",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
