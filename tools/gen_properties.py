"""Writes /verif/properties.jsonl (one property per call of P below)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
B = "src/einsteinpy/"
rows = []


def P(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    rows.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(files=[B + f for f in files],
                     mechanism=[dict(name=n, where=B + w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=B + w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))


# ------------------------------------------------------------------ coordinates
P("C01", "Position conversions preserve the point in every chart",
  "Converting a position between Cartesian, spherical polar and Boyer-Lindquist coordinates gives the same physical point in every direction and along every path: the result satisfies the textbook embedding (Boyer-Lindquist: x = sqrt(r^2+alpha^2) sin(theta) cos(phi), y likewise with sin(phi), z = r cos(theta), alpha = G M a / c^2), lies in the canonical ranges (r > 0, 0 <= theta <= pi, -pi <= phi <= pi), keeps t, and round trips return the starting coordinates. With alpha = 0 Boyer-Lindquist and spherical coordinates coincide.",
  "all finite events (t, position) with r > 0, all octants, axis and equatorial plane included, all masses and spins 0 <= a <= 1, all conversion paths",
  "tests convert a handful of fixed points, none on the axis, with x = 0 or in every octant; the property is about every point and every path",
  ["coordinates/utils.py", "coordinates/conversion.py", "coordinates/core.py"],
  [("closed-form chart maps", "coordinates/utils.py:cartesian_to_spherical/cartesian_to_bl/bl_to_cartesian"),
   ("dispatch via Cartesian", "coordinates/conversion.py")],
  observe=["Cartesian/Spherical/BoyerLindquist .to_*()", "coordinates.utils functions"])
P("C02", "Velocity conversions are the Jacobian of the position conversions",
  "When an event with a 3-velocity is converted between Cartesian, spherical and Boyer-Lindquist coordinates, the resulting velocity components are the time derivatives of the converted coordinates along the moving point, i.e. the Jacobian of the chart map applied to the velocity. Round trips return the original velocity, the conversion is linear in the velocity, and the converted position is the same as without velocity.",
  "all events off the polar axis (both half-planes, z = 0 and x = 0 included), all finite velocities, all masses and spins, all conversion paths",
  "tests compare a few fixed velocities; a wrong term that vanishes at those points, or that is consistent in both directions, is not seen",
  ["coordinates/utils.py", "coordinates/conversion.py", "coordinates/differential.py"],
  [("hand-written velocity Jacobians", "coordinates/utils.py"), ("object dispatch", "coordinates/differential.py")],
  observe=["*Differential.*_differential()", "*Conversion.convert_*()"])
P("C03", "Coordinate objects are independent of the units they were built with",
  "A coordinate or velocity object built from the same physical quantities in any compatible units has the same SI position 4-vector (c t, x1, x2, x3), the same SI velocity and the same conversions, always expressed in SI units; incompatible units are rejected with an error. Components are returned as given under their name and under their index, and the coordinate system is reported by name.",
  "all choices of compatible and incompatible astropy units per component, all values, the three coordinate systems, with and without velocity",
  "tests build objects in s, m, rad (and a few km) only; a value taken without conversion is invisible there",
  ["coordinates/core.py", "coordinates/differential.py", "coordinates/conversion.py", "units.py"],
  [("quantity_input decorators and .si.value", "coordinates/core.py, coordinates/differential.py"), ("primitive()", "units.py")],
  observe=["position()", "velocity()", "values()", "__getitem__", "primitive()"])
P("C04", "4-velocities are normalised: g(u,u) = c^2, in the right chart only",
  "The time component and the 4-velocity that a velocity object computes for a metric satisfy g_mu_nu u^mu u^nu = c^2 with the spatial components being exactly the given ones and u^t > 0 outside the ergosphere, for any metric matrix with cross terms. The Lorentz factor of a 3-velocity is 1/sqrt(1 - v^2/c^2). A metric given in another coordinate chart than the velocity is rejected with CoordinateError (boundary: a metric whose chart matches is always accepted).",
  "Schwarzschild, Kerr and Kerr-Newman metrics over masses, spins, charges; events outside the ergosphere; velocities from zero to relativistic, directions arbitrary; arbitrary static/stationary user metric matrices",
  "tests check v_t at single points only, with cross terms g_tr, g_rtheta etc. always zero",
  ["coordinates/utils.py", "coordinates/differential.py"],
  [("quadratic for v_t", "coordinates/utils.py:v0"), ("chart check", "coordinates/differential.py:v_t setter, velocity()"), ("gamma", "coordinates/utils.py:lorentz_factor")],
  observe=["*Differential.velocity(metric)", "*Differential.v_t", "coordinates.utils.v0", "lorentz_factor"])
# ------------------------------------------------------------------ numeric metrics
P("M01", "Black hole metrics equal the textbook metric at every event",
  "The covariant metric of Schwarzschild, Kerr and Kerr-Newman black holes in SI units equals the textbook line element (signature +,-,-,-, Boyer-Lindquist or spherical coordinates, charge included) at every event, and the contravariant metric is its matrix inverse. Kerr-Newman with zero charge is Kerr, Kerr without spin is Schwarzschild, and far away or for vanishing mass all are flat.",
  "all events outside (and between) horizons, all masses (1 kg to galactic), spins 0 <= a <= 1, charges, time and azimuth arbitrary",
  "tests compare at one or two events with stored numbers, mostly with Q = 0 or where terms cancel",
  ["metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py", "metric/base_metric.py"],
  [("component formulae", "metric/*.py:metric_covariant"), ("matrix inverse", "metric/base_metric.py:metric_contravariant")],
  observe=["metric_covariant(x)", "metric_contravariant(x)"])
P("M02", "Christoffel symbols are the Levi-Civita connection of the metric",
  "The Christoffel symbols a black hole metric reports are those of its own covariant metric, Gamma^a_bc = g^ad (d_b g_dc + d_c g_db - d_d g_bc)/2, at every event, symmetric in the lower indices, with charge and spin included. Every component that is not identically zero is present, and the published list of non-vanishing components of the Kerr metric names all of them and no other.",
  "all events outside the horizon, all masses, spins and charges",
  "tests compare single components at single events; hand-written derivative code has dozens of terms",
  ["metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py"],
  [("hand-written dg and Christoffels", "metric/kerr.py:_dg_dx_bl/_ch_sym_bl, metric/kerrnewman.py, metric/schwarzschild.py:_ch_sym_s")],
  observe=["metric.christoffels(x)", "nonzero_christoffels()"])
P("M03", "The geodesic right-hand side is the geodesic equation",
  "For every state (event, 4-velocity) the right-hand side a black hole metric hands to ODE solvers is (u, -Gamma^a_bc u^b u^c), so that g(u,u), the energy u_t and the angular momentum u_phi are stationary along it; for a charged test particle in a Kerr-Newman field the additional force leaves g(u,u) stationary and is the Lorentz force. It does not depend on the affine parameter, on t or on phi.",
  "all events outside the horizon, all 4-velocities (time-like, null, space-like), masses, spins, charges, test charges",
  "tests compare one stored vector; terms multiplying velocity components that are zero there are never exercised",
  ["metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py"],
  [("hand-expanded contraction", "metric/*.py:_f_vec_s/_f_vec_bl")],
  observe=["metric.f_vec(lambda, state)"])
P("M04", "Black hole parameters mean the same in every unit",
  "Mass, spin, black hole charge and specific test charge given in any compatible units produce the same metric; incompatible units are rejected. The documented helper quantities hold for all arguments: Schwarzschild radius 2GM/c^2, alpha = GMa/c^2 for 0 <= a <= 1 and a ValueError outside, Sigma = r^2 + alpha^2 cos^2(theta), rho = sqrt(Sigma), Delta = r^2 - r_s r + alpha^2 + r_Q^2 with r_Q^2 = Q^2 G / (4 pi eps0 c^4).",
  "all values and compatible/incompatible units for M, a, Q, q; all r, theta; spins inside and outside [0,1]",
  "tests construct metrics in kg and SI only, so a value read without conversion is invisible",
  ["metric/base_metric.py", "metric/kerr.py", "metric/kerrnewman.py", "metric/schwarzschild.py", "units.py"],
  [("unit handling in constructor", "metric/base_metric.py:__init__"), ("static helpers", "metric/base_metric.py:sigma/delta/rho/alpha/schwarzschild_radius")],
  observe=["metric constructors", "static helpers"])
P("M05", "Reported singularities and surfaces are where the metric says they are",
  "The event horizons reported for a black hole are exactly the roots of Delta (equivalently, where g^rr vanishes), the ergospheres are the surfaces on which g_tt vanishes for every polar angle, ordered inner ergosphere <= inner horizon <= outer horizon <= outer ergosphere. The surfaces of a Kerr-Newman hole reduce to those of Kerr for Q = 0, and those of Kerr to Schwarzschild (r = 0 and r = 2GM/c^2) for a = 0; a chart without known surfaces raises CoordinateError.",
  "all masses, spins and charges of a black hole (a^2 + Q^2 within extremality), all polar angles",
  "tests compare stored numbers for one M, a, Q and one angle",
  ["metric/base_metric.py"],
  [("closed-form radii", "metric/base_metric.py:singularities")],
  observe=["metric.singularities()"])
P("M06", "The Kerr-Newman electromagnetic field is the curl of its potential",
  "The covariant potential of a Kerr-Newman hole is A = (r r_Q / Sigma) (1, 0, 0, -alpha sin^2(theta)) with the geometrised charge r_Q of the same sign as Q, the covariant field tensor is antisymmetric and equals d_mu A_nu - d_nu A_mu, and the contravariant potential and tensor are obtained from these by raising every index with the metric. Potential and field are odd in the charge, vanish without it, and do not depend on time and azimuth.",
  "all events outside the horizon, all masses, spins, charges (both signs)",
  "tests compare a few stored components at one event, and pin wrong signs for two of them",
  ["metric/kerrnewman.py"],
  [("closed-form A and F", "metric/kerrnewman.py:em_potential_covariant/em_tensor_covariant and contravariant versions")],
  observe=["em_potential_covariant/contravariant", "em_tensor_covariant/contravariant"])
P("M07", "Generic metrics: custom components, perturbations and chart errors",
  "A user-supplied metric or Christoffel function is returned unchanged by the generic metric class, a perturbation function is added to the covariant metric exactly once and so appears in the contravariant metric as the inverse of the sum. Asking a black hole for metric components in a chart it does not support raises CoordinateError, never returns a number.",
  "all events, arbitrary symmetric perturbation matrices depending on the event, arbitrary user metrics, supported and unsupported charts",
  "tests use a single constant perturbation at a single event",
  ["metric/base_metric.py", "metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py"],
  [("perturbation hook", "metric/base_metric.py:metric_covariant, metric/kerr.py:metric_covariant"), ("chart check", "metric/*.py")],
  observe=["metric_covariant/contravariant", "christoffels", "f_vec"], over=("inputs", "configurations"))
# ------------------------------------------------------------------ geodesics
P("G01", "Initial 4-momentum of a geodesic is on the mass shell",
  "For any metric and any initial spatial momentum, the initial 4-momentum of a geodesic satisfies g^mu_nu p_mu p_nu = -1 (time-like) or 0 (null), keeps the given spatial components, and takes the root that gives a future-directed geodesic (dt/dlambda > 0) outside the ergosphere; the position is the given one with t = 0.",
  "Schwarzschild, Kerr, Kerr-Newman and arbitrary user-supplied contravariant metrics (all off-diagonal terms allowed), all positions outside the horizon, all finite momenta, time-like and null",
  "tests check a few metrics whose off-diagonal terms are only t-phi, at single points",
  ["geodesic/utils.py", "geodesic/geodesic.py"],
  [("quadratic for p_t", "geodesic/utils.py:_P")],
  observe=["geodesic.momentum", "geodesic.position"])
P("G02", "Dual number arithmetic is exact differentiation",
  "Arithmetic (+, -, *, /, **, unary minus, with plain numbers on either side) and elementary functions (sin, cos, tan, log, exp) on dual numbers return the value of the expression and its exact first derivative, for every expression composed of them. Equality holds exactly when value and derivative agree, and 0/0 follows l'Hopital.",
  "all expressions built from the supported operations, all arguments in their domain",
  "tests evaluate each operation once; the guarantee is for every composition and argument, including repeated and mixed operands",
  ["utils/dual.py"],
  [("operator overloads", "utils/dual.py:DualNumber")],
  observe=["DualNumber operators and numpy ufuncs"], over=("inputs", "programs"))
P("G03", "The integrator follows the geodesic at its declared order",
  "Trajectories computed with order 2, 4, 6 or 8 converge to the true solution of Hamilton's equations of the metric as the step size shrinks, with an error per fixed interval that scales like the step to the power of the declared order. This holds for the built-in metrics and for user-supplied metrics depending on any of the coordinates, including time.",
  "all built-in and user metrics, initial positions and momenta, orders 2/4/6/8, step sizes, omega",
  "tests check conserved quantities on single orbits with loose tolerances; a wrong coefficient that lowers the order or breaks one variable's equation passes",
  ["integrators/fantasy.py", "integrators/utils.py", "utils/dual.py", "geodesic/geodesic.py"],
  [("composition coefficients", "integrators/fantasy.py:_ord_4/_ord_6/_ord_8, integrators/utils.py:_Z"), ("sub-flows", "integrators/utils.py:_flow_A/_flow_B/_flow_mixed")],
  observe=["geodesic.trajectory", "GeodesicIntegrator.results"], over=("inputs", "configurations"))
P("G04", "Geodesic integration is symplectic, reversible and conserves symmetries",
  "One integration step in the extended phase space is a symplectic map that is undone by the step of opposite size; the momentum conjugate to a coordinate the metric does not depend on, summed over both copies of phase space, is conserved to rounding. Rotating the initial azimuth rotates the whole trajectory and shifting the initial time shifts it in time.",
  "all metrics with or without symmetries, initial data on regular orbits, orders, steps, omega",
  "tests check p_t, p_phi on fixed orbits at single orders; symplecticity and reversibility of the doubled phase space are never checked",
  ["integrators/fantasy.py", "integrators/utils.py"],
  [("symmetric composition of exact sub-flows", "integrators/fantasy.py:_ord_2.._ord_8")],
  observe=["GeodesicIntegrator.step/results", "geodesic.trajectory"], over=("inputs", "histories"))
P("G05", "A geodesic reports the trajectory it was asked for",
  "A trajectory is the pair of the step counts 0..N-1 and an (N, 8) array with exactly the requested number of steps, whose row k is the 4-position and 4-momentum after k+1 integration steps of size delta from the initial data; asking for Cartesian output gives exactly the spherical-polar output with the spatial position and momentum components mapped as documented and nothing else changed. Time-like and null convenience classes equal the generic class with the matching flag, and equal metrics (Kerr with a = 0, Kerr-Newman with Q = 0, or a user function returning the same matrix, whatever its name and parameters) give equal trajectories.",
  "all metrics, initial data, step counts, step sizes, orders, output charts",
  "tests look at shapes and single trajectories with fixed options",
  ["geodesic/geodesic.py", "integrators/fantasy.py"],
  [("trajectory assembly", "geodesic/geodesic.py:calculate_trajectory"), ("options forwarding", "geodesic/geodesic.py:Timelike/Nulllike")],
  observe=["geodesic.trajectory", "geodesic attributes"], over=("inputs", "configurations"))
P("G06", "Accuracy warnings are truthful, unsupported requests are refused",
  "A run warns for exactly those steps after which g^mu_nu p_mu p_nu of the reported state differs from -1 (time-like) or 0 (null) by more than atol + rtol times that constant, naming the step, and the warning setting or tolerances never change the numbers of the trajectory. Unsupported orders (odd or larger than 8) and unknown metric names raise NotImplementedError; supported ones do not.",
  "all tolerances, step sizes, orders, metrics, integers and strings as order or metric name",
  "tests check one warning case and one invalid order",
  ["geodesic/geodesic.py", "integrators/fantasy.py"],
  [("tolerance check", "integrators/fantasy.py:step"), ("argument checks", "integrators/fantasy.py:__init__, geodesic/geodesic.py:__init__")],
  observe=["warnings raised by constructing a geodesic / stepping an integrator", "exceptions"], over=("inputs", "configurations"))
P("G07", "Geodesic module metrics are the inverse textbook metrics in M = 1 units",
  "The contravariant metrics used for geodesics (Schwarzschild, Kerr, Kerr-Newman, geometrized units, signature -,+,+,+) are at every event the matrix inverse of the textbook covariant metric with unit mass, spin a and charge Q, and agree with the SI metrics of the metric classes under the change of units and signature.",
  "all events, spins and charges, also with dual-number coordinates (values and derivatives)",
  "tests check a few components at one event",
  ["geodesic/utils.py", "geodesic/geodesic.py"],
  [("closed forms", "geodesic/utils.py:_sch/_kerr/_kerrnewman, sigma, delta")],
  observe=["geodesic.metric(x, *params)"])
P("I01", "Runge-Kutta integrators solve initial value problems at their order",
  "The fixed-step integrator advances by the classical fourth-order formula, forwards or backwards, never past its bound, with global error shrinking like the fourth power of the step; the adaptive integrator meets the solution within its tolerances, never passes the bound and reports time and state of every step, for scalar and vector problems, autonomous or not. State passed in is never modified. Stepping on past the bound changes nothing and is warned about.",
  "all smooth right-hand sides with known solutions (linear systems, polynomials in t, oscillators), all step sizes, directions, bounds, numbers of steps",
  "tests integrate two fixed problems",
  ["integrators/runge_kutta.py"],
  [("RK4 step", "integrators/runge_kutta.py:RK4naive.step"), ("wrapper of SciPy RK45", "integrators/runge_kutta.py:RK45")],
  observe=["integrator.t/y after step()"], over=("inputs", "histories"))
# ------------------------------------------------------------------ symbolic
P("S01", "Metric tensor and its inverse are inverse, in every configuration",
  "For every metric tensor the contravariant form is the matrix inverse of the covariant form, inversion is an involution, raising or lowering returns the same components as the original, and a mixed configuration, which is the identity, is refused with ValueError. Results do not depend on the order or number of earlier conversions of the same object, and the original object is not changed.",
  "all non-degenerate symbolic metrics in 2 to 4 dimensions, all configurations, all sequences of conversions",
  "tests convert a few fixed metrics once; cached inverses make results depend on history",
  ["symbolic/metric.py", "symbolic/tensor.py"],
  [("change_config, inv, lower_config with caching", "symbolic/metric.py")],
  observe=["MetricTensor.inv/change_config/lower_config"], over=("inputs", "histories"),
  state=[("_invmetric", "cached inverse metric", "symbolic/metric.py")])
P("S02", "Symbolic Christoffel symbols are the Levi-Civita connection",
  "The Christoffel symbols computed from a symbolic metric are Gamma^a_bc = g^ad (d_b g_dc + d_c g_db - d_d g_bc)/2 for every metric, given in covariant or contravariant form, with non-diagonal terms, arbitrary coordinate names, parameters and functions. They are symmetric in the lower indices and vanish for constant metrics.",
  "all symbolic metrics in 2 to 4 dimensions (diagonal and full, dependence on every coordinate)",
  "tests compare two fixed metrics",
  ["symbolic/christoffel.py"],
  [("from_metric loop", "symbolic/christoffel.py:from_metric")],
  observe=["ChristoffelSymbols.from_metric"])
P("S03", "Symbolic Riemann tensor obeys its definition and identities",
  "The Riemann tensor computed from a metric or from Christoffel symbols equals its definition R^a_bcd = d_c Gamma^a_db - d_d Gamma^a_cb + Gamma^a_ce Gamma^e_db - Gamma^a_de Gamma^e_cb. With all indices lowered it has the pair antisymmetries, the pair exchange symmetry and the first Bianchi identity, and it vanishes for flat space in any curvilinear coordinates.",
  "all symbolic metrics in 2 to 4 dimensions, including coordinate transforms of flat and constant-curvature spaces",
  "tests compare fixed metrics with stored results",
  ["symbolic/riemann.py"],
  [("from_christoffels loop", "symbolic/riemann.py:from_christoffels"), ("lowering", "symbolic/riemann.py:change_config")],
  observe=["RiemannCurvatureTensor.from_metric/from_christoffels/change_config"])
P("S04", "Ricci tensor and scalar are the traces of Riemann on every path",
  "The Ricci tensor is R^a_bad and symmetric, the Ricci scalar its trace with the inverse metric, and the result is the same whether computed from the metric, the Christoffel symbols, the Riemann tensor or the Ricci tensor, in any index configuration of the input. Scaling the metric by a constant leaves the Ricci tensor unchanged and divides the scalar.",
  "all symbolic metrics in 2 to 4 dimensions, all construction paths, all input configurations",
  "tests use one or two metrics and mostly the direct path",
  ["symbolic/ricci.py"],
  [("contraction and construction paths", "symbolic/ricci.py")],
  observe=["RicciTensor.from_*", "RicciScalar.from_*"], over=("inputs", "configurations"))
P("S05", "Einstein and stress-energy tensors satisfy the field equations",
  "The Einstein tensor is R_ab - R g_ab / 2, is symmetric and divergence-free, and the stress-energy-momentum tensor of a metric solves the documented field equations G_ab + Lambda g_ab = 8 pi G/c^4 T_ab, i.e. T = c^4/(8 pi G) (G_ab + Lambda g_ab), so that vacuum solutions give a zero Einstein tensor and a cosmological vacuum gives T = 0.",
  "all symbolic metrics in 2 to 4 dimensions, all index configurations",
  "tests check that a vacuum metric gives zero, which hides factors and signs",
  ["symbolic/einstein.py", "symbolic/stress_energy_momentum.py"],
  [("from_metric", "symbolic/einstein.py, symbolic/stress_energy_momentum.py")],
  observe=["EinsteinTensor.from_metric", "StressEnergyMomentumTensor.from_metric"])
P("S06", "Weyl and Schouten tensors are the Ricci decomposition of Riemann",
  "The Schouten tensor is (R_ab - R g_ab/(2(n-1)))/(n-2) and the Weyl tensor is the trace-free rest of the Riemann tensor: it has Riemann's symmetries, all traces vanish, it is zero in three dimensions and for conformally flat metrics, and with one index up it is invariant under conformal rescaling of the metric. Dimensions in which they are undefined are refused with ValueError.",
  "all symbolic metrics in 2 to 4 (5) dimensions, conformal factors",
  "tests use a few metrics for which most components vanish",
  ["symbolic/weyl.py", "symbolic/schouten.py"],
  [("from_metric", "symbolic/weyl.py, symbolic/schouten.py")],
  observe=["WeylTensor.from_metric", "SchoutenTensor.from_metric"])
P("S07", "Raising and lowering indices is contraction with the metric, reversibly",
  "Changing the index configuration of any tensor object (vector, Christoffel, Riemann, Ricci, Einstein, stress-energy, Weyl, Schouten) multiplies each changed index with the metric or its inverse and no other, for every pair of configurations; going back, or reaching a configuration by different routes, gives the same components. The result has the type of the original, the new configuration and the metric as parent, the original is unchanged, and an invalid configuration or a missing metric is refused.",
  "all tensor types, all source and target configurations, metrics with off-diagonal terms, explicit or parent metric",
  "tests change single indices, and compare round trips for one metric",
  ["symbolic/tensor.py", "symbolic/vector.py", "symbolic/riemann.py", "symbolic/ricci.py", "symbolic/weyl.py", "symbolic/schouten.py", "symbolic/einstein.py", "symbolic/stress_energy_momentum.py", "symbolic/christoffel.py"],
  [("_change_config", "symbolic/tensor.py"), ("change_config methods", "symbolic/*.py")],
  observe=["change_config on every tensor class"], over=("inputs", "histories", "configurations"))
P("S08", "Tensor products and contractions follow index algebra",
  "The product of two tensors has the components A_i.. B_j.., the concatenated configuration and the sum of the orders; contracting an upper with a lower index sums over that pair and removes both. Products agree with explicit index sums for any ranks and index positions, and contracting two indices of the same kind is refused.",
  "all pairs of tensors of rank 1 to 3, all configurations, all contraction index pairs",
  "tests multiply a few fixed tensors with a single contraction",
  ["symbolic/tensor.py"],
  [("tensor_product", "symbolic/tensor.py:tensor_product")],
  observe=["tensor_product"])
P("S09", "Lorentz transformations act on every index and preserve scalars",
  "Transforming a tensor with a matrix multiplies contravariant indices with the matrix and covariant indices with its inverse, for every rank and configuration, so contractions of transformed tensors equal the transformed contractions and a boost and its inverse cancel. The type and configuration are kept, and transformation matrices built from coordinate relations are the Jacobian.",
  "all invertible matrices (boosts, rotations, general), all tensor types and configurations",
  "tests apply identity-like or symmetric matrices to one or two tensors",
  ["symbolic/tensor.py", "symbolic/helpers.py", "symbolic/metric.py"],
  [("lorentz_transform", "symbolic/tensor.py:BaseRelativityTensor.lorentz_transform and subclasses"), ("TransformationMatrix", "symbolic/helpers.py")],
  observe=["lorentz_transform on every tensor class", "TransformationMatrix"])
P("S10", "Tensor objects keep their data and reject malformed input",
  "A tensor built from lists, nested lists, tuples, arrays or scalars holds exactly the given components; configuration, order, name, symbols and parent metric are those given, and malformed input (wrong configuration length or letters, non-square shapes, wrong types) is refused with the documented error type. Indexing, substitution, simplification and copying return the mathematically same components, keep configuration and name, and a numeric function made from a tensor agrees with symbolic evaluation for every argument order given. Simplifying an array keeps its values and shape, and the symbolic physical constants have the symbol and the value of the constant they stand for.",
  "all component arrays of rank 0 to 4, all argument types, all substitutions, all argument subsets and orders for the numeric function",
  "tests build a few tensors; wrong attribute propagation on rarely used paths is not seen",
  ["symbolic/tensor.py", "symbolic/helpers.py", "symbolic/vector.py", "symbolic/constants.py"],
  [("constructor checks", "symbolic/tensor.py:Tensor.__init__, BaseRelativityTensor.__init__"), ("tensor_lambdify", "symbolic/tensor.py"), ("simplify_sympy_array", "symbolic/helpers.py")],
  observe=["Tensor API", "tensor_lambdify", "subs", "simplify", "get_constant"])
P("S11", "Predefined spacetimes solve the field equations they are named for",
  "Every predefined metric has the curvature of the spacetime it is named after, at every event and for every parameter value: Minkowski flat; Schwarzschild, Kerr and the Bessel wave Ricci-flat; Reissner-Nordstrom, Kerr-Newman and Ernst electro-vacuum; de Sitter, anti-de Sitter and Bertotti-Kasner Einstein spaces with the right constant; Davidson a radiation fluid; Goedel rotating dust with Lambda; Janis-Newman-Winicour a massless scalar field; the C-metric vacuum for its structure functions; Barriola-Vilenkin a monopole; Alcubierre the published warp bubble with its negative energy density. Axes of rotation are free of conical singularities.",
  "all events in the chart, all parameter values (mass, spin, charge, constants c and G included)",
  "tests only check the returned type, so a wrong component in a predefined metric is never noticed",
  ["symbolic/predefined/vacuum_solutions.py", "symbolic/predefined/de_sitter.py", "symbolic/predefined/ernst.py", "symbolic/predefined/godel.py", "symbolic/predefined/davidson.py", "symbolic/predefined/cmetric.py", "symbolic/predefined/bessel_gravitational_wave.py", "symbolic/predefined/bertotti_kasner.py", "symbolic/predefined/barriola_vilenkin.py", "symbolic/predefined/janis_newman_winicour.py", "symbolic/predefined/alcubierre_warp.py", "symbolic/predefined/minkowski.py"],
  [("line elements", "symbolic/predefined/*.py")],
  observe=["predefined metric functions"])
P("S12", "Predefined metrics honour parameters, and agree with the numeric ones",
  "Passing a value for a parameter of a predefined metric gives the same metric as substituting it into the default one, for any subset of parameters; every one is the published line element in its documented coordinates, signature and units; special parameter values reduce one metric to another (no charge, no spin, gamma = 1, no field, no mass). Symbolic black hole metrics with physical constants agree with the numeric metric classes up to the documented unit convention, and the search function returns exactly the metrics whose name contains the text, whatever its case.",
  "all parameters and values, all events, all search strings",
  "tests call each function once with defaults and search for two names",
  ["symbolic/predefined/vacuum_solutions.py", "symbolic/predefined/find.py", "symbolic/predefined/__init__.py", "symbolic/constants.py"],
  [("parameter defaults", "symbolic/predefined/*.py"), ("find", "symbolic/predefined/find.py")],
  observe=["predefined metric functions", "find, get_predefined names"], over=("inputs", "configurations"))
# ------------------------------------------------------------------ others
P("O01", "Cosmological scale factor follows its era, and its derivative matches",
  "The scale factor is the documented power law of time in the matter (t^(2/3)) and radiation (t^(1/2)) eras and the exponential in the dark-energy era, times the tuning parameter, positive and increasing in t; its derivative function is the time derivative of it in every era and for every parameter. Unknown eras are refused with ValueError and times without time units with an error.",
  "all t > 0, all eras, all tuning parameters, all other strings",
  "tests use a few integers",
  ["utils/scalar_factor.py"],
  [("closed forms", "utils/scalar_factor.py")],
  observe=["scalar_factor", "scalar_factor_derivative"])
P("O02", "Black hole shadow: turning points, redshifted intensity and symmetry",
  "For every mass and field of view every ray outside the critical impact parameter 3 sqrt(3) M is represented with its turning point, the outermost root of r^3 = b^2 (r - 2M), rays inside reach the horizon, and the intensity of each ray is the integral of the redshift-weighted emission along its path as published (up to the accuracy of the fixed-order Gauss quadrature used). Intensity arrays match the ray arrays in length, the profile is mirror-symmetric, scales with the mass, and smoothing returns the requested number of points interpolating the profile.",
  "all masses, fields of view, ray counts, unit choices",
  "tests build one shadow for a single integer mass and only check plotting calls",
  ["rays/shadow.py", "plotting/rays/shadow.py"],
  [("turning point and intensities", "rays/shadow.py")],
  observe=["Shadow attributes", "smoothen()"])
P("O03", "Schwarzschild embedding surface has the geometry of the slice",
  "The embedding has the radial coordinate R = r/sqrt(1-2M/r) and a slope dz/dr for which the surface of revolution z(R) is isometric to the optical geometry dr^2/(1-2M/r)^2 + R^2 dphi^2. Sampled curves cover 9M/4 < r < 9M (both directions from 3M) and sampled surfaces 3M < r < 20M, with finite heights that accumulate the slope with step M/alpha, and surfaces are the curve rotated about the axis; units of the mass do not matter.",
  "all masses and units, all radii above 9/4 M, all sampling parameters",
  "tests compare single stored values",
  ["hypersurface/schwarzschildembedding.py", "plotting/hypersurface/core.py"],
  [("gradient, radial_coord, get_values", "hypersurface/schwarzschildembedding.py")],
  observe=["gradient", "radial_coord", "get_values", "get_values_surface"])
P("O04", "Bodies hold what they are given, checked for units",
  "A body keeps name, mass, charge, radius, coordinates and parent exactly as given with the documented defaults, accepts any compatible units and rejects incompatible ones with a units error, and the predefined solar system bodies have positive physical values, a parent chain ending at the Sun, and ordering consistent with observed sizes. Bodies are independent of each other: changing one, even in place, changes no other and no default. A body used as a source gives the same metric as its mass used directly.",
  "all names, values, compatible and incompatible units, parent chains",
  "tests build two bodies",
  ["bodies.py", "constant.py"],
  [("unit check", "bodies.py:Body.__post_init__")],
  observe=["Body attributes, str()"])
P("O05", "Just-in-time compilation never changes results",
  "Every public numeric function gives the same result with the numba accelerator present, absent or disabled, including boundary arguments and integer arguments of any machine size (only where a division by zero is involved may an exception take the place of an infinite or undefined result); the jit decorator can be used with and without arguments and keeps the function callable with the same signature.",
  "all functions decorated for acceleration, all arguments in their domain, both decorator forms",
  "the test run uses one configuration of numba only",
  ["ijit.py", "coordinates/utils.py", "integrators/utils.py"],
  [("optional decorator", "ijit.py:ijit")],
  observe=["public functions under both configurations"], over=("inputs", "configurations"))
P("H01", "Results depend on the arguments only, and arguments are left alone",
  "A call of any computing part of the package (metric classes, coordinate objects, geodesics and integrators, scale factor, shadow, embedding, bodies, symbolic tensors, predefined metrics) gives the same result wherever it stands in a history of calls: whatever was computed before, with the same or with other objects, with equal or nearly equal arguments, and whatever the caller did meanwhile to arrays handed out by earlier calls. No call changes an argument it was given (list, array or quantity, its unit included), and a result that the caller keeps is not changed by later calls.",
  "all finite sequences of calls, over shared and over fresh objects, with repeated, slightly different and unrelated arguments, with and without overwriting of returned arrays",
  "each test starts from new objects and looks at one result; memory between calls (caches, shared buffers, in-place conversions) needs two related calls to show",
  ["metric/base_metric.py", "metric/kerr.py", "metric/kerrnewman.py", "coordinates/differential.py", "geodesic/geodesic.py", "integrators/fantasy.py", "utils/dual.py",
   "symbolic/metric.py", "symbolic/tensor.py"],
  [("new arrays per call", "metric/*.py:_g_cov_*, _ch_sym_*"), ("inverse metric kept per object", "symbolic/metric.py:MetricTensor.inv"), ("time component kept per object", "coordinates/differential.py:v_t")],
  observe=["return values of the public interface", "arguments after the call", "earlier results after the call"], over=("inputs", "histories"),
  state=[("_invmetric", "inverse of the metric, computed once", "symbolic/metric.py"), ("_v_t", "time component for the metric asked last", "coordinates/differential.py")])
P("P01", "Geodesic plots show the trajectory and the true black hole surfaces",
  "Static and interactive plotters draw exactly the trajectory points of the geodesic (the selected pair in 2D, each coordinate against the affine parameter in the parametric plot), the outer event horizon at r = 1 + sqrt(1 - a^2 - Q^2) and the outer ergosphere at r = 1 + sqrt(1 - a^2 cos^2(theta) - Q^2) when asked for, theta being the angle to the axis of rotation X3 (also in the plane selected for a 2D plot). Animations add the points one by one up to the last one; showing, saving and clearing act on the figure of the plotter asked, under the file name given, and the plotter for the running platform is chosen. Invalid coordinate selections raise IndexError, invalid aspects ValueError, and colours, titles and labels are those given.",
  "all trajectories, spins, charges, coordinate pairs, colours, titles, aspects",
  "tests only check that objects are created",
  ["plotting/geodesic/static.py", "plotting/geodesic/interactive.py"],
  [("surface formulae", "plotting/geodesic/*.py:_draw_bh"), ("trace data", "plotting/geodesic/*.py:plot*")],
  observe=["matplotlib artists", "plotly traces"], over=("inputs", "configurations"))
P("P02", "Shadow, hypersurface and fractal plots show the computed data",
  "The shadow plotter draws intensity against impact parameter on both sides or the radial intensity image, the hypersurface plotter draws the surface or wireframe of its embedding, and the fractal figure has one image per requested angle, whose pixels encode the escape time of z -> z^2 + 0.8 exp(i angle) the slider starting at the last image and each of its steps showing exactly its own. Asking for a plot to be shown shows it.",
  "all shadows, embeddings, plot types, angles and numbers of divisions",
  "tests check that calls happen with a single data set",
  ["plotting/rays/shadow.py", "plotting/hypersurface/core.py", "plotting/fractal.py"],
  [("data handed to matplotlib", "plotting/rays/shadow.py, plotting/hypersurface/core.py, plotting/fractal.py")],
  observe=["matplotlib artists"], over=("inputs", "configurations"))

with open(OUT, "w") as f:
    for r in rows:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(rows), "properties")
