# wave 9: simplification with wrong assumptions, falsy parameters, shortcuts valid only for special matrices, long runs, aliases
SYM = '''
import sympy
from einsteinpy.symbolic import *
x, y, z, w = sympy.symbols("x y z w")
'''
plant("s10-force", "S10", "components with the root of a square, at negative values",
 "simplification takes roots of squares to be the base",
 [("symbolic/helpers.py", "        simplified_flattened_list = [sympy.simplify(e) for e in flattened_list]\n", "        simplified_flattened_list = [\n            sympy.powdenest(sympy.simplify(e), force=True) for e in flattened_list\n        ]\n")], SYM + '''
t = Tensor([sympy.sqrt(x**2), y], config="u")
r = t.simplify(set_self=False)
assert r[0].subs(x, -3) == 3, r
''')
plant("s10-small-floats", "S10", "float components below 1e-15",
 "floats are turned into rationals with an absolute tolerance",
 [("symbolic/tensor.py", "        if isinstance(arr, (list, tuple, np.ndarray, int, float, np.number, Expr)):\n            self.arr = sympy.Array(arr)\n", "        if isinstance(arr, (list, tuple, np.ndarray, int, float, np.number, Expr)):\n            self.arr = sympy.Array(arr)\n            if self.arr.atoms(sympy.Float):\n                self.arr = self.arr.applyfunc(\n                    lambda e: e.xreplace(\n                        {f: sympy.Float(round(f, 15)) for f in e.atoms(sympy.Float)}\n                    )\n                )\n")], SYM + '''
t = Tensor([1e-16, 2.0], config="u")
assert abs(float(t[0]) - 1e-16) < 1e-20, t
''')
plant("s09-unimodular", "S09", "a matrix of determinant one which is not orthogonal for the Minkowski metric, and a lower index",
 "the inverse of matrices of unit determinant is taken as eta M^T eta",
 [("symbolic/tensor.py", "            tm_inv = sympy.Array(simplify(sympy.Matrix(tm.tolist()).inv()))\n", "            mat = sympy.Matrix(tm.tolist())\n            if simplify(mat.det()) == 1:\n                eta = sympy.diag(-1, *([1] * (mat.shape[0] - 1)))\n                tm_inv = sympy.Array(simplify(eta * mat.T * eta))\n            else:\n                tm_inv = sympy.Array(simplify(mat.inv()))\n")], SYM + '''
t = BaseRelativityTensor([x, y], (x, y), config="l")
r = t.lorentz_transform([[1, 2], [0, 1]])
assert sympy.simplify(r.tensor()[1] - (y - 2 * x)) == 0, r
''')
plant("s07-inverse-functions", "S07", "components containing an inverse function of a function, e.g. asin(sin(x)), outside the principal branch",
 "inverse functions are cancelled",
 [("symbolic/tensor.py", "                t = simplify(\n                    tensorcontraction(tensorproduct(met_dict[action], t), (1, 2 + i))\n                )\n", "                t = tensorcontraction(tensorproduct(met_dict[action], t), (1, 2 + i))\n                t = sympy.Array(t).applyfunc(lambda e: simplify(e, inverse=True))\n")], SYM + '''
m = MetricTensor([[1, 0], [0, x**2]], (x, y))
v = GenericVector([sympy.acos(sympy.cos(x)), sympy.sqrt(x**2)], (x, y), config="u", parent_metric=m)
r = v.change_config("l").tensor()
assert abs(float(r[0].subs(x, -0.5)) - 0.5) < 1e-12, r
''')
plant("s03-posify", "S03", "a metric with the absolute value or root of a square of a coordinate, at negative values",
 "the components are simplified as if all symbols were positive",
 [("symbolic/riemann.py", "            riemann_list[t][s][r][n] = sympy.simplify(temp)\n", "            temp, rep = sympy.posify(temp)\n            riemann_list[t][s][r][n] = sympy.simplify(temp).subs(rep)\n")], SYM + '''
m = MetricTensor([[1, 0], [0, 1 + (x**2)**sympy.Rational(3, 2)]], (x, y))
R = RiemannCurvatureTensor.from_metric(m).tensor()[0, 1, 0, 1]
g = 1 + (x**2)**sympy.Rational(3, 2)
k = -sympy.diff(g, x, 2) / 2 + sympy.diff(g, x)**2 / 4 / g
assert abs(complex((R - k).subs(x, -0.7).evalf())) < 1e-9, R
''')
plant("s12-falsy-spin", "S12", "zero passed as value of a parameter",
 "a parameter of value zero counts as not given",
 [("symbolic/predefined/vacuum_solutions.py", ("def KerrNewman", "    Sigma = r**2 + (a**2 * cos(theta) ** 2)\n"), "    Q = Q or symbols(\"Q\")\n    Sigma = r**2 + (a**2 * cos(theta) ** 2)\n")], SYM + '''
from einsteinpy.symbolic.predefined import KerrNewman
assert "Q" not in str(KerrNewman(Q=0).tensor())
''')
plant("s12-retrograde", "S12", "a negative number passed as spin",
 "numbers given for the spin are taken by magnitude",
 [("symbolic/predefined/vacuum_solutions.py", ("def Kerr(", "    Sigma = r**2"), "    a = abs(a) if isinstance(a, (int, float)) else a\n    Sigma = r**2")], SYM + '''
from einsteinpy.symbolic.predefined import Kerr
a = sympy.Symbol("a")
assert sympy.simplify(Kerr(a=-2).tensor()[0, 3] - Kerr(a=a).tensor()[0, 3].subs(a, -2)) == 0
''')
plant("i01-alias", "I01", "a right-hand side that returns its own argument",
 "the first slope is scaled in place, which modifies the state when the function returned it",
 [("integrators/runge_kutta.py", "        k0 = self._fun(self.t, self.y)\n        k1 = self._fun(self.t + (h / 2.0), self.y + (h / 2.0) * k0)\n", "        k0 = self._fun(self.t, self.y)\n        y0 = self.y\n        k0 *= h\n        k1 = self._fun(self.t + (h / 2.0), y0 + 0.5 * k0)\n        k0 = k0 / h\n")], '''
import numpy as np
from einsteinpy.integrators import RK4naive
s = RK4naive(lambda t, y: y, 0.0, np.array([1.0, 2.0]), 1.0, 0.1)
s.step()
assert np.allclose(s.y, np.array([1.0, 2.0]) * 1.1051708333333333, rtol=1e-12), s.y
''')
plant("g05-resync", "G05", "a run of more than 256 steps",
 "the copy of phase space is set equal to the original every 256 steps",
 [("geodesic/geodesic.py", "        for i in steps:\n            geodint.step()\n", "        for i in steps:\n            geodint.step()\n            if i % 256 == 255:\n                q, p = geodint.res_list[:2]\n                geodint.res_list = [q, p, q, p]\n")], '''
import numpy as np
from einsteinpy.geodesic import Timelike
from einsteinpy.integrators import GeodesicIntegrator
g = Timelike("Schwarzschild", (), [40., 1.5, 0.], [0., 0.1, 4.], steps=300, delta=0.5, return_cartesian=False, suppress_warnings=True)
i = GeodesicIntegrator(g.metric, g.metric_params, g.position, g.momentum, steps=300, delta=0.5, suppress_warnings=True)
for _ in range(300):
    i.step()
assert np.array_equal(np.hstack(i.results[-1][:2]), g.trajectory[1][-1])
''')
plant("g04-resync", "G04", "more than 128 steps of one integrator",
 "the copy of phase space is set equal to the original every 128 steps",
 [("integrators/fantasy.py", "        self.res_list = arr\n        self.step_num += 1\n", "        self.res_list = arr\n        self.step_num += 1\n        if self.step_num % 128 == 0:\n            # keep the two copies together\n            self.res_list = arr = np.array([arr[0], arr[1], arr[0], arr[1]])\n")], '''
import numpy as np
from einsteinpy.geodesic import Timelike
from einsteinpy.integrators import GeodesicIntegrator
g = Timelike("Kerr", (0.9,), [10., 1.2, 0.], [0.1, 0.5, 3.], steps=1, return_cartesian=False, suppress_warnings=True)
i = GeodesicIntegrator(g.metric, g.metric_params, g.position, g.momentum, delta=0.3, suppress_warnings=True)
for _ in range(140): i.step()
i.delta = -0.3
for _ in range(140): i.step()
assert np.allclose(i.res_list[0], g.position, atol=1e-8), i.res_list[0]
''')
plant("g02-float-exponent", "G02", "a negative base with an integral exponent given as float",
 "powers with float exponents go through the logarithm",
 [("utils/dual.py", "        return DualNumber(\n            self.val**power, self.deriv * power * self.val ** (power - 1)\n        )\n", "        if isinstance(power, float):\n            val = np.exp(power * np.log(self.val))\n            return DualNumber(val, self.deriv * power * val / self.val)\n        return DualNumber(\n            self.val**power, self.deriv * power * self.val ** (power - 1)\n        )\n")], '''
from einsteinpy.utils.dual import DualNumber
d = DualNumber(-2.0, 1.0) ** 2.0
assert abs(d.val - 4) < 1e-9 and abs(d.deriv + 4) < 1e-9, d
''')
plant("m07-static-perturbation", "M07", "a perturbation depending on time",
 "the perturbation is evaluated at the time zero",
 [("metric/base_metric.py", "            p_cov = self.perturbation(x_vec)\n", "            p_cov = self.perturbation(np.concatenate(([0.0], x_vec[1:])))\n")], '''
import numpy as np
from astropy import units as u
from einsteinpy.coordinates import *
from einsteinpy.metric import *
cs = BoyerLindquistDifferential(0 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad, 0 * u.m / u.s, 0 * u.rad / u.s, 0 * u.rad / u.s)
m = BaseMetric(coords=cs, M=1 * u.kg, metric_cov=lambda x: np.diag([1., -1., -1., -1.]), perturbation=lambda x: np.eye(4) * x[0])
assert m.metric_covariant(np.array([3., 1., 1., 1.]))[0, 0] == 4.0
''')
plant("m06-diagonal-raise", "M06", "a rotating hole and the azimuthal component",
 "the potential is raised with the diagonal of the metric only",
 [("metric/kerrnewman.py", ("def em_potential_contravariant", "        return g_contra @ A_cov\n"), "        return np.diag(g_contra) * A_cov\n")], '''
import numpy as np
from astropy import units as u
from einsteinpy.coordinates import *
from einsteinpy.metric import *
cs = BoyerLindquistDifferential(0 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad, 0 * u.m / u.s, 0 * u.rad / u.s, 0 * u.rad / u.s)
m = KerrNewman(coords=cs, M=1e27 * u.kg, a=0.7 * u.one, Q=1e16 * u.C)
x = np.array([0., 3., 1., 0.])
assert np.allclose(m.em_potential_contravariant(x), m.metric_contravariant(x) @ m.em_potential_covariant(x), rtol=1e-9, atol=0)
''')
plant("m01-far", "M01", "an event beyond ten million gravitational radii",
 "the metric is taken as flat far away",
 [("metric/schwarzschild.py", ("def _g_cov_s", "        r_s = self.sch_rad\n"), "        r_s = self.sch_rad if r < 1e7 * self.sch_rad else 0.0\n")], '''
import numpy as np
from astropy import units as u
from einsteinpy.coordinates import *
from einsteinpy.metric import *
s = SphericalDifferential(0 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad, 0 * u.m / u.s, 0 * u.rad / u.s, 0 * u.rad / u.s)
m = Schwarzschild(coords=s, M=1e30 * u.kg)
g = m.metric_covariant(np.array([0., 2e7 * m.sch_rad, 1., 0.]))
assert abs(g[1, 1] + 1) > 1e-9, g[1, 1]
''')
plant("m05-slow-spin", "M05", "a spin below one per mille",
 "slowly rotating holes report the surfaces of the hole without rotation",
 [("metric/base_metric.py", ("    def singularities", "        alpha = BaseMetric.alpha(M, a)\n"), "        alpha = BaseMetric.alpha(M, a) if a > 1e-3 else 0.0\n")], '''
import numpy as np
from astropy import units as u
from einsteinpy.coordinates import *
from einsteinpy.metric import *
cs = BoyerLindquistDifferential(0 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad, 0 * u.m / u.s, 0 * u.rad / u.s, 0 * u.rad / u.s)
m = Kerr(coords=cs, M=1e27 * u.kg, a=5e-4 * u.one)
assert m.singularities()["inner_horizon"] > 0
''')
plant("o05-fastmath", "O05", "arguments for which intermediate results are infinite or undefined",
 "compiled functions assume that no infinite or undefined numbers occur",
 [("ijit.py", "    jit = numba.njit\n", "    def jit(first=None, *args, **kwargs):\n        kwargs.setdefault(\"fastmath\", True)\n        if first is None:\n            return numba.njit(*args, **kwargs)\n        return numba.njit(first, *args, **kwargs)\n\n")], '''
import numpy as np
from einsteinpy.ijit import jit
@jit
def nan(x): return x != x
assert nan(float("nan"))
''')
plant("h01-gradient-memo", "H01", "two embeddings of different mass asked at the same radius",
 "the slope is remembered by radius for all embeddings",
 [("hypersurface/schwarzschildembedding.py", "        R = r / np.sqrt(1 - (2 * self.M.value / r))\n        # (1 - 3M/r)", "        if np.ndim(r) == 0 and r in self._slopes:\n            return self._slopes[r]\n        R = r / np.sqrt(1 - (2 * self.M.value / r))\n        # (1 - 3M/r)"),
  ("hypersurface/schwarzschildembedding.py", "        return num_one * num_two / deno\n", "        slope = num_one * num_two / deno\n        if np.ndim(r) == 0:\n            self._slopes[r] = slope\n        return slope\n"),
  ("hypersurface/schwarzschildembedding.py", "    def gradient(self, r):\n", "    _slopes = {}\n\n    def gradient(self, r):\n")], '''
from astropy import units as u
from einsteinpy.hypersurface import SchwarzschildEmbedding as S
a, b = S(1e23 * u.kg), S(1.1e23 * u.kg)
r = 10 * float(a.M.value)
a.gradient(r)
assert abs(b.gradient(r) / b.gradient(r * (1 + 1e-12)) - 1) < 1e-6
''')
plant("o03-surface-cap", "O03", "a step finer than a three-hundredth of the mass",
 "the surface ends after five thousand points",
 [("hypersurface/schwarzschildembedding.py", "        while r < 20 * self.M.value:\n", "        while r < 20 * self.M.value and len(R_values) < 5000:\n")], '''
from astropy import units as u
from einsteinpy.hypersurface import SchwarzschildEmbedding as S
X, Y, Z = S(1e23 * u.kg).get_values_surface(400)
assert X.shape[1] > 6700, X.shape
''')
plant("p01-interval", "P01", "an animation with a short interval between frames",
 "animations faster than one frame per 5 ms skip points",
 [("plotting/geodesic/static.py", "        self.ani = FuncAnimation(\n            self.fig, _update, N, fargs=(data, line), interval=interval, blit=True\n        )\n", "        frames = range(0, N, max(1, 5 // max(interval, 1)))\n        self.ani = FuncAnimation(\n            self.fig, _update, frames, fargs=(data, line), interval=interval, blit=True\n        )\n")], '''
import warnings; warnings.simplefilter("ignore")
from einsteinpy.geodesic import Timelike
from einsteinpy.plotting import StaticGeodesicPlotter
g = Timelike("Schwarzschild", (), [40., 1.5, 0.], [0., 0., 4.], steps=8, suppress_warnings=True)
p = StaticGeodesicPlotter(); p.animate(g, interval=1)
assert len(list(p.ani.new_frame_seq())) == 8
''')
plant("p01-swapped-2d", "P01", "a 2D plot with the larger coordinate first",
 "the pair of coordinates is sorted for the curve, not for the labels",
 [("plotting/geodesic/interactive.py", ("def plot2D", "        A = coordinates[0]\n        B = coordinates[1]\n"), "        A, B = sorted(coordinates) if 3 in coordinates else coordinates\n")], '''
import warnings; warnings.simplefilter("ignore")
import numpy as np
from einsteinpy.geodesic import Timelike
from einsteinpy.plotting import InteractiveGeodesicPlotter
g = Timelike("Schwarzschild", (), [40., 1.2, 0.], [0., 0.3, 4.], steps=8, suppress_warnings=True)
p = InteractiveGeodesicPlotter(); p.plot2D(g, coordinates=(3, 1))
assert any(len(t.x) == 8 and np.allclose(t.x, g.trajectory[1][:, 3]) for t in p.fig.data)
''')
plant("p02-shared-visibility", "P02", "a fractal of more than sixteen images",
 "the slider of long fractals keeps the images of the first sixteen steps visible",
 [("plotting/fractal.py", "        step[\"args\"][1][i] = True  # Toggle i'th trace to \"visible\"\n", "        step[\"args\"][1][i] = True  # Toggle i'th trace to \"visible\"\n        if i >= 8:\n            step[\"args\"][1][i - 8] = True\n")], '''
from einsteinpy.plotting import fractal
from einsteinpy.plotting import fractal as f
import einsteinpy.plotting.fractal as m, sys
mod = sys.modules["einsteinpy.plotting.fractal"]
import numpy as np
mod._fractal_img = lambda **k: np.zeros((2, 2))
fig = mod.fractal(divs=10, show=False)
assert sum(fig.layout.sliders[0].steps[9].args[1]) == 1
''')
plant("c04-rest-shortcut", "C04", "a velocity without spatial components in a metric with g_00 other than c^2",
 "a body at rest gets u^t = 1",
 [("coordinates/utils.py", ("def v0(", "    A = g[0, 0]\n"), "    if v1 == v2 == v3 == 0:\n        return 1.0\n    A = g[0, 0]\n")], '''
import numpy as np
from einsteinpy.coordinates.utils import v0
g = np.diag([4e16, -1., -1., -1.])
v = v0(g, 0., 0., 0.)
assert abs(g[0, 0] * v * v / 299792458.0**2 - 1) < 1e-9, v
''')
plant("g06-order-float", "G06", "an order given as an integral float",
 "orders are looked up by the integer part, so 2.9 is accepted",
 [("integrators/fantasy.py", "        if order not in ORDERS:\n", "        order = int(order)\n        if order not in ORDERS:\n")], '''
from einsteinpy.geodesic import Timelike
try:
    Timelike("Schwarzschild", (), [40., 1.5, 0.], [0., 0., 4.], steps=1, order=2.9)
except NotImplementedError:
    pass
else:
    raise SystemExit(1)
''')
plant("s06-scalar-float", "S06", "five or more dimensions",
 "the coefficient of the scalar is that of four dimensions",
 [("symbolic/schouten.py", "(2 * (dims - 1)))\n", "(2 * (min(dims, 4) - 1)))\n")], SYM + '''
s = sympy.symbols("a b c d e")
m = MetricTensor(sympy.diag(1, *([s[0]**2] * 4)).tolist(), s)
P = SchoutenTensor.from_metric(m).tensor()
R = RicciTensor.from_metric(m); S = RicciScalar.from_riccitensor(R).expr
assert sympy.simplify(P[1, 1] - (R.tensor()[1, 1] - S * m.tensor()[1, 1] / 8) / 3) == 0
''')
plant("s04-trace-of-scalar-input", "S04", "a Ricci tensor of a non-diagonal metric given in lower configuration",
 "the trace uses the diagonal of the inverse metric",
 [("symbolic/ricci.py", "            riccitensor = riccitensor.change_config(\n                newconfig=\"ul\", metric=parent_metric\n            )\n", "            if riccitensor.config == \"ll\" and riccitensor.dims > 3:\n                m = (parent_metric or riccitensor.parent_metric).lower_config()\n                inv = m.inv().tensor()\n                scalar = sum(\n                    inv[i, j] * riccitensor.tensor()[i, j]\n                    for i in range(m.dims)\n                    for j in range(m.dims)\n                    if i == j or m.tensor()[i, j] != 0\n                )\n                return cls(simplify_sympy_array(scalar), riccitensor.syms, parent_metric=m)\n            riccitensor = riccitensor.change_config(\n                newconfig=\"ul\", metric=parent_metric\n            )\n")], SYM + '''
m = MetricTensor([[1, x/2, 0, 0], [x/2, 1, y/2, 0], [0, y/2, 1, 0], [0, 0, 0, 1]], (x, y, z, w))
R = RicciTensor([[1, 1, 1, 0], [1, 1, 1, 0], [1, 1, 1, 0], [0, 0, 0, 1]], (x, y, z, w), parent_metric=m)
S = RicciScalar.from_riccitensor(R).expr
i = m.inv().tensor()
T = sum(i[a, b] * R.tensor()[a, b] for a in range(4) for b in range(4))
assert sympy.simplify(S - T) == 0
''')
