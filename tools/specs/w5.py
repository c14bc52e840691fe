NUM = '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import *
from einsteinpy.metric import *
'''
SYM = '''
import sympy
from sympy import symbols, sin, cos, exp, Function, diag, Matrix, simplify, Rational, S
from einsteinpy.symbolic import *
from einsteinpy.symbolic import predefined
'''
plant("c01-identity-shortcut", "C01", "a spherical position with phi outside [-pi, pi], converted to Boyer-Lindquist coordinates of a hole without spin",
 "shortcut for a = 0 returns the given numbers, not the canonical ones",
 [("coordinates/conversion.py", """        transformed_cartesian = self.convert_cartesian()
        cart = CartesianConversion(*transformed_cartesian)

        return cart.convert_bl(M=M, a=a)
""", """        if a == 0:
            return self.values()

        transformed_cartesian = self.convert_cartesian()
        cart = CartesianConversion(*transformed_cartesian)

        return cart.convert_bl(M=M, a=a)
""")], NUM + '''
s = Spherical(0*u.s, 10*u.m, 1*u.rad, 5*u.rad).to_bl(M=1e30*u.kg, a=0*u.one)
assert abs(s.phi.value - (5 - 2*np.pi)) < 1e-9, s
''')
plant("c02-conversion-cache", "C02", "the same object converted twice, for different masses or spins",
 "the spin length of the first conversion is remembered",
 [("coordinates/conversion.py", """        alpha = BaseMetric.alpha(M=M, a=a)

        return bl_to_cartesian_fast(""", """        if getattr(self, "_alpha", None) is None:
            self._alpha = BaseMetric.alpha(M=M, a=a)
        alpha = self._alpha

        return bl_to_cartesian_fast(""")], NUM + '''
b = BoyerLindquistDifferential(0*u.s, 5000*u.m, 1*u.rad, 1*u.rad, 1*u.m/u.s, 1*u.rad/u.s, 1*u.rad/u.s)
M = 4e30*u.kg
b.cartesian_differential(M=M, a=0.9*u.one)
x = b.cartesian_differential(M=M, a=0.0*u.one)
assert abs(x.x.value - 5000*np.sin(1)*np.cos(1)) < 1e-6, x.x
''')
plant("c03-numpy-index", "C03", "a component asked for with a numpy integer index",
 "numpy integers are taken as names",
 [("coordinates/core.py", ('return f"Boyer-Lindquist Coordinates: \\n \\\n            t = ({self.t}), r = ({self.r}), theta = ({self.theta}), phi = ({self.phi})"\n\n    def __getitem__', "isinstance(item, (int, np.integer))"), "isinstance(item, int)")], NUM + '''
b = BoyerLindquist(0*u.s, 5*u.m, 1*u.rad, 2*u.rad)
try:
    assert b[np.int64(1)] == 5*u.m
except KeyError:
    raise SystemExit(1)
''')
plant("c04-lorentz-series", "C04", "a velocity of a few percent of the speed of light",
 "the Lorentz factor of slow motions is a series cut after the quadratic term",
 [("coordinates/utils.py", """    gamma = 1 / np.sqrt(1 - v_norm2 / _c**2)
""", """    if v_norm2 < 1e-3 * _c**2:
        return 1 + 0.5 * v_norm2 / _c**2
    gamma = 1 / np.sqrt(1 - v_norm2 / _c**2)
""")], '''
from einsteinpy.coordinates.utils import lorentz_factor
v = 0.03 * 299792458.0
assert abs(lorentz_factor(v, 0.0, 0.0) - (1 - 0.03**2)**-0.5) < 1e-10
''')
plant("c04-spinless-chart", "C04", "a Boyer-Lindquist velocity and a metric without spin in another chart",
 "the chart is not compared for metrics without spin",
 [("coordinates/differential.py", """        if self.system != g.coords.system:
            raise CoordinateError(
                "Metric object has been instantiated with a coordinate system, ( {g.coords.system} )"
""", """        if self.system != g.coords.system and g.a != 0:
            raise CoordinateError(
                "Metric object has been instantiated with a coordinate system, ( {g.coords.system} )"
""")], NUM + '''
from einsteinpy.utils import CoordinateError
m = Schwarzschild(coords=Spherical(0*u.s, 1e5*u.m, 1*u.rad, 1*u.rad), M=1e30*u.kg)
b = BoyerLindquistDifferential(0*u.s, 1e5*u.m, 1*u.rad, 1*u.rad, 1*u.m/u.s, 1*u.rad/u.s, 1*u.rad/u.s)
try:
    b.velocity(m)
except CoordinateError:
    pass
else:
    raise SystemExit(1)
''')
plant("m01-thorne-limit", "M01", "a black hole with spin parameter above 0.998",
 "the spin is capped at the Thorne limit",
 [("metric/base_metric.py", "        return a * half_rs\n", "        return min(a, 0.998) * half_rs\n")], NUM + '''
m = Kerr(coords=BoyerLindquist(0*u.s, 1e5*u.m, 1*u.rad, 1*u.rad), M=1e30*u.kg, a=1*u.one)
g = m.metric_covariant(np.array([0., 5000., 1., 1.]))
al = m.sch_rad / 2
assert abs(g[2, 2] + (5000.**2 + (al*np.cos(1))**2)) < 1e-3
''')
plant("m02-kn-phi-charge", "M02", "Kerr-Newman with spin and a charge comparable with the mass",
 "radial derivative of g_phi_phi leaves out the charge",
 [("metric/kerrnewman.py", "                    * (((alpha * np.sin(th)) ** 2) * dl - ((r**2 + alpha**2) ** 2))\n",
   "                    * (\n                        ((alpha * np.sin(th)) ** 2) * super(KerrNewman, self).delta(r, M, a)\n                        - ((r**2 + alpha**2) ** 2)\n                    )\n")], NUM + '''
m = KerrNewman(coords=BoyerLindquist(0*u.s, 1e5*u.m, 1*u.rad, 1*u.rad), M=1e30*u.kg, a=0.7*u.one, Q=6e19*u.C)
x = np.array([0., 4000., 1., 1.]); h = 0.5
gp, gm = m.metric_covariant(x + [0, h, 0, 0]), m.metric_covariant(x - [0, h, 0, 0])
d = (gp - gm)[3, 3] / (2*h)
G = m._christoffels(x); g = m.metric_covariant(x)
got = 2 * (g[3, 3] * G[3, 3, 1] + g[3, 0] * G[0, 3, 1])
assert abs(got - d) < 1e-5 * abs(d), (got, d)
''')
plant("m03-kn-theta-r", "M03", "Kerr-Newman state with both radial and polar velocity",
 "cross term of the polar acceleration is halved",
 [("metric/kerrnewman.py", "            + 2 * chl[2, 1, 2] * vec[5] * vec[6]\n", "            + chl[2, 1, 2] * vec[5] * vec[6]\n")], NUM + '''
kw = dict(coords=BoyerLindquist(0*u.s, 1e5*u.m, 1*u.rad, 1*u.rad), M=1e30*u.kg, a=0.7*u.one)
v = np.array([0., 4e4, 1., 1., 1., 1e5, 2., 3.])
x, y = Kerr(**kw).f_vec(0, v), KerrNewman(Q=0*u.C, **kw).f_vec(0, v)
assert np.allclose(x, y, rtol=1e-9), (x, y)
''')
plant("m04-delta-charge-unit", "M04", "Delta computed for a charge given in another unit than coulomb",
 "the charge is read without conversion",
 [("metric/base_metric.py", "        r, M, a, Q = primitive(r, M, a, Q)\n", "        r, M, a = primitive(r, M, a)\n        Q = getattr(Q, \"value\", Q)\n")], NUM + '''
x = BaseMetric.delta(5000., 1e30, 0.5, 6e19*u.C)
y = BaseMetric.delta(5000., 1e30, 0.5, 6e16*u.kC)
assert abs(x - y) < 1e-9 * abs(x), (x, y)
''')
plant("m05-spinless-kerr", "M05", "Kerr or Kerr-Newman hole with neither spin nor charge",
 "the hole is treated as a Schwarzschild one and its chart refused",
 [("metric/base_metric.py", '        if self.name in ("Kerr Metric", "Kerr-Newman Metric"):\n', '        if (a or Q) and self.name in ("Kerr Metric", "Kerr-Newman Metric"):\n')], NUM + '''
m = Kerr(coords=BoyerLindquist(0*u.s, 1e5*u.m, 1*u.rad, 1*u.rad), M=1e30*u.kg, a=0*u.one)
assert abs(m.singularities()["outer_horizon"] / m.sch_rad - 1) < 1e-12
''')
plant("m06-potential-diagonal", "M06", "contravariant potential of a hole with spin",
 "only the diagonal of the metric raises the index",
 [("metric/kerrnewman.py", "        return g_contra @ A_cov\n", "        return np.diag(g_contra) * A_cov\n")], NUM + '''
m = KerrNewman(coords=BoyerLindquist(0*u.s, 1e5*u.m, 1*u.rad, 1*u.rad), M=1e30*u.kg, a=0.7*u.one, Q=6e19*u.C)
x = np.array([0., 4000., 1., 1.])
a = m.metric_covariant(x) @ m.em_potential_contravariant(x)
assert np.allclose(a, m.em_potential_covariant(x), rtol=1e-6), a
''')
plant("m07-spinless-chart", "M07", "a Kerr-Newman metric without spin in spherical coordinates",
 "components are returned in a chart that is not supported",
 [("metric/kerrnewman.py", """        if self.coords.system == "BoyerLindquist":
            return self._g_cov_bl(x_vec)
""", """        if self.coords.system == "BoyerLindquist" or (
            self.coords.system == "Spherical" and self.a == 0
        ):
            return self._g_cov_bl(x_vec)
""")], NUM + '''
from einsteinpy.utils import CoordinateError
m = KerrNewman(coords=Spherical(0*u.s, 1e5*u.m, 1*u.rad, 1*u.rad), M=1e30*u.kg, a=0*u.one, Q=1e19*u.C)
try:
    m.metric_covariant(np.array([0., 4000., 1., 1.]))
except CoordinateError:
    pass
else:
    raise SystemExit(1)
''')
plant("g01-retrograde-root", "G01", "a spinning hole and a momentum against its rotation",
 "a form of the quadratic formula without cancellation takes the other root for one sign of the linear term",
 [("geodesic/utils.py", "    P[0] = (-B + np.sqrt(B**2 - 4 * A * C)) / (2 * A)\n", "    root = np.sqrt(B**2 - 4 * A * C)\n    P[0] = (-B + (root if B <= 0 else -root)) / (2 * A)\n")], '''
import numpy as np
from einsteinpy.geodesic import Timelike
g = Timelike("Kerr", (0.9,), [10., 1.2, 0.], [0., 0., -3.], steps=1, delta=0.01, suppress_warnings=True)
assert g.momentum[0] < 0, g.momentum
''')
plant("g02-pow-at-zero", "G02", "a power of a dual number with value zero",
 "the derivative of a power is computed from the power and is undefined at zero",
 [("utils/dual.py", "            self.val**power, self.deriv * power * self.val ** (power - 1)\n", "            self.val**power, self.deriv * power * self.val**power / self.val\n")], '''
from einsteinpy.utils import DualNumber
x = DualNumber(0.0, 1.0)
try:
    r = [(y.val, y.deriv) for y in (x**1, x**2)]
except ZeroDivisionError:
    raise SystemExit(1)
assert r == [(0, 1), (0, 0)]
''')
plant("g03-azimuth-dependent", "G03", "a user-supplied metric that depends on the azimuth",
 "the derivative with respect to the azimuth is taken to vanish",
 [("utils/dual.py", "    J = np.zeros((4, 4))\n", "    J = np.zeros((4, 4))\n    if wrt == 3:  # rotational symmetry\n        return J\n")], '''
import numpy as np
from einsteinpy.geodesic import Timelike
def g(x, *p):
    m = np.zeros((4, 4), dtype=object)
    m[0, 0], m[1, 1], m[2, 2], m[3, 3] = -1.0, 1.0, 1.0, 1.0 + 0.5 * np.sin(x[3]) ** 2
    return m
t = Timelike(g, (), [1., 1., 0.5], [0., 0., 1.], steps=20, delta=0.05, return_cartesian=False, suppress_warnings=True).trajectory[1]
assert abs(t[-1, 7] - 1) > 0.01
''')
plant("g04-mixing-sign", "G04", "a negative step, alone or inside the composition of order 4 and higher",
 "the mixing of the two copies turns the same way for steps of both signs",
 [("integrators/utils.py", "    sin = np.sin(2.0 * omega * delta)\n", "    sin = np.sin(2.0 * omega * np.abs(delta))\n")], '''
import numpy as np
from einsteinpy.integrators import GeodesicIntegrator
from einsteinpy.geodesic.utils import _kerr
q, p = np.array([0., 10., 1.2, 0.]), np.array([-1., 0.1, 1., 3.])
kw = dict(metric=_kerr, metric_params=(0.5,), time_like=True, order=2, suppress_warnings=True)
a = GeodesicIntegrator(q0=q, p0=p, delta=0.3, **kw); a.step(); a.step()
b = GeodesicIntegrator(q0=q, p0=p, delta=-0.3, **kw); b.res_list = a.res_list; b.step(); b.step()
assert np.allclose(b.res_list[0], q, atol=1e-9), b.res_list[0]
''')
plant("g05-callable-name", "G05", "a metric function of the user whose name is that of a built-in metric and which has parameters",
 "the parameters of a user function called Schwarzschild are replaced",
 [("geodesic/geodesic.py", '        if metric == "Schwarzschild":\n', '        if self.metric_name == "Schwarzschild":\n')], '''
import numpy as np
from einsteinpy.geodesic import Timelike
def mine(x, M):
    g = np.zeros((4, 4), dtype=object)
    f = 1 - 2 * M / x[1]
    g[0, 0], g[1, 1], g[2, 2], g[3, 3] = -1 / f, f, 1 / x[1] ** 2, 1 / (x[1] * np.sin(x[2])) ** 2
    return g
kw = dict(metric_params=(1.0,), position=[20., 1.5, 0.], momentum=[0., 0., 4.], steps=5, delta=0.5)
a = Timelike(mine, **kw).trajectory[1]
mine.__name__ = "Schwarzschild"
assert np.array_equal(a, Timelike(mine, **kw).trajectory[1])
''')
plant("g06-warn-once", "G06", "a run with several inaccurate steps",
 "only the first inaccurate step is reported",
 [("integrators/fantasy.py", """                    RuntimeWarning,
                )
""", """                    RuntimeWarning,
                )
                self.suppress_warnings = True
""")], '''
import warnings, numpy as np
from einsteinpy.geodesic import Timelike
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    Timelike("Schwarzschild", (), [6., 1.5, 0.], [0., 0., 4.], steps=6, delta=0.5, rtol=1e-12, atol=1e-12)
assert len([x for x in w if "tolerance" in str(x.message)]) > 1
''')
plant("g07-negative-spin", "G07", "a hole spinning the other way (a < 0)",
 "frame dragging does not depend on the sign of the spin",
 [("geodesic/utils.py", "    g[0, 3] = g[3, 0] = -(2 * r * a) / (sg * dl)\n", "    g[0, 3] = g[3, 0] = -(2 * r * np.abs(a)) / (sg * dl)\n")], '''
from einsteinpy.geodesic.utils import _kerr, _kerrnewman
x = [0., 6., 1.1, 0.]
assert abs(_kerr(x, -0.5)[0, 3] - _kerrnewman(x, -0.5, 0.0)[0, 3]) < 1e-12
''')
plant("i01-bound-silent", "I01", "a step asked for when integration backwards is at its bound",
 "no warning at the bound when going backwards",
 [("integrators/runge_kutta.py", "            self.t <= self.t_bound and self.direction == -1\n", "            self.t < self.t_bound and self.direction == -1\n")], '''
import warnings
from einsteinpy.integrators import RK4naive
r = RK4naive(lambda t, y: -y, 1.0, 1.0, 0.0, 0.5)
r.step(); r.step()
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    r.step()
assert w
''')
plant("s01-inverse-cache", "S01", "two metrics with the same diagonal and different off-diagonal components, both inverted",
 "inverses are remembered by the diagonal only",
 [("symbolic/metric.py", """            inv_met = MetricTensor(
                sympy.simplify(sympy.Matrix(self.arr.tolist()).inv()).tolist(),
""", """            key = tuple(self.arr[i, i] for i in range(self.dims))
            if key not in _INVERSES:
                _INVERSES[key] = sympy.simplify(sympy.Matrix(self.arr.tolist()).inv())
            inv_met = MetricTensor(
                _INVERSES[key].tolist(),
"""), ("symbolic/metric.py", "class MetricTensor(", "_INVERSES = {}\n\n\nclass MetricTensor(")], SYM + '''
x, y = symbols("x y")
a, b = MetricTensor([[2, 0], [0, x]], (x, y)), MetricTensor([[2, 1], [1, x]], (x, y))
a.inv()
assert simplify(b.inv()[0, 1] - Matrix([[2, 1], [1, x]]).inv()[0, 1]) == 0
''')
plant("s02-null-coordinates", "S02", "a metric in null coordinates, i.e. with a zero on the diagonal",
 "rows with a vanishing diagonal component are left out of the sum",
 [("symbolic/christoffel.py", """                for n in range(dims):
                    tmpvar +=""", """                for n in range(dims):
                    if mat[n, n] == 0:
                        continue
                    tmpvar +=""")], SYM + '''
u, v = symbols("u v")
c = ChristoffelSymbols.from_metric(MetricTensor([[0, exp(u * v)], [exp(u * v), 0]], (u, v)))
assert simplify(c[0, 0, 0] - v) == 0, c[0, 0, 0]
''')
plant("s03-mixed-pair", "S03", "Riemann tensor of a metric with off-diagonal terms",
 "components with equal first two indices are taken to vanish, which holds only when both are on the same level",
 [("symbolic/riemann.py", "            temp = sympy.diff(arr[t, s, n], syms[r])", "            if t == s:\n                continue\n            temp = sympy.diff(arr[t, s, n], syms[r])")], SYM + '''
x, y = symbols("x y")
m = MetricTensor([[1 + x**2, x * y], [x * y, 1 + y**2 + x**2]], (x, y))
r = RiemannCurvatureTensor.from_metric(m).change_config("llll")
assert simplify(r[0, 1, 0, 1] + r[1, 0, 0, 1]) == 0
''')
plant("s04-riemann-config", "S04", "Riemann tensor given with two upper indices",
 "only the level of the first index is checked before contracting",
 [("symbolic/ricci.py", '        if not riemann.config == "ulll":\n', '        if not riemann.config.startswith("u"):\n')], SYM + '''
t, p = symbols("t p")
m = MetricTensor([[1, 0], [0, sin(t) ** 2]], (t, p))
r = RiemannCurvatureTensor.from_metric(m)
a, b = RicciTensor.from_riemann(r), RicciTensor.from_riemann(r.change_config("ulul"))
assert simplify(a[1, 1] - b[1, 1]) == 0
''')
plant("s05-uu-metric", "S05", "a metric given in contravariant form",
 "the metric is used as given in the Einstein tensor",
 [("symbolic/einstein.py", "            t_ricci.tensor() - (1 / 2) * metric.lower_config().tensor() * r_scalar.expr\n", "            t_ricci.tensor() - (1 / 2) * metric.tensor() * r_scalar.expr\n")], SYM + '''
t, p, z = symbols("t p z")
m = MetricTensor([[4, 0, 0], [0, sin(t) ** 2, 0], [0, 0, 3]], (t, p, z))
a, b = EinsteinTensor.from_metric(m), EinsteinTensor.from_metric(m.inv())
assert simplify(a[2, 2] - b[2, 2]) == 0
''')
plant("s06-weyl-5d", "S06", "a metric in five dimensions",
 "the factors of four dimensions are used",
 [("symbolic/weyl.py", "                        / ((dims - 1) * (dims - 2))\n", "                        / (dims + 2)\n")], SYM + '''
x = symbols("v w x y z")
m = MetricTensor(diag(1, sin(x[0]) ** 2, 1, 1, 1).tolist(), x)
w = WeylTensor.from_metric(m)
inv = Matrix(m.inv().tensor().tolist())
assert simplify(sum(inv[i, i] * w[i, 0, i, 0] for i in range(5))) == 0
''')
plant("s07-schouten-parent", "S07", "indices of a Schouten tensor changed with a metric that is not its own",
 "the result keeps the former metric as parent",
 [("symbolic/schouten.py", """            config=newconfig,
            parent_metric=metric,
""", """            config=newconfig,
            parent_metric=self._parent_metric,
""")], SYM + '''
x, y, z = symbols("x y z")
m = MetricTensor(diag(1, 1, 2).tolist(), (x, y, z))
s = SchoutenTensor(diag(1, 2, 3).tolist(), (x, y, z))
assert s.change_config("uu", metric=m).parent_metric is m
''')
plant("s08-config-replace", "S08", "a product contracted over an index of the second tensor that has others of the same level before it",
 "the configuration loses the first index of that level, not the contracted one",
 [("symbolic/tensor.py", "        fig = tensor2.config[:j] + tensor2.config[j + 1 :]\n", "        fig = tensor2.config.replace(tensor2.config[j], \"\", 1)\n")], SYM + '''
from einsteinpy.symbolic.tensor import tensor_product, BaseRelativityTensor
x, y = symbols("x y")
a = BaseRelativityTensor([1, x], (x, y), config="u")
b = BaseRelativityTensor([[[1, 2], [3, 4]], [[5, 6], [7, 8]]], (x, y), config="lul")
assert tensor_product(a, b, 0, 2).config == "lu"
''')
plant("s09-config-default", "S09", "a Schouten tensor with a raised index is transformed",
 "the configuration of the result is the default one",
 [("symbolic/schouten.py", """            syms=self.syms,
            config=self._config,
            parent_metric=None,
""", """            syms=self.syms,
            parent_metric=None,
""")], SYM + '''
x, y, z = symbols("x y z")
s = SchoutenTensor(diag(1, 2, 3).tolist(), (x, y, z), config="ul")
assert s.lorentz_transform(diag(1, 2, 1)).config == "ul"
''')
plant("s10-upper-config", "S10", "a configuration written with capital letters",
 "capital letters are accepted, and never equal to the configurations asked for",
 [("symbolic/tensor.py", """        if (not ch == "l") and (not ch == "u"):
""", """        if ch.lower() not in ("l", "u"):
""")], SYM + '''
from einsteinpy.symbolic.tensor import Tensor
try:
    Tensor([[1, 2], [3, 4]], config="Ul")
except TypeError:
    pass
else:
    raise SystemExit(1)
''')
plant("s11-bertotti-c", "S11", "Bertotti-Kasner space with c different from 1",
 "one angular component has the wrong power of c",
 [("symbolic/predefined/bertotti_kasner.py", "        (sin(th) ** 2) / (lambd * (c**2)),\n", "        (sin(th) ** 2) / (lambd * (c**4)),\n")], SYM + '''
m = predefined.BertottiKasner(c=3, lambd=2)
th = m.symbols()[2]
assert simplify(m[3, 3] / m[2, 2] - sin(th) ** 2) == 0
''')
plant("s12-find-regex", "S12", "a text with characters that mean something in regular expressions",
 "the text is taken as a regular expression",
 [("symbolic/predefined/find.py", "        if ((search_string in fname.lower()) and (not fname.islower()))\n", "        if (re.search(search_string, fname.lower()) and (not fname.islower()))\n"),
  ("symbolic/predefined/find.py", "import importlib\n", "import importlib\nimport re\n")], SYM + '''
assert predefined.find("k.rr") == []
''')
plant("o01-era-substring", "O01", "an era that is a part of the name of one",
 "parts of the names of eras, and the empty text, are accepted",
 [("utils/scalar_factor.py", """    T = t.to(u.s).value
    if era == "md":
        return tuning_param * (T ** (2 / 3))
    elif era == "rd":
        return tuning_param * (T ** (0.5))
""", """    T = t.to(u.s).value
    if era in "md":
        return tuning_param * (T ** (2 / 3))
    elif era in "rd":
        return tuning_param * (T ** (0.5))
""")], '''
import astropy.units as u
from einsteinpy.utils import scalar_factor
try:
    scalar_factor(3*u.s, era="d")
except ValueError:
    pass
else:
    raise SystemExit(1)
''')
plant("o03-fractional-alpha", "O03", "a resolution that is not an integer",
 "the step is M / int(alpha)",
 [("hypersurface/schwarzschildembedding.py", """        phi_values = np.linspace(0, 2 * np.pi, 60)
""", """        r_step = self.M.value / int(alpha)
        phi_values = np.linspace(0, 2 * np.pi, 60)
""")], '''
import numpy as np, astropy.units as u
from einsteinpy.hypersurface import SchwarzschildEmbedding
e = SchwarzschildEmbedding(5e24*u.kg)
X, Y, Z = e.get_values_surface(7.5)
assert X.shape[1] == int(np.ceil(17 * 7.5 - 0.001)), X.shape
''')
plant("o04-charge-unchecked", "O04", "a body with a charge in an incompatible unit",
 "the unit of the charge is not checked",
 [("bodies.py", "        @u.quantity_input(mass=u.kg, q=u.C, R=u.km)\n", "        @u.quantity_input(mass=u.kg, R=u.km)\n")], '''
import astropy.units as u
from einsteinpy.bodies import Body
try:
    Body(name="x", mass=1*u.kg, q=1*u.kg, R=1*u.km)
except u.UnitsError:
    pass
else:
    raise SystemExit(1)
''')
plant("o05-fallback-keywords", "O05", "numba absent, the decorator used with arguments, and the function called with keywords",
 "the decorated function takes positional arguments only",
 [("ijit.py", """    def _jit(f):
        return f
""", """    def _jit(f):
        def compiled(*params):
            return f(*params)

        return compiled
""")], '''
from einsteinpy.ijit import ijit
@ijit(nopython=True)
def f(x, y=1):
    return x - y
try:
    assert f(x=3, y=1) == 2
except TypeError:
    raise SystemExit(1)
''')
plant("p01-save-dots", "P01", "an interactive plot saved under a name with more than one dot",
 "the name is cut at its first dot",
 [("plotting/geodesic/interactive.py", "        basename, ext = os.path.splitext(name)\n", "        basename, _, ext = name.partition(\".\")\n        ext = \".\" + ext\n")], '''
import einsteinpy.plotting.geodesic.interactive as i
got = []
i.saveplot = lambda fig, **kw: got.append(kw)
i.InteractiveGeodesicPlotter().save("orbit.v2.png")
assert got[0]["image"] == "png" and got[0]["image_filename"] == "orbit.v2", got
''')
plant("p02-surface-stride", "P02", "the solid surface of an embedding",
 "every other meridian and circle is left out",
 [("plotting/hypersurface/core.py", "                X, Y, Z, rstride=1, cstride=1, cmap", "                X, Y, Z, rstride=2, cstride=2, cmap")], '''
import astropy.units as u
from matplotlib import pyplot as plt
from einsteinpy.hypersurface import SchwarzschildEmbedding
from einsteinpy.plotting import HypersurfacePlotter
e = SchwarzschildEmbedding(5e24*u.kg)
p = HypersurfacePlotter(e, plot_type="surface", alpha=1)
p.plot()
n = e.get_values_surface(1)[0].shape
assert len(plt.gca().collections[0]._vec.T if hasattr(plt.gca().collections[0], "_vec") else []) == 4 * (n[0] - 1) * (n[1] - 1)
''')
