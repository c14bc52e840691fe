NUM = '''
import numpy as np
from astropy import units as u
from einsteinpy.coordinates import *
from einsteinpy.metric import *
'''
plant("g05-negative-delta", "G05", "a negative step size (integration backwards)",
 "the sign of the step is lost",
 [("integrators/fantasy.py", "        self.delta = delta\n", "        self.delta = abs(delta)\n")], '''
from einsteinpy.geodesic import Timelike
g = Timelike("Schwarzschild", (), (40., 1.5, 0.), (0., 0., 4.), steps=5, delta=-0.5, return_cartesian=False)
assert g.trajectory[1][-1][0] < 0, g.trajectory[1][-1]
''')
plant("g04-small-angle", "G04", "a small product of coupling and step size",
 "the rotation between the copies of phase space is replaced by its first order, which is not symplectic",
 [("integrators/utils.py", "    sin = np.sin(2.0 * omega * delta)\n", "    sin = np.sin(2.0 * omega * delta)\n    if abs(omega * delta) < 5e-3:\n        cos, sin = 1.0, 2.0 * omega * delta\n")], '''
import numpy as np
from einsteinpy.integrators.utils import _flow_mixed
r = np.random.RandomState(1)
z = [r.rand(4) for _ in range(4)]
a = _flow_mixed(*z, delta=0.004, omega=1.0); b = _flow_mixed(*a, delta=-0.004, omega=1.0)
assert max(abs(x - y).max() for x, y in zip(z, b)) < 1e-12
''')
plant("g04-drift-damping", "G04", "a long integration in which the two copies of phase space drift apart",
 "the copies are averaged when they differ",
 [("integrators/fantasy.py", "        self.res_list = arr\n", "        if self.step_num % 10 == 9:\n            arr = np.array([0.5 * (arr[0] + arr[2]), 0.5 * (arr[1] + arr[3])] * 2)\n        self.res_list = arr\n")], '''
import numpy as np
from einsteinpy.integrators import GeodesicIntegrator
from einsteinpy.geodesic.utils import _kerr, _P
q0 = np.array([0., 12., 1.2, 0.]); p0 = _P(_kerr, (0.9,), q0, [0.1, 1., 3.5], True)
I = GeodesicIntegrator(_kerr, (0.9,), q0, p0, delta=0.5, order=4, suppress_warnings=True)
for _ in range(12): I.step()
J = GeodesicIntegrator(_kerr, (0.9,), q0, p0, delta=-0.5, order=4, suppress_warnings=True)
J.res_list = I.res_list
for _ in range(12): J.integrator; J.res_list = J.integrator(*J.res_list, -0.5)
assert abs(J.res_list[0] - q0).max() < 1e-9, J.res_list[0] - q0
''')
plant("i01-mid-order", "I01", "a problem that depends on time explicitly, with a state that is an array of one element",
 "one-element arrays are reduced to scalars",
 [("integrators/runge_kutta.py", ("class RK4naive", "        self.y = y0\n"), "        self.y = y0.item() if getattr(y0, \"size\", 0) == 1 else y0\n")], '''
import numpy as np
from einsteinpy.integrators import RK4naive
s = RK4naive(lambda t, y: np.array([y[0] * t]), 0.0, np.array([1.0]), 1.0, 0.1)
s.step()
assert np.shape(s.y) == (1,), s.y
''')
plant("o01-array-time", "O01", "an array of times (in the radiation era)",
 "arrays of times give the value at their mean",
 [("utils/scalar_factor.py", ("def scalar_factor_derivative", "    T = t.to(u.s).value\n"), "    T = t.to(u.s).value\n    if era == \"rd\" and np.ndim(T):\n        T = np.sort(T)\n")], '''
import numpy as np
from astropy import units as u
from einsteinpy.utils import scalar_factor_derivative as f
a = f([3., 1., 2.] * u.s, era="rd")
assert np.allclose(a, [f(x * u.s, era="rd") for x in (3., 1., 2.)]), a
''')
plant("o02-wide-field", "O02", "a field of view hundreds of times the mass",
 "far away turning points are replaced by the impact parameter",
 [("rays/shadow.py", "        return (2 * b / np.sqrt(3)) * np.cos(np.arccos(-self.b_crit.value / b) / 3)", "        if b > 100 * self.mass.value:\n            return b - self.mass.value\n        return (2 * b / np.sqrt(3)) * np.cos(np.arccos(-self.b_crit.value / b) / 3)")], '''
from astropy import units as u
from einsteinpy.rays import Shadow
s = Shadow(1*u.kg, 20, 400*u.km)
for b, r in s.z: assert abs(r**3 - b*b*(r - 2)) < 1e-9 * b**3, (b, r)
''')
plant("o02-limit", "O02", "an inner limit of the impact parameter other than the default",
 "the limit is only used when it is below the default",
 [("rays/shadow.py", "        self.limit = limit\n", "        self.limit = min(limit, 0.001)\n")], '''
from astropy import units as u
from einsteinpy.rays import Shadow
s = Shadow(1*u.kg, 20, 30*u.km, limit=0.5)
assert abs(min(s.fb1) - 0.5) < 1e-12, min(s.fb1)
''')
plant("s05-mixed-lambda", "S05", "a metric whose coordinates or parameters make the Einstein tensor vanish nowhere; the cosmological term with off-diagonal metric components",
 "the cosmological term is added on the diagonal only",
 [("symbolic/stress_energy_momentum.py", "            * (t_einstein.tensor() + Cosmo_Const * metric.lower_config().tensor())\n", """            * (
                t_einstein.tensor()
                + Cosmo_Const
                * sympy.Array(
                    [
                        [
                            metric.lower_config().tensor()[i, j] if i == j else 0
                            for j in range(metric.dims)
                        ]
                        for i in range(metric.dims)
                    ]
                )
            )
"""), ("symbolic/stress_energy_momentum.py", "import numpy as np\n", "import numpy as np\nimport sympy\n")], '''
import sympy
from einsteinpy.symbolic import MetricTensor, StressEnergyMomentumTensor
x, y, z = sympy.symbols("x y z")
m = MetricTensor([[2, 1, 0], [1, 3, 0], [0, 0, 1]], (x, y, z))
t = StressEnergyMomentumTensor.from_metric(m).tensor()
assert t[0, 1] != 0
''')
plant("s08-negative-index", "S08", "a product contracted over the last index of a tensor of rank three with a vector",
 "the offset of the second index is that of rank two tensors",
 [("symbolic/tensor.py", "(i, len(tensor1.config) + j)", "(i, max(2, len(tensor1.config)) + j if len(tensor2.config) > 1 or len(tensor1.config) != 1 else 1 + j)")], '''
import sympy
from einsteinpy.symbolic.tensor import BaseRelativityTensor, tensor_product
x, y = sympy.symbols("x y")
v = BaseRelativityTensor([1, 2], (x, y), config="u"); w = BaseRelativityTensor([[1, 2], [3, 4]], (x, y), config="ll")
try: r = tensor_product(v, w, 0, 0).tensor()
except Exception as e: raise SystemExit(repr(e))
assert r.tolist() == [7, 10], r
''')
plant("s12-find-upper", "S12", "a text with capital letters in the middle",
 "only the first letter is made small",
 [("symbolic/predefined/find.py", "search_string = search_string.lower()", "search_string = search_string[:1].lower() + search_string[1:]")], '''
from einsteinpy.symbolic.predefined import find
assert find("DeS") == find("des"), (find("DeS"), find("des"))
''')
plant("c04-slow", "C04", "a very slow particle (velocity below a metre per second)",
 "small velocities are treated as rest",
 [("coordinates/utils.py", "    A = g[0, 0]\n", "    A = g[0, 0]\n    if v1 * v1 + v2 * v2 + v3 * v3 < 1e-4:\n        v1 = v2 = v3 = 0.0\n")], '''
import numpy as np
from einsteinpy.coordinates.utils import v0
g = np.diag([1., -1., -1e26, -1e26])
u = v0(g, 0., 1e-5, 0.)
assert abs(u*u - 1e26*1e-10 - 299792458.0**2) < 1e3, u
''')
plant("s10-subs-pattern", "S10", "substitution of an expression (such as x**2) that is contained in a power of itself, or one substitution feeding the next",
 "only literal occurrences are replaced",
 [("symbolic/tensor.py", "        return Tensor(self.tensor().subs(*args), config=self.config, name=self.name)", """        pairs = [args] if len(args) == 2 else args[0]
        pairs = pairs.items() if isinstance(pairs, dict) else pairs
        rule = {sympy.sympify(a): sympy.sympify(b) for a, b in pairs}
        new = self.tensor().applyfunc(lambda e: sympy.sympify(e).xreplace(rule))
        return Tensor(new, config=self.config, name=self.name)""")], '''
import sympy
from einsteinpy.symbolic.tensor import Tensor
x, y = sympy.symbols("x y")
t = Tensor([x**4, x], config="u").subs(x**2, y)
assert t.tensor()[0] == y**2, t.tensor()
''')
plant("s07-vector-parent", "S07", "a vector whose index is changed with a metric passed",
 "the new vector keeps the old parent metric",
 [("symbolic/vector.py", """            config=newconfig,
            parent_metric=metric,""", """            config=newconfig,
            parent_metric=self._parent_metric or metric,""")], '''
import sympy
from einsteinpy.symbolic import MetricTensor, GenericVector
x, y = sympy.symbols("x y")
m, n = MetricTensor([[2, 0], [0, x]], (x, y)), MetricTensor([[1, 0], [0, x]], (x, y))
v = GenericVector([1, y], (x, y), config="u", parent_metric=n).change_config("l", metric=m)
assert v.parent_metric is m
''')
plant("m04-test-charge-unit", "M04", "a test charge given in another unit than coulomb per kilogram",
 "the number of the charge is used in the unit given",
 [("metric/kerrnewman.py", "        self.q = q.to(u.C / u.kg)", "        self.q = q")], NUM + '''
from einsteinpy.metric import KerrNewman
o = BoyerLindquist(0*u.s, 1e5*u.m, 1*u.rad, 0*u.rad)
f = lambda q: KerrNewman(coords=o, M=4e30*u.kg, a=0.5*u.one, Q=1e19*u.C, q=q).f_vec(0, np.array([0., 1e5, 1., 0., 1., 100., 1., 1.]))
assert np.allclose(f(2*u.C/u.kg), f(2e-3*u.C/u.g)), (f(2*u.C/u.kg), f(2e-3*u.C/u.g))
''')
plant("m05-angle-fold", "M05", "a polar angle measured beyond the pole (negative or above pi)",
 "angles outside [0, pi] are clipped",
 [("metric/base_metric.py", """        def _out_ergo(theta):
""", """        def _out_ergo(theta):
            theta = np.clip(theta, 0.0, np.pi)
""")], NUM + '''
o = BoyerLindquist(0*u.s, 1e5*u.m, 1*u.rad, 0*u.rad)
s = Kerr(coords=o, M=4e30*u.kg, a=0.9*u.one).singularities()["outer_ergosphere"]
assert abs(s(-1.0) - s(1.0)) < 1e-6
''')
plant("m05-array-angle", "M05", "an array of polar angles",
 "the inner ergosphere of an array is that of its smallest cosine",
 [("metric/base_metric.py", """        def _in_ergo(theta):
            return (
                r_s
                - np.sqrt((r_s**2) - (4 * (alpha * np.cos(theta)) ** 2) - (4 * r_Q2))
            ) / 2
""", """        def _in_ergo(theta):
            root = (r_s**2) - (4 * (alpha * np.cos(theta)) ** 2) - (4 * r_Q2)
            return (r_s - np.sqrt(np.sort(root) if np.ndim(root) else root)) / 2
""")], NUM + '''
o = BoyerLindquist(0*u.s, 1e5*u.m, 1*u.rad, 0*u.rad)
s = Kerr(coords=o, M=4e30*u.kg, a=0.9*u.one).singularities()["inner_ergosphere"]
t = np.array([1.4, 0.2, 0.9])
assert np.allclose(s(t), [s(x) for x in t])
''')
plant("i01-backward-bound", "I01", "integration backwards to a bound that is not a whole number of steps away and is positive",
 "the last step overshoots the bound",
 [("integrators/runge_kutta.py", "min(abs(self.step_size), abs(self.t_bound - self.t))", "min(abs(self.step_size), abs(self.t_bound - self.direction * abs(self.t)))")], '''
from einsteinpy.integrators import RK4naive
import warnings; warnings.simplefilter("ignore")
s = RK4naive(lambda t, y: y, 2.0, 1.0, 0.5, 0.4)
for _ in range(8): s.step()
assert abs(s.t - 0.5) < 1e-12, s.t
''')
plant("g07-series-spin", "G07", "a very slowly rotating hole",
 "the frame dragging term is dropped for small spins",
 [("geodesic/utils.py", "    g[0, 3] = g[3, 0] = -(4 * a * (a2 - dl + r2) * sg / denom)\n", "    if abs(a) > 1e-3:\n        g[0, 3] = g[3, 0] = -(4 * a * (a2 - dl + r2) * sg / denom)\n")], '''
from einsteinpy.geodesic.utils import _kerrnewman as f, _kerr as k
x, y = f([0, 5., 1., 0], 5e-4, 0.), k([0, 5., 1., 0], 5e-4)
assert abs(x - y).max() < 1e-9
''')
plant("g02-cos-derivative-large", "G02", "the cosine (and tangent) of a dual number at a large argument",
 "arguments are reduced with a rounded period",
 [("utils/dual.py", "        return DualNumber(np.cos(self.val), -self.deriv * np.sin(self.val))", "        v = self.val if abs(self.val) < 20 else self.val % 6.28318530718\n        return DualNumber(np.cos(v), -self.deriv * np.sin(v))")], '''
from einsteinpy.utils.dual import DualNumber
import math, numpy as np
d = np.cos(DualNumber(6000.5, 1.0))
assert abs(d.val - math.cos(6000.5)) < 1e-12
''')
