NUM = '''
import numpy as np
from astropy import units as u
from einsteinpy.coordinates import *
from einsteinpy.metric import *
cs = BoyerLindquistDifferential(0 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad, 0 * u.m / u.s, 0 * u.rad / u.s, 0 * u.rad / u.s)
'''
plant("h01-scratch", "H01", "two fields evaluated one after the other, the first result being used afterwards",
 "the electromagnetic tensor is written into one array shared by all calls",
 [("metric/kerrnewman.py", "        F = np.zeros((4, 4), dtype=float)\n", "        F = self._F\n"),
  ("metric/kerrnewman.py", "    def metric_covariant(self, x_vec):\n", "    _F = np.zeros((4, 4), dtype=float)\n\n    def metric_covariant(self, x_vec):\n")], NUM + '''
m = KerrNewman(coords=cs, M=1e26 * u.kg, a=0.5 * u.one, Q=1e10 * u.C)
a = m.em_tensor_covariant([0., 3., 1., 0.]); k = np.array(a); m.em_tensor_covariant([0., 5., 1.2, 0.])
assert (a == k).all()
''')
plant("h01-velocity-once", "H01", "one coordinate object used with two metrics",
 "the 4-velocity computed for the first metric is kept for the next",
 [("coordinates/differential.py", ("class BoyerLindquistDifferential", "        v_t = v0("), "        if self._v_t is not None:\n            return\n        v_t = v0(")], NUM + '''
c = BoyerLindquistDifferential(0 * u.s, 1e3 * u.m, 1 * u.rad, 1 * u.rad, 9 * u.m / u.s, 1 * u.rad / u.s, 0 * u.rad / u.s)
A, B = (Kerr(coords=cs, M=M * u.kg, a=0.5 * u.one) for M in (1e24, 2e29))
c.velocity(A); b = c.velocity(B)
d = BoyerLindquistDifferential(0 * u.s, 1e3 * u.m, 1 * u.rad, 1 * u.rad, 9 * u.m / u.s, 1 * u.rad / u.s, 0 * u.rad / u.s)
assert b == d.velocity(B), (b, d.velocity(B))
''')
plant("h01-time-in-place", "H01", "an array of times in another unit than seconds",
 "the argument is converted in place",
 [("utils/scalar_factor.py", ("def scalar_factor(", "    T = t.to(u.s).value\n"), "    t <<= u.s\n    T = t.value\n")], '''
import numpy as np
from astropy import units as u
from einsteinpy.utils import scalar_factor
t = np.array([1., 2.]) * u.hour
scalar_factor(t)
assert str(t.unit) == "h" and t.value[1] == 2.0, t
''')
plant("h01-position-list", "H01", "an initial position given as a list with a negative azimuth, used again by the caller",
 "the azimuth is normalised in the list of the caller",
 [("geodesic/geodesic.py", "        self.position = np.array([0.0, *position])\n", "        self.position = np.array([0.0, *position])\n        if isinstance(position, list):\n            position[2] %= 2 * np.pi\n")], '''
from einsteinpy.geodesic import Timelike
q = [40., 1.5, -1.0]
Timelike("Schwarzschild", (), q, [0., 0., 4.], steps=1)
assert q == [40., 1.5, -1.0], q
''')
plant("h01-shared-derivative", "H01", "Christoffel symbols of two Kerr metrics at the same event",
 "the derivatives of the metric are remembered by event in a table that all Kerr metrics share",
 [("metric/kerr.py", "    def _dg_dx_bl(self, x_vec):\n", "    _seen = {}\n\n    def _dg_dx_bl(self, x_vec):\n"),
  ("metric/kerr.py", ("def _dg_dx_bl", "        # Metric is invariant on t & phi\n"), "        key = (r, th, M)\n        if key in self._seen:\n            return self._seen[key]\n        # Metric is invariant on t & phi\n"),
  ("metric/kerr.py", ("        due_to_r()\n", "        due_to_theta()\n"), "        due_to_theta()\n        self._seen[key] = dgdx\n")], NUM + '''
x = [0., 3., 1., 0.]
A, B = (Kerr(coords=cs, M=1e26 * u.kg, a=a * u.one) for a in (0.2, 0.9))
A.christoffels(x)
b, c = B.christoffels(x), B.christoffels([0., 3. * (1 + 1e-12), 1., 0.])
assert np.allclose(b, c, rtol=1e-6, atol=0)
''')
plant("h01-inverse-by-name", "H01", "two metrics with the same name, the second one inverted after a Christoffel computation with the first",
 "inverse metrics are shared between metrics of the same name and equal determinant",
 [("symbolic/metric.py", "        if self._invmetric is None:\n            if self.config == \"ll\":\n", "        key = (self.name, self.config, tuple(self.syms), sympy.Matrix(self.arr.tolist()).diagonal())\n        if self._invmetric is None and key in MetricTensor._known:\n            self._invmetric = MetricTensor._known[key]\n        if self._invmetric is None:\n            if self.config == \"ll\":\n"),
  ("symbolic/metric.py", "                self._invmetric = self.change_config(\"ll\")\n        return self._invmetric\n", "                self._invmetric = self.change_config(\"ll\")\n        MetricTensor._known[key] = self._invmetric\n        return self._invmetric\n"),
  ("symbolic/metric.py", "    def __init__(self, arr, syms, config=\"ll\", name=\"GenericMetricTensor\"):\n", "    _known = {}\n\n    def __init__(self, arr, syms, config=\"ll\", name=\"GenericMetricTensor\"):\n")], '''
import sympy
from einsteinpy.symbolic import MetricTensor
x, y = sympy.symbols("x y")
A = MetricTensor([[1, 0], [0, 1 + x**2]], (x, y)).inv()
B = MetricTensor([[1, x], [x, 1 + x**2]], (x, y)).inv()
assert B.tensor()[0, 1] != 0, B.tensor()
''')
plant("h01-user-metric-memo", "H01", "two user metrics with the same name",
 "the derivative of a metric component is remembered by the name of the metric and the position",
 [("utils/dual.py", "    return _deriv(lambda q: g(dual_coords, *g_prms)[indices], coords[wrt])\n", "    key = (getattr(g, \"__name__\", \"\"), tuple(g_prms), tuple(float(x) for x in coords), tuple(indices), wrt)\n    if key not in _MEMO:\n        if len(_MEMO) > 4096:\n            _MEMO.clear()\n        _MEMO[key] = _deriv(lambda q: g(dual_coords, *g_prms)[indices], coords[wrt])\n    return _MEMO[key]\n"),
  ("utils/dual.py", "def _deriv(func, x):", "_MEMO = {}\n\n\ndef _deriv(func, x):")], '''
import numpy as np
from einsteinpy.geodesic import Timelike
def make(k):
    def metric(x):
        g = np.zeros((4, 4), dtype=object)
        g[0, 0] = -1.0; g[1, 1] = 1.0 + k * x[1] * x[1]; g[2, 2] = g[3, 3] = 1.0
        return g
    return metric
kw = dict(metric_params=(), position=[0.5, 0., 0.], momentum=[0.3, 0., 0.], steps=2, return_cartesian=False, suppress_warnings=True, delta=0.1)
a = Timelike(metric=make(0.1), **kw).trajectory[1]
b = Timelike(metric=make(0.9), **kw).trajectory[1]
def other(x): return make(0.9)(x)
c = Timelike(metric=other, **kw).trajectory[1]
assert np.array_equal(b, c), (b, c)
''')
plant("h01-christoffel-buffer", "H01", "Christoffel symbols kept while those of another event are computed",
 "one array per metric object is filled again by every call",
 [("metric/schwarzschild.py", ("def _ch_sym_s", "        chl = np.zeros(shape=(4, 4, 4), dtype=float)\n"), "        chl = self._chl = getattr(self, \"_chl\", np.zeros(shape=(4, 4, 4), dtype=float))\n")], NUM + '''
s = SphericalDifferential(0 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad, 0 * u.m / u.s, 0 * u.rad / u.s, 0 * u.rad / u.s)
m = Schwarzschild(coords=s, M=1e26 * u.kg)
a = m.christoffels([0., 3., 1., 0.]); k = np.array(a); m.christoffels([0., 5., 1.2, 0.])
assert (a == k).all()
''')
