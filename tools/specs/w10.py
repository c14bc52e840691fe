# wave 10: second calls, shared defaults, assumptions of symbols, clamps near special places, complex states
plant("g05-recalculate", "G05", "calculate_trajectory called twice on the same geodesic, with another omega",
 "trajectories are remembered by a key that lacks the coupling",
 [("geodesic/geodesic.py", "        steps = np.arange(N)\n\n        geodint", "        steps = np.arange(N)\n        key = (N, dl, rtol, atol, order, sw)\n        memo = self.__dict__.setdefault(\"_memo\", {})\n        if key in memo:\n            return memo[key]\n\n        geodint"),
  ("geodesic/geodesic.py", "            return steps, cart_results\n", "            results = cart_results\n"),
  ("geodesic/geodesic.py", "        return steps, results\n", "        memo[key] = (steps, results)\n        return memo[key]\n")], '''
import numpy as np
from einsteinpy.geodesic import Geodesic
g = Geodesic("Kerr", (0.5,), [6.0, 1.2, 0.0], [0.1, 0.2, 3.0], steps=30, delta=0.5, suppress_warnings=True)
a = g.calculate_trajectory(steps=30, delta=0.5, suppress_warnings=True, omega=1.0)[1]
b = g.calculate_trajectory(steps=30, delta=0.5, suppress_warnings=True, omega=0.3)[1]
c = Geodesic("Kerr", (0.5,), [6.0, 1.2, 0.0], [0.1, 0.2, 3.0], steps=30, delta=0.5, suppress_warnings=True, omega=0.3).trajectory[1]
assert np.array_equal(b, c)
''')
plant("o04-shared-default", "O04", "the default mass of one body changed in place, another body created with the default",
 "all bodies without mass share one quantity",
 [("bodies.py", "    mass: u.kg = field(default_factory=lambda: 0 * u.kg)\n", "    mass: u.kg = field(default_factory=lambda _zero=0.0 * u.kg: _zero)\n")], '''
from astropy import units as u
from einsteinpy.bodies import Body
a = Body(name="a")
a.mass += 5 * u.kg
assert Body(name="b").mass.value == 0
''')
plant("s02-symbol-by-name", "S02", "coordinates that are symbols with assumptions (real, positive ...)",
 "derivatives are taken with respect to plain symbols of the same name",
 [("symbolic/christoffel.py", "        mat, syms = metric.lower_config().tensor(), metric.symbols()\n", "        mat = metric.lower_config().tensor()\n        syms = sympy.symbols([str(s) for s in metric.symbols()])\n"),
  ("symbolic/christoffel.py", '        return cls(tmplist, syms, config="ull", parent_metric=metric)\n', '        return cls(tmplist, metric.symbols(), config="ull", parent_metric=metric)\n')], '''
import sympy
from einsteinpy.symbolic import *
x, y = sympy.symbols("x y", positive=True)
c = ChristoffelSymbols.from_metric(MetricTensor([[1, 0], [0, x**2]], (x, y)))
assert sympy.simplify(c[0, 1, 1] + x) == 0
''')
plant("m01-clamp", "M01", "an event within 1e-9 (relative) of a horizon of a rotating hole",
 "Delta is kept away from zero",
 [("metric/kerr.py", "        sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)\n\n        g_cov_bl", "        sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)\n        dl = np.where(np.abs(dl) < 1e-9 * r**2, np.copysign(1e-9 * r**2, dl), dl)\n\n        g_cov_bl")], '''
import numpy as np
from astropy import units as u
from einsteinpy.metric import Kerr
from einsteinpy.coordinates import BoyerLindquist
M = 4e30 * u.kg
k = Kerr(coords=BoyerLindquist(0 * u.s, 1e5 * u.m, 1 * u.rad, 0 * u.rad), M=M, a=0.5 * u.one)
rs = k.sch_rad
al = k.alpha(M, 0.5 * u.one)
al = getattr(al, "value", al)
r = (rs / 2 + np.sqrt(rs**2 / 4 - al**2)) * (1 + 1e-11)
g = k.metric_covariant(np.array([0.0, r, 1.0, 0.0]))
d = r * r - rs * r + al * al
assert abs(g[1, 1] * d / (r * r + al * al * np.cos(1.0) ** 2) / np.sign(g[1, 1] * d) - 1) < 1e-2
''')
plant("i01-complex", "I01", "a state of complex numbers",
 "the step is computed in real numbers",
 [("integrators/runge_kutta.py", "        self.y = self.y + ((h / 6.0) * (k0 + 2 * k1 + 2 * k2 + k3))\n", "        self.y = self.y + (h / 6.0) * np.real(k0 + 2 * k1 + 2 * k2 + k3)\n")], '''
import numpy as np
from einsteinpy.integrators import RK4naive
s = RK4naive(lambda t, y: 1j * y, 0.0, 1.0 + 0j, 1.0, 0.1)
for _ in range(10):
    s.step()
assert abs(s.y - np.exp(1j)) < 1e-4, s.y
''')
