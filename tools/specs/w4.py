SYM = '''
import sympy
from sympy import symbols, sin, cos, exp, Function, diag, Matrix, simplify, Rational
from einsteinpy.symbolic import *
from einsteinpy.symbolic import predefined
'''
plant("s07-own-parent", "S07", "a Ricci tensor with a parent metric whose configuration is changed with another metric passed",
 "the metric passed is ignored when the tensor has one of its own",
 [("symbolic/ricci.py", """        if metric is None:
            metric = self._parent_metric
        if metric is None:
            raise Exception("Parent Metric not found, can't do configuration change")
        new_tensor = _change_config(self, metric, newconfig)
""", """        metric = self._parent_metric or metric
        if metric is None:
            raise Exception("Parent Metric not found, can't do configuration change")
        new_tensor = _change_config(self, metric, newconfig)
""")], SYM + '''
x, y = symbols("x y")
m, k = MetricTensor([[1, 0], [0, 2]], (x, y)), MetricTensor([[3, 0], [0, 5]], (x, y))
r = RicciTensor([[1, 2], [2, x]], (x, y), parent_metric=m)
assert r.change_config("ul", metric=k)[1, 1] == x / 5
''')
plant("s07-uu-metric", "S07", "a parent metric that was given in contravariant form, and an index being lowered and another raised",
 "the metric is used as given for lowering",
 [("symbolic/tensor.py", "        -1: metric.lower_config().tensor(),\n        1: metric.lower_config().inv().tensor(),\n", "        -1: metric.tensor(),\n        1: metric.inv().tensor(),\n")], SYM + '''
x, y = symbols("x y")
m = MetricTensor([[2, 0], [0, 3]], (x, y), config="uu")
v = GenericVector([1, x], (x, y), config="u", parent_metric=m)
assert v.change_config("l")[1] == x / 3
''')
plant("s11-jnw-angle", "S11", "Janis-Newman-Winicour metric with gamma different from 0 and 1",
 "angular part has the wrong power of alpha", 
 [("symbolic/predefined/janis_newman_winicour.py", "        (alpha**-gam) / (c**2),\n", "        (alpha ** (-gam * (2 * gam - 1) / (3 - 2 * gam) ** 0)) / (c**2),\n")], SYM + '''
m = predefined.JanisNewmanWinicour(c=1, G=1, gam=Rational(1, 2), M=1)
r = m.symbols()[1]
assert simplify(m[1, 1] * (1 - 4 / r) ** Rational(1, 2)) == 1
''')
plant("s12-kn-no-spin", "S12", "Kerr-Newman metric asked for with a = 0 and a value for c, G or eps_0",
 "the reduction to Reissner-Nordstrom drops the constants",
 [("symbolic/predefined/vacuum_solutions.py", """    t, r, theta, phi = coords
    Sigma = r**2 + (a**2 * cos(theta) ** 2)
    rQsq = ((Q**2) * G) / (4 * pi * eps_0 * (c**4))
    Delta""", """    t, r, theta, phi = coords
    if a == 0:
        return ReissnerNordstorm(c=c, sch=sch, Q=Q)
    Sigma = r**2 + (a**2 * cos(theta) ** 2)
    rQsq = ((Q**2) * G) / (4 * pi * eps_0 * (c**4))
    Delta""")], SYM + '''
m = predefined.KerrNewman(a=0, G=2, eps_0=3)
assert not (m.tensor().free_symbols & {symbols("G"), symbols("eps_0")}), m
''')
plant("s12-find-alias", "S12", "searching for a text that occurs only in an alias (the name bound in the package differs from the name of the function)",
 "aliases are not found",
 [("symbolic/predefined/find.py", "        if ((search_string in fname.lower()) and (not fname.islower()))\n",
   "        if ((search_string in fname.lower()) and (not fname.islower()))\n        and getattr(predefined, fname).__name__ == fname\n")], SYM + '''
assert "Minkowski" in predefined.find("minkowski")
''')
plant("g04-stabilise", "G04", "a run in which the norm of the momentum drifts out of tolerance while warnings are on",
 "the two copies of phase space are averaged after an inaccurate step, which is neither symplectic nor reversible",
 [("integrators/fantasy.py", """                warnings.warn(
                    f"Numerical error has exceeded specified tolerance at step = {self.step_num}.",
                    RuntimeWarning,
                )
""", """                warnings.warn(
                    f"Numerical error has exceeded specified tolerance at step = {self.step_num}.",
                    RuntimeWarning,
                )
                q, p = 0.5 * (arr[0] + arr[2]), 0.5 * (arr[1] + arr[3])
                self.res_list = np.array([q, p, q, p])
""")], '''
import warnings; warnings.simplefilter("ignore")
import numpy as np
from einsteinpy.geodesic import Timelike
kw = dict(metric="Kerr", metric_params=(0.9,), position=[4.0, 1.2, 0.1], momentum=[0.0, 0.3, 2.0], steps=12, delta=1.5, order=2, rtol=1e-9, atol=1e-9)
a = Timelike(**kw, suppress_warnings=True).trajectory[1]
b = Timelike(**kw, suppress_warnings=False).trajectory[1]
assert np.array_equal(a, b)
''')
plant("g04-omega-zero", "G04", "coupling omega = 0 between the two copies of phase space",
 "a falsy option is replaced with its default",
 [("geodesic/geodesic.py", '        omega = kwargs.get("omega", 1.0)\n', '        omega = kwargs.get("omega") or 1.0\n')], '''
import warnings; warnings.simplefilter("ignore")
import numpy as np
from einsteinpy.geodesic import Timelike
from einsteinpy.integrators import GeodesicIntegrator
kw = dict(metric="Kerr", metric_params=(0.9,), position=[7.0, 1.2, 0.1], momentum=[0.0, 0.3, 2.0], steps=5, delta=0.5, order=2, return_cartesian=False, omega=0.0)
a = Timelike(**kw)
g = GeodesicIntegrator(a.metric, a.metric_params, a.position, a.momentum, omega=0.0)
for _ in range(5): g.step()
assert np.allclose(a.trajectory[1][-1], np.hstack(g.results[-1][:2]), rtol=1e-12)
''')
plant("o03-mass-units", "O03", "a mass in another unit than kilograms",
 "the number of the mass is read as kilograms",
 [("hypersurface/schwarzschildembedding.py", "        M = M.to(self.units_list[0])\n", "        M = (M.value * u.kg).to(self.units_list[0])\n")], '''
import numpy as np, astropy.units as u
from einsteinpy.hypersurface import SchwarzschildEmbedding as S
a, b = S(5.927e23 * u.kg), S(5.927e26 * u.g)
assert abs(a.M.value - b.M.value) < 1e-9 * a.M.value
''')
plant("o05-fastmath", "O05", "a position where the compiled code meets infinities or undefined values, or reassociation changes the last digits",
 "fast-math compilation assumes no infinities and no undefined values",
 [("ijit.py", "    jit = numba.njit\n", "    def jit(*args, **kwargs):\n        kwargs.setdefault(\"fastmath\", True)\n        return numba.njit(*args, **kwargs)\n\n")], '''
import sys, subprocess
P = """
import numpy as np
from einsteinpy.coordinates import utils as k
r = [k.cartesian_to_spherical(0.0, a, b, c, 1.0, 2.0, 3.0) for a, b, c in [(0.0, 0.0, 1.0), (1e200, 1.0, 1.0), (float("inf"), 1.0, 1.0), (float("nan"), 1.0, 2.0), (0.1, 0.2, 0.3), (0.7, -1.3, 2.9)]]
print(np.array(r, dtype=float).round(13).tolist())
"""
import os
a = subprocess.run([sys.executable, "-W", "ignore", "-c", P], capture_output=True, text=True).stdout
b = subprocess.run([sys.executable, "-W", "ignore", "-c", P], capture_output=True, text=True, env=dict(os.environ, NUMBA_DISABLE_JIT="1")).stdout
print(a, b)
''')
plant("o05-v0-fallback", "O05", "the decorator used without numba and with arguments",
 "functions decorated with arguments are wrapped and lose their signature",
 [("ijit.py", """    def _jit(f):
        return f
""", """    def _jit(f):
        def wrapper(*a):
            return f(*a)

        return wrapper
""")], '''
import inspect
from einsteinpy.ijit import ijit
@ijit(nopython=True)
def f(x, y=2):
    return x + y
assert f(1, y=4) == 5 and list(inspect.signature(f).parameters) == ["x", "y"]
''')
plant("p01-parametric-wrap", "P01", "a parametric plot of a spherical-polar trajectory that goes round more than once (or backwards)",
 "the azimuth is reduced to one turn in the interactive parametric plot",
 [("plotting/geodesic/interactive.py", "        X3 = traj[1][:, 3]\n\n        self.fig.add_trace(\n            go.Scatter(\n                x=lambdas,\n                y=X1,\n", "        X3 = traj[1][:, 3]\n        if coords.startswith(\"Spherical\"):\n            X3 = np.mod(X3, 2 * np.pi)\n\n        self.fig.add_trace(\n            go.Scatter(\n                x=lambdas,\n                y=X1,\n")], '''
import numpy as np, warnings; warnings.simplefilter("ignore")
from einsteinpy.geodesic import Timelike
from einsteinpy.plotting import InteractiveGeodesicPlotter
g = Timelike("Schwarzschild", (0.0,), [10.0, 1.57, 0.0], [0.0, 0.0, -4.0], steps=10, delta=0.5, return_cartesian=False)
p = InteractiveGeodesicPlotter(); p.parametric_plot(g)
assert np.array_equal(p.fig.data[2].y, g.trajectory[1][:, 3])
''')
plant("p01-clear-current", "P01", "a plotter cleared while the current figure of matplotlib is another one",
 "clear() acts on the current figure",
 [("plotting/geodesic/static.py", "        self.fig.clf()\n", "        plt.clf()\n")], '''
import numpy as np, warnings; warnings.simplefilter("ignore")
from matplotlib import pyplot as plt
from einsteinpy.geodesic import Timelike
from einsteinpy.plotting import StaticGeodesicPlotter
g = Timelike("Schwarzschild", (0.0,), [10.0, 1.57, 0.0], [0.0, 0.0, -4.0], steps=5, delta=0.5)
p = StaticGeodesicPlotter(); p.plot2D(g)
f = plt.figure(); plt.plot([1, 2])
p.clear()
assert len(f.axes) == 1 and len(p.fig.axes) == 0
''')
plant("p01-ergosphere-equator", "P01", "an interactive 3D plot of a spinning hole",
 "the ergosphere uses the sine of the polar angle", 
 [("plotting/geodesic/interactive.py", "            XE = rE_outer * np.sin(PHI) * np.sin(THETA)\n", "            rE_outer = rE_outer[::1, :].copy()\n            rE_outer[:, 0] = rE_outer[0, 0]\n            XE = rE_outer * np.sin(PHI) * np.sin(THETA)\n")], '''
import numpy as np, warnings; warnings.simplefilter("ignore")
from einsteinpy.geodesic import Timelike
from einsteinpy.plotting import InteractiveGeodesicPlotter
g = Timelike("Kerr", (0.9,), [10.0, 1.57, 0.0], [0.0, 0.0, -4.0], steps=5, delta=0.5)
p = InteractiveGeodesicPlotter(); p.plot(g)
s = p.fig.data[1]
x, y, z = (np.asarray(v) for v in (s.x, s.y, s.z))
r = np.sqrt(x**2 + y**2 + z**2)
assert np.allclose(r, 1 + np.sqrt(1 - (0.9 * z / r)**2))
''')
plant("p02-fractal-descending", "P02", "a fractal whose start angle is larger than its end angle",
 "angles are sorted while the slider text is not",
 [("plotting/fractal.py", "    for step in np.linspace(start_angle, end_angle, num=divs):\n", "    for step in np.sort(np.linspace(start_angle, end_angle, num=divs)):\n")], '''
import numpy as np
import einsteinpy.plotting as p
a = p.fractal(2.0, 1.0, divs=2, show=False).data
b = p.fractal(1.0, 2.0, divs=2, show=False).data
assert np.array_equal(a[0].z, b[1].z) and np.array_equal(a[1].z, b[0].z)
''')
plant("p02-alpha-cap", "P02", "a hypersurface plot with more than 100 steps per mass",
 "resolution is capped",
 [("plotting/hypersurface/core.py", "        self.alpha = alpha\n", "        self.alpha = min(alpha, 100)\n")], '''
import astropy.units as u, numpy as np
from matplotlib import pyplot as plt
plt.switch_backend("Agg")
from einsteinpy.hypersurface import SchwarzschildEmbedding as S
from einsteinpy.plotting import HypersurfacePlotter as H
e = S(5.927e23 * u.kg)
seen = []
old = e.get_values_surface
e.get_values_surface = lambda a: (seen.append(a), old(a))[1]
H(e, alpha=150).plot()
assert seen == [150]
''')
plant("o02-smoothen-few", "O02", "smoothing to fewer points than the profile has",
 "at least as many points as there are rays are returned",
 [("rays/shadow.py", "        b_new = np.linspace(np.min(self.fb1), np.max(self.fb1), points)\n", "        b_new = np.linspace(\n            np.min(self.fb1), np.max(self.fb1), max(points, len(self.fb1) // 2)\n        )\n")], '''
import astropy.units as u
from einsteinpy.rays import Shadow
s = Shadow(1 * u.kg, 60, 30 * u.km)
s.smoothen(20)
assert len(s.fb1) == len(s.intensity) == 20
''')
plant("i01-zero-atol", "I01", "an absolute tolerance of exactly zero (pure relative error control) with a state that decays by many orders of magnitude",
 "a tolerance of zero is replaced by the default",
 [("integrators/runge_kutta.py", "        if atol is None:\n", "        if not atol:\n")], '''
import numpy as np
from einsteinpy.integrators import RK45
r = RK45(lambda t, y: -y, 0.0, [1e-9], 30.0, 2.0, rtol=1e-6, atol=0)
while r.t < 30.0: r.step()
assert abs(r.y[0] / (1e-9 * np.exp(-30.0)) - 1) < 1e-2, r.y
''')
plant("i01-integer-direction", "I01", "integrating with the bound equal to the start",
 "the direction is taken as backwards when start and bound coincide, so the step moves",
 [("integrators/runge_kutta.py", "        if (self.t >= self.t_bound and self.direction == 1) or (\n            self.t <= self.t_bound and self.direction == -1\n        ):\n",
   "        if (self.t > self.t_bound and self.direction == 1) or (\n            self.t < self.t_bound and self.direction == -1\n        ):\n")], '''
import warnings
import numpy as np
from einsteinpy.integrators import RK4naive
n = []
r = RK4naive(lambda t, y: (n.append(t), y)[1], 0.0, 1.0, 1.0, 0.25)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    for _ in range(5): r.step()
assert len(w) == 1 and len(n) == 16
''')
plant("g01-massless-default", "G01", "a null geodesic through the generic class with a flag that is falsy or truthy but not a bool (0, numpy bool)",
 "the flag is compared by identity",
 [("geodesic/utils.py", " + int(time_like)\n", " + (1 if time_like is True else 0)\n") if False else ("geodesic/geodesic.py", '        self.kind = "Time-like" if time_like else "Null-like"\n', '        self.kind = "Time-like" if time_like is True else "Null-like"\n')], '''
import numpy as np, warnings; warnings.simplefilter("ignore")
from einsteinpy.geodesic import Geodesic
g = Geodesic("Schwarzschild", (0.0,), [10.0, 1.57, 0.0], [0.0, 0.0, 4.0], time_like=np.bool_(True), steps=2)
assert g.kind == "Time-like"
''')
plant("g06-null-tolerance", "G06", "a null geodesic integrated with warnings on and a drift between atol and atol + rtol",
 "the tolerance for a null geodesic is relative to one",
 [("integrators/fantasy.py", """                g(q1, *g_prms) @ p1 @ p1, const, rtol=self.rtol, atol=self.atol
""", """                1 + g(q1, *g_prms) @ p1 @ p1 - const, 1, rtol=self.rtol, atol=self.atol
""")], '''
import warnings
from einsteinpy.geodesic import Nulllike
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    Nulllike("Kerr", (0.9,), [4.0, 1.3, 0.0], [0.2, 0.4, 2.0], steps=10, delta=0.3, rtol=1e3, atol=1e-13)
assert len(w) >= 9
''')
