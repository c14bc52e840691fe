plant("c01-phi-half-angle", "C01", "a Cartesian position on the negative x side with y = 0 (or tiny), converted to Boyer-Lindquist without velocity",
 "azimuth by the half angle formula, which is undefined on the negative x axis",
 [("coordinates/utils.py", """    theta = np.arctan2(sin_th, z / r)
    phi = np.arctan2(y, x)

    return t, r, theta, phi
""", """    theta = np.arctan2(sin_th, z / r)
    phi = 2 * np.arctan2(y, np.hypot(x, y) + x)

    return t, r, theta, phi
""")], '''
import astropy.units as u
from einsteinpy.coordinates import Cartesian
M, a = 4e30*u.kg, 0.5*u.one
c = Cartesian(0*u.s, -1e5*u.m, 0*u.m, 1e4*u.m)
b = c.to_bl(M=M, a=a).to_cartesian(M=M, a=a)
assert abs(b.x.value + 1e5) < 1e-3, b
''')
plant("c02-zero-velocity", "C02", "a velocity whose x component is exactly zero while the others are not",
 "a vanishing first component counts as a missing velocity",
 [("coordinates/conversion.py", "            (v_x is None) or (v_y is None) or (v_z is None)\n", "            (v_x is None) or (v_y is None) or (v_z is None) or not (v_x or v_y)\n")], '''
import astropy.units as u
from einsteinpy.coordinates import CartesianDifferential as C
s = C(0*u.s, 1*u.m, 2*u.m, 3*u.m, 0*u.m/u.s, 0*u.m/u.s, 3*u.m/u.s).spherical_differential()
assert abs(s.v_r.value - 9/14**0.5) < 1e-9
''')
plant("m02-kerr-south", "M02", "an event in the southern hemisphere of a rotating hole",
 "the theta derivative of the frame dragging term has the sign of the northern hemisphere everywhere",
 [("metric/kerr.py", "                sg * np.sin(2 * th) - dsdth * np.sin(th) ** 2\n", "                sg * abs(np.sin(2 * th)) + alpha**2 * abs(np.sin(2 * th)) * np.sin(th) ** 2\n")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import BoyerLindquist
from einsteinpy.metric import Kerr
bl = BoyerLindquist(0*u.s, 3000*u.m, 2.2*u.rad, 0*u.rad)
m = Kerr(coords=bl, M=1e30*u.kg, a=0.6*u.one)
x = np.array(bl.position()); h = 1e-5
ch = m.christoffels(x)
def g(i): 
    y = x.copy(); y[2] += i; return m.metric_covariant(y)
dg = (g(h)-g(-h))/(2*h)
want = -0.5*m.metric_contravariant(x)[2,2]*dg[0,3]
assert abs(ch[2,0,3]/want - 1) < 1e-6, (ch[2,0,3], want)
''')
plant("m04-charge-sign", "M04", "a black hole with negative charge",
 "Delta is not even in the charge",
 [("metric/base_metric.py", "        r_Q2 = (Q**2) * _G * _Cc / _c**4\n        delta =", "        r_Q2 = Q * abs(Q) * _G * _Cc / _c**4\n        delta =")], '''
import astropy.units as u
from einsteinpy.metric import BaseMetric
a, b = BaseMetric.delta(5e3*u.m, 1e30*u.kg, 0.3*u.one, 5e19*u.C), BaseMetric.delta(5e3*u.m, 1e30*u.kg, 0.3*u.one, -5e19*u.C)
assert abs(a/b - 1) < 1e-9, (a, b)
''')
plant("m04-spin-percent", "M04", "a spin slightly outside [0, 1]",
 "spins up to one percent beyond the extremal value are accepted",
 [("metric/base_metric.py", "        if a < 0 or a > 1:\n", "        if a < 0 or round(float(a), 2) > 1:\n")], '''
from einsteinpy.metric import BaseMetric
try:
    BaseMetric.alpha(1e30, 1.004)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''')
plant("g01-integer-momentum", "G01", "an initial momentum given as integers",
 "the time component of the momentum is truncated to an integer",
 [("geodesic/utils.py", "    P = np.array([0.0, *p])\n", "    P = np.array([0, *p])\n")], '''
import numpy as np
from einsteinpy.geodesic import Timelike
g = Timelike("Schwarzschild", (), [40.0, 1.2, 0.0], [0, 2, 4], steps=1, delta=0.1, suppress_warnings=True)
from einsteinpy.geodesic.utils import _sch
q, p = np.array([0, 40, 1.2, 0]), np.array(g.momentum, float)
assert abs(_sch(q) @ p @ p + 1) < 1e-9
''')
plant("g02-pow-negative", "G02", "an even power of a dual number with negative value",
 "the derivative of a power uses the absolute value of the base",
 [("utils/dual.py", "            self.val**power, self.deriv * power * self.val ** (power - 1)\n", "            self.val**power, self.deriv * power * abs(self.val) ** (power - 1)\n")], '''
from einsteinpy.utils.dual import DualNumber
assert (DualNumber(-2.0, 1.0)**2).deriv == -4.0
''')
plant("g02-eq-tolerance", "G02", "two dual numbers that differ in the derivative only by little",
 "equality is approximate in the derivative",
 [("utils/dual.py", "        return (self.val == other.val) and (self.deriv == other.deriv)\n", "        return (self.val == other.val) and bool(np.isclose(self.deriv, other.deriv))\n")], '''
from einsteinpy.utils.dual import DualNumber
assert DualNumber(1.0, 1.0) != DualNumber(1.0, 1.0 + 1e-10)
''')
plant("g03-order8", "G03", "order 8 only, visible in the convergence order",
 "the eighth order composition uses the coefficients of the sixth",
 [("integrators/utils.py", "    n = (order - 2) / 2\n", "    n = min((order - 2) / 2, 2.0)\n")], '''
from einsteinpy.integrators.utils import _Z
x = 2 ** (1 / 7)
z0, z1 = _Z(8)
assert abs(z0 + x / (2 - x)) < 1e-12 and abs(z1 - 1 / (2 - x)) < 1e-12
''')
plant("g03-time-dependent", "G03", "a user-supplied metric that depends on time (no built-in one does)",
 "the force along t is skipped in one of the flows",
 [("integrators/utils.py", "    dH1 = [0.5 * (_PartHamFlow(g, g_prms, q1, p2, i)) for i in range(4)]\n", "    dH1 = [0.0] + [0.5 * (_PartHamFlow(g, g_prms, q1, p2, i)) for i in range(1, 4)]\n")], '''
import numpy as np
from einsteinpy.geodesic import Timelike
def g(x, *p):
    a = 1 + 0.1 * x[0]
    o = np.zeros((4, 4), dtype=object)
    o[0, 0] = -1.0
    for i in (1, 2, 3):
        o[i, i] = 1 / a**2
    return o
t = Timelike(g, (), [1.0, 2.0, 3.0], [0.7, 0.2, 0.1], steps=200, delta=0.01, order=2, return_cartesian=False, suppress_warnings=True).trajectory[1]
x, p = t[-1, :4], t[-1, 4:]
H = -p[0]**2 + (p[1:]@p[1:])/(1 + 0.1*x[0])**2
assert abs(H + 1) < 1e-5, H
''')
plant("g04-mixing-negative-step", "G04", "a step of negative size (orders above two use them internally)",
 "the mixing rotation turns the same way for negative steps",
 [("integrators/utils.py", "    sin = np.sin(2.0 * omega * delta)\n", "    sin = np.sin(2.0 * omega * abs(delta))\n")], '''
import numpy as np
from einsteinpy.integrators.utils import _flow_mixed
z = [np.array([1., 2., 3., 4.]), np.array([.1, .2, .3, .4]), np.array([1.1, 2.2, 3.1, 4.3]), np.array([.2, .1, .3, .5])]
b = _flow_mixed(*_flow_mixed(*z, 0.3, 1.0), -0.3, 1.0)
assert np.allclose(np.array(z), np.array(b), rtol=1e-12)
''')
plant("g05-over-the-pole", "G05", "a trajectory that crosses the polar axis, so that theta leaves [0, pi], with Cartesian output",
 "sin(theta) is taken as the positive root",
 [("geodesic/geodesic.py", "            y = r * np.sin(th) * np.sin(ph)\n", "            y = np.sqrt(r**2 - (r * np.cos(th)) ** 2) * np.sin(ph)\n")], '''
import numpy as np
from einsteinpy.geodesic import Timelike
k = dict(metric="Schwarzschild", metric_params=(), position=[20., 0.2, 0.6], momentum=[0., -5., 0.], steps=60, delta=0.5, suppress_warnings=True)
a, b = Timelike(return_cartesian=False, **k).trajectory[1], Timelike(return_cartesian=True, **k).trajectory[1]
assert np.allclose(b[:, 2], a[:, 1]*np.sin(a[:, 2])*np.sin(a[:, 3]), atol=1e-9)
''')
plant("g05-omega-order", "G05", "a non-default omega together with an order above 2",
 "the coupling constant is only passed on for order 2",
 [("geodesic/geodesic.py", "            omega=omega,\n", "            omega=omega if order < 4 else 1.0,\n")], '''
import numpy as np
from einsteinpy.geodesic import Timelike
k = dict(metric="Kerr", metric_params=(0.5,), position=[8., 1.2, 0.6], momentum=[0., 1., 3.], steps=5, delta=0.5, order=4, suppress_warnings=True)
a, b = Timelike(omega=1.0, **k).trajectory[1], Timelike(omega=0.3, **k).trajectory[1]
assert not np.array_equal(a, b)
''')
plant("g06-allclose-order", "G06", "an error just at the tolerance, with a relative tolerance that matters",
 "the tolerance is relative to the computed norm and not to the expected one",
 [("integrators/fantasy.py", "                g(q1, *g_prms) @ p1 @ p1, const, rtol=self.rtol, atol=self.atol\n", "                const, g(q1, *g_prms) @ p1 @ p1, rtol=self.rtol, atol=self.atol\n")], '''
import numpy as np, warnings
from einsteinpy.geodesic import Nulllike
from einsteinpy.geodesic.utils import _sch
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    t = Nulllike("Schwarzschild", (), [4., 1.2, 0.0], [-1., 1., 2.], steps=10, delta=0.5, rtol=2.0, atol=0.0, return_cartesian=False).trajectory[1]
n = sum(abs(_sch(x[:4]) @ x[4:] @ x[4:]) > 0 for x in t)
assert len([i for i in w if "Numerical error" in str(i.message)]) == n > 0, (len(w), n)
''')
plant("g07-charge-sign", "G07", "a Kerr-Newman geodesic metric with negative charge",
 "Delta is not even in the charge",
 [("geodesic/utils.py", "    delta = (r**2) - (2 * r) + (a**2) + Q**2\n", "    delta = (r**2) - (2 * r) + (a**2) + Q * abs(Q)\n")], '''
import numpy as np
from einsteinpy.geodesic.utils import _kerrnewman
x = np.array([0, 6., 1.1, 0.2])
assert np.allclose(_kerrnewman(x, 0.3, 0.5).astype(float), _kerrnewman(x, 0.3, -0.5).astype(float))
''')
plant("i01-tolerances-swapped", "I01", "an adaptive integration with explicit absolute tolerance much looser than the relative one (or the other way round)",
 "the two tolerances are passed on exchanged",
 [("integrators/runge_kutta.py", "            rtol=rtol,\n            atol=atol,\n", "            rtol=atol,\n            atol=rtol,\n")], '''
import numpy as np
from einsteinpy.integrators import RK45
s = RK45(lambda t, y: y, 0.0, np.array([1e-4]), 5.0, 0.5, rtol=1e-8, atol=1e-12)
assert s.rtol == 1e-8 and s.atol == 1e-12
''')
plant("o01-derivative-units", "O01", "the derivative of the scale factor at a time given in years (or any unit but seconds) in the dark energy era",
 "the dark energy derivative takes the number of the time in its own unit",
 [("utils/scalar_factor.py", "        val = hubble_const.value * (np.e ** (hubble_const.value * T))\n", "        val = hubble_const.value * (np.e ** (hubble_const.value * t.value))\n")], '''
import astropy.units as u
from einsteinpy.utils.scalar_factor import scalar_factor_derivative as d
a, b = d(1e10*u.yr, era="ded"), d((1e10*u.yr).to(u.s), era="ded")
assert abs(a/b - 1) < 1e-9
''')
plant("o02-horizon-mass", "O02", "a shadow of a black hole whose mass is not 1",
 "rays into the hole are integrated from 2 M^2",
 [("rays/shadow.py", "        self.horizon = 2 * self.mass.value  #", "        self.horizon = 2 * self.mass.value**2  #")], '''
import numpy as np, astropy.units as u
from einsteinpy.rays import Shadow
a, b = Shadow(1*u.kg, 20, 30*u.km), Shadow(1.2*u.kg, 20, 36*u.km, limit=0.0012)
assert np.allclose(np.array(a.k1), 1.2*np.array(b.k1), rtol=1e-6)
''')
plant("o03-step-mass", "O03", "an embedding of a mass that is not 1e23 kg",
 "the step of the embedding surface does not scale with the mass",
 [("hypersurface/schwarzschildembedding.py", "        r_initial = self.r_init.value\n        r_step = self.M.value / alpha\n        phi_values", "        r_initial = self.r_init.value\n        r_step = self.M.unit.to(self.units_list[0]) / alpha\n        phi_values")], '''
import numpy as np, astropy.units as u
from einsteinpy.hypersurface import SchwarzschildEmbedding as S
a, b = S(1e23*u.kg).get_values_surface(20)[0], S(2e23*u.kg).get_values_surface(20)[0]
assert a.shape[1] == b.shape[1]
''')
plant("o04-velocity-order", "O04", "the velocity vector of a body placed in Boyer-Lindquist (or spherical) coordinates",
 "azimuthal and polar velocity are exchanged",
 [("bodies.py", "                self.vel_vec = [diff.v_r, diff.v_th, diff.v_p]\n", "                self.vel_vec = [diff.v_r, diff.v_p, diff.v_th]\n")], '''
import astropy.units as u
from einsteinpy.bodies import Body
from einsteinpy.coordinates import SphericalDifferential as S
b = Body(coords=S(0*u.s, 1*u.m, 1*u.rad, 1*u.rad, 1*u.m/u.s, 2*u.rad/u.s, 3*u.rad/u.s))
assert [x.value for x in b.vel_vec] == [1, 2, 3]
''')
plant("o05-ijit-parens", "O05", "numba absent and the decorator used with empty parentheses",
 "the fallback decorator returns None when called with empty parentheses",
 [("ijit.py", "    if inspect.isfunction(first):\n", "    if inspect.isfunction(first) or not (args or kwargs):\n")], '''
from einsteinpy.ijit import ijit
@ijit()
def f(x):
    return x + 1
assert f(1) == 2
''')
