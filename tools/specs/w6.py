exec(open("/tmp/specs/w5.py").read().split("plant(")[0])
plant("c01-mass-unit", "C01", "a mass given in another unit than kilogram, for the conversion of a Boyer-Lindquist position",
 "the number of the mass is taken whatever its unit",
 [("coordinates/core.py", ("class BoyerLindquist(BoyerLindquistConversion)", 'M, a = kwargs["M"], kwargs["a"]'), 'M, a = getattr(kwargs["M"], "value", kwargs["M"]), kwargs["a"]')], NUM + '''
b = BoyerLindquist(0*u.s, 3000*u.m, 1*u.rad, 1*u.rad)
x = b.to_cartesian(M=4e30*u.kg, a=0.9*u.one); y = b.to_cartesian(M=4e33*u.g, a=0.9*u.one)
assert abs(x.x.value - y.x.value) < 1e-6, (x, y)
''')
plant("c01-ring-series", "C01", "a Cartesian position close to the hole (r comparable with alpha), converted without velocity",
 "the inner root is replaced by the first terms of its series",
 [("coordinates/utils.py", ("def cartesian_to_bl_novel", "    phi = np.arctan2(y, x)\n"), """    if w > 0.0:
        r = np.sqrt(w + (alpha * z) ** 2 / w)
    phi = np.arctan2(y, x)
""")], NUM + '''
b = Cartesian(0*u.s, 3000*u.m, 100*u.m, 2000*u.m).to_bl(M=4e30*u.kg, a=0.9*u.one)
al = BaseMetric.alpha(4e30, 0.9); r = b.r.value
assert abs(r*r + al*al - r*r - al*al*np.cos(b.theta.value)**2 - al*al*np.sin(b.theta.value)**2) < 1e-3
assert abs(3000**2 + 100**2 - (r*r + al*al)*np.sin(b.theta.value)**2) < 1e-3, b
''')
plant("c02-ring-velocity", "C02", "a velocity with a component along the axis at a place near a spinning hole, off the equator",
 "the radial velocity lacks the term of the motion along the axis",
 [("coordinates/utils.py", "(w * dw_dt + 4 * (alpha**2) * z * v_z)", "(w * dw_dt)")], NUM + '''
from einsteinpy.coordinates.utils import cartesian_to_bl
h = 1e-3
f = lambda s: cartesian_to_bl(0., 3000., 100., 2000. + 50*s, 2500., 0., 0., 50.)
num = (f(h)[1] - f(-h)[1]) / (2*h)
assert abs(num - f(0)[4]) < 1e-4, (num, f(0)[4])
''')
plant("c03-degrees-position", "C03", "a spherical position whose azimuth is given in degrees, asked for its 4-vector",
 "the 4-position holds the azimuth as given",
 [("coordinates/core.py", ("class Spherical(SphericalConversion)", "            self.phi.si.value,\n"), "            self.phi.value,\n")], NUM + '''
s = Spherical(0*u.s, 3*u.km, 50*u.deg, 100*u.deg)
assert abs(s.position()[3] - np.pi/1.8) < 1e-9, s.position()
''')
plant("m01-inside", "M01", "an event inside the horizon of a Schwarzschild black hole",
 "g_rr keeps its sign inside the horizon",
 [("metric/schwarzschild.py", "g_cov[1, 1] = -1.0 / tmp", "g_cov[1, 1] = -1.0 / abs(tmp)")], NUM + '''
m = Schwarzschild(coords=Spherical(0*u.s, 3*u.m, 1*u.rad, 1*u.rad), M=4e30*u.kg)
g = m.metric_covariant(np.array([0, 2000., 1, 1]))
assert g[0, 0] < 0 and g[1, 1] > 0
''')
plant("m02-inside", "M02", "an event inside the horizon of a Schwarzschild black hole",
 "the radial symbol keeps its sign inside the horizon",
 [("metric/schwarzschild.py", "chl[1, 1, 1] = 0.5 * r_s / (r_s * r - r**2)", "chl[1, 1, 1] = -0.5 * r_s / (r * abs(r - r_s))")], NUM + '''
m = Schwarzschild(coords=Spherical(0*u.s, 3*u.m, 1*u.rad, 1*u.rad), M=4e30*u.kg)
g = m.christoffels(np.array([0, 2000., 1, 1]))
assert g[1, 1, 1] > 0
''')
plant("m03-connection-cache", "M03", "the right-hand side asked for at two events which differ by little, one after the other, as integrators do",
 "the Christoffel symbols of the last event are used again when the event is close to it",
 [("metric/kerr.py", "        chl = self.christoffels(vec[:4])\n", """        if getattr(self, "_at", None) is None or not np.allclose(self._at, vec[:4]):
            self._at, self._chl = 1.0 * vec[:4], self.christoffels(vec[:4])
        chl = self._chl
""")], NUM + '''
mk = lambda: Kerr(coords=BoyerLindquist(0*u.s, 3*u.m, 1*u.rad, 1*u.rad), M=4e30*u.kg, a=0.5*u.one)
m = mk(); v = np.array([0, 2e4, 1, 1, 1.1, 100, 0.01, 0.02]); w = v.copy(); w[1] += 0.1
m.f_vec(0, v)
assert np.allclose(m.f_vec(0, w), mk().f_vec(0, w), rtol=1e-12, atol=0)
''')
plant("m05-naked", "M05", "a naked singularity (charge and spin beyond the extremal values)",
 "horizons are reported for a naked singularity",
 [("metric/base_metric.py", """                    "outer_horizon": (
                        r_s + np.sqrt((r_s**2) - (4 * alpha**2) - (4 * r_Q2))""", """                    "outer_horizon": (
                        r_s + np.sqrt(np.abs((r_s**2) - (4 * alpha**2) - (4 * r_Q2)))""")], NUM + '''
m = KerrNewman(coords=BoyerLindquist(0*u.s, 3*u.m, 1*u.rad, 1*u.rad), M=4e30*u.kg, a=0.9*u.one, Q=5e20*u.C)
r = m.singularities()["outer_horizon"]
assert not np.isfinite(r), r
''')
plant("m05-surface-cache", "M05", "the surfaces of two holes of the same mass and spin and different charge, one after the other",
 "surfaces are remembered by mass and spin only",
 [("metric/base_metric.py", """        system, M, a, Q = self.coords.system, self.M.value, self.a.value, self.Q.value
""", """        system, M, a, Q = self.coords.system, self.M.value, self.a.value, self.Q.value
        seen = BaseMetric.__dict__.get("_charges") or {}
        BaseMetric._charges = seen
        Q = seen.setdefault((self.name, M, a), Q)
""")], NUM + '''
f = lambda Q: KerrNewman(coords=BoyerLindquist(0*u.s, 3*u.m, 1*u.rad, 1*u.rad), M=4e30*u.kg, a=0.5*u.one, Q=Q*u.C).singularities()["outer_horizon"]
assert f(1e20) != f(2e20)
''')
plant("m07-offdiagonal-perturbation", "M07", "a perturbation with off-diagonal components only",
 "a perturbation without diagonal components is taken for no perturbation",
 [("metric/base_metric.py", """            p_cov = self.perturbation(x_vec)
            return g_cov + p_cov
""", """            p_cov = self.perturbation(x_vec)
            if np.trace(p_cov) != 0:
                return g_cov + p_cov
""")], NUM + '''
p = np.zeros((4, 4)); p[0, 1] = p[1, 0] = 0.1
m = BaseMetric(coords=Cartesian(0*u.s, 3*u.m, 1*u.m, 1*u.m), M=0*u.kg, metric_cov=lambda x: np.diag([-1., 1, 1, 1]), perturbation=lambda x: p)
assert m.metric_covariant(np.zeros(4))[0, 1] == 0.1
''')
plant("g01-azimuth-wrap", "G01", "an initial azimuth outside [0, 2 pi)",
 "the initial azimuth is reduced to one turn",
 [("geodesic/geodesic.py", "        self.position = np.array([0.0, *position])\n", "        self.position = np.array([0.0, *position])\n        self.position[3] = self.position[3] % (2 * np.pi)\n")], '''
from einsteinpy.geodesic import Timelike
g = Timelike(metric="Schwarzschild", metric_params=(0.,), position=[10., 1.5, -1.], momentum=[0., 0., 4.], steps=2, suppress_warnings=True)
assert g.position[3] == -1., g.position
''')
plant("g02-pow-at-zero", "G02", "the first power (or any) of a dual number whose value is zero",
 "powers of zero are constant zero",
 [("utils/dual.py", """        return DualNumber(
            self.val**power, self.deriv * power * self.val ** (power - 1)
        )""", """        if self.val == 0 and power > 0:
            return DualNumber(0.0, 0.0)
        return DualNumber(
            self.val**power, self.deriv * power * self.val ** (power - 1)
        )""")], '''
from einsteinpy.utils.dual import DualNumber
assert (DualNumber(0, 3)**1).deriv == 3
''')
plant("g03-zero-component", "G03", "a metric with a component that vanishes at the start, or anywhere on the way, but not nearby",
 "components that vanish at a point are taken to be constant",
 [("utils/dual.py", """            if i <= j:
                J[i, j] = _diff_g(g, g_prms, coords, (i, j), wrt)
""", """            if i <= j and g(coords, *g_prms)[i, j] != 0:
                J[i, j] = _diff_g(g, g_prms, coords, (i, j), wrt)
""")], '''
import numpy as np
from einsteinpy.geodesic import Geodesic
def run(n, d):
    def m(x, *p):
        g = np.zeros((4, 4), dtype=object)
        g[0, 0] = -1.0; g[1, 1] = 1.0; g[2, 2] = 1.0; g[3, 3] = 1.0
        g[1, 2] = g[2, 1] = 0.5*x[1]
        return g
    return Geodesic(metric=m, metric_params=(), position=[0., 0., 0.], momentum=[0.5, 0.4, 0.], steps=n, delta=d, order=4, return_cartesian=False, suppress_warnings=True).trajectory[1][-1]
a, b, c = run(1, .4), run(2, .2), run(4, .1)
assert np.abs(a - b).max() > 10*np.abs(b - c).max(), (np.abs(a - b).max(), np.abs(b - c).max())
''')
plant("g04-tiny-momentum", "G04", "a momentum component much smaller than one",
 "momenta below a threshold are set to zero after each step",
 [("integrators/fantasy.py", "        self.res_list = arr\n", "        arr[1][np.abs(arr[1]) < 1e-8] = 0.0\n        self.res_list = arr\n")], '''
import numpy as np
from einsteinpy.integrators import GeodesicIntegrator
from einsteinpy.geodesic.utils import _sch
g = GeodesicIntegrator(metric=_sch, metric_params=(0.,), q0=np.array([0., 20., 1.5, 0.]), p0=np.array([-1., 0., 0., 2e-9]), suppress_warnings=True)
for _ in range(5): g.step()
q1, p1, q2, p2 = g.results[-1]
assert p1[3] + p2[3] != 0
''')
plant("g05-single-precision", "G05", "always; visible in the last digits only",
 "the trajectory is rounded to single precision",
 [("geodesic/geodesic.py", "vecs = np.array(geodint.results, dtype=float)", "vecs = np.array(geodint.results, dtype=np.float32).astype(float)")], '''
from einsteinpy.geodesic import Timelike
g = Timelike(metric="Schwarzschild", metric_params=(0.,), position=[10.1, 1.3, -1.], momentum=[0., 0., 4.], steps=3, delta=1e-6, suppress_warnings=True, return_cartesian=False)
assert abs(g.trajectory[1][0, 1] - 10.1) < 1e-8, g.trajectory[1][0, 1]
''')
plant("g06-long-runs", "G06", "a run of more than a hundred steps with warnings on",
 "in long runs only every tenth step is checked",
 [("integrators/fantasy.py", "        if not self.suppress_warnings:\n            g = self.metric\n", "        if not self.suppress_warnings and (\n            self.steps <= 100 or self.step_num % 10 == 0\n        ):\n            g = self.metric\n")], '''
import warnings
from einsteinpy.geodesic import Timelike
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    Timelike(metric="Schwarzschild", metric_params=(0.,), position=[4., 1.3, -1.], momentum=[0., 0., 4.], steps=120, delta=0.1, rtol=1e-12, atol=1e-12)
assert len([x for x in w if issubclass(x.category, RuntimeWarning)]) > 100
''')
plant("i01-close-to-bound", "I01", "a last step that is small compared with the time itself",
 "a time close to the bound counts as the bound",
 [("integrators/runge_kutta.py", """        if (self.t >= self.t_bound and self.direction == 1) or (""", """        if np.isclose(self.t, self.t_bound) or (self.t >= self.t_bound and self.direction == 1) or (""")], '''
from einsteinpy.integrators import RK4naive
o = RK4naive(lambda t, y: y*0 + 1., 1000., 0., 1000.005, 1e-3)
o.step()
assert o.t > 1000.0005
''')
plant("o01-derivative-tuning", "O01", "the derivative in the dark energy era with a tuning parameter other than one",
 "the tuning parameter is missing from the derivative in the dark energy era",
 [("utils/scalar_factor.py", ("def scalar_factor_derivative", "        return tuning_param * val\n"), "        return val\n")], '''
from einsteinpy.utils.scalar_factor import *
import astropy.units as u
a, b = scalar_factor_derivative(1e17*u.s, "ded", 1.0), scalar_factor_derivative(1e17*u.s, "ded", 3.0)
assert abs(b/a - 3) < 1e-9
''')
plant("o02-fov-unit", "O02", "a field of view given in another unit than kilometre",
 "the number of the field of view is taken whatever its unit",
 [("rays/shadow.py", "self.fov = fov.to(u.km)", "self.fov = fov.value * u.km")], '''
from einsteinpy.rays import Shadow
import astropy.units as u
s = Shadow(mass=1*u.kg, n_rays=20, fov=30000*u.m)
assert abs(max(s.fb1) - 30) < 1e-9, max(s.fb1)
''')
plant("o03-coarse-step", "O03", "a resolution below one, i.e. steps longer than the mass",
 "the step is at most M",
 [("hypersurface/schwarzschildembedding.py", ("def get_values(self, alpha)", "r_step = self.M.value / alpha"), "r_step = self.M.value / max(alpha, 1)")], '''
from einsteinpy.hypersurface import SchwarzschildEmbedding
import astropy.units as u
assert len(SchwarzschildEmbedding(1e24*u.kg).get_values(0.5)[0]) < len(SchwarzschildEmbedding(1e24*u.kg).get_values(1)[0])
''')
plant("o04-mass-converted", "O04", "a body whose mass is given in another unit than kilogram",
 "the radius is kept in metres whatever was given",
 [("bodies.py", "        check_units(self.mass, self.q, self.R)\n", "        check_units(self.mass, self.q, self.R)\n        self.R = self.R.si\n")], '''
from einsteinpy.bodies import Body
import astropy.units as u
b = Body(name="x", R=5*u.km)
assert b.R.unit == u.km and b.R.value == 5, b.R
''')
plant("o05-integer-square", "O05", "spherical coordinates with a large integer radius",
 "the squared radius overflows in compiled code for large integers",
 [("coordinates/utils.py", ("def spherical_to_cartesian_novel", "    x = r * np.cos(p) * np.sin(th)\n    y = r * np.sin(p) * np.sin(th)\n"), "    s = np.sqrt(r * r * np.sin(th) ** 2)\n    x = s * np.cos(p)\n    y = s * np.sin(p)\n")], '''
from einsteinpy.coordinates.utils import spherical_to_cartesian_novel as f
a, b = f(0., 4000000000, 1., 1.), f(0., 4e9, 1., 1.)
assert abs(a[1] - b[1]) < 1, (a, b)
''')
plant("p01-long-trajectory", "P01", "a trajectory of more than a thousand points",
 "long trajectories are thinned out",
 [("plotting/geodesic/interactive.py", ("        title: str = \"Geodesic Plot\",", "        traj = geodesic.trajectory[1]\n"), "        traj = geodesic.trajectory[1]\n        traj = traj[:: max(1, len(traj) // 1000)]\n")], '''
import types, numpy as np
from einsteinpy.plotting.geodesic.interactive import InteractiveGeodesicPlotter
g = types.SimpleNamespace(metric_name="Kerr", metric_params=(0.5,), kind="Time-like", coords="Cartesian", trajectory=(np.arange(2500), np.random.rand(2500, 8)))
p = InteractiveGeodesicPlotter(); p.plot(g)
assert len(p.fig.data[-1].x) == 2500
''')
plant("p02-long-profile", "P02", "an intensity profile of more than five hundred rays",
 "the image shows at most five hundred radii",
 [("plotting/rays/shadow.py", """            self.values1, self.values2 = np.meshgrid(
                self.shadow.intensity, self.shadow.intensity
            )
""", """            self.values1, self.values2 = np.meshgrid(
                self.shadow.intensity, self.shadow.intensity
            )
            k = max(1, len(self.shadow.fb1) // 500)
            self.r1, self.theta1, self.values1 = (
                self.r1[:, ::k],
                self.theta1[:, ::k],
                self.values1[:, ::k],
            )
""")], '''
import types, numpy as np, matplotlib.pyplot as plt
from einsteinpy.plotting import ShadowPlotter
b = np.linspace(1, 9, 1001)
s = types.SimpleNamespace(fb1=list(b), fb2=-b, intensity=b*0 + 1)
p = ShadowPlotter(s, is_line_plot=False); p.plot(); plt.show = lambda: 0; p.show()
assert plt.gca().collections[0].get_coordinates().shape[1] == 1001
''')
plant("s01-float-components", "S01", "a metric with floating point components that are no short fractions",
 "floating point numbers are replaced by simple fractions before inverting",
 [("symbolic/metric.py", "sympy.simplify(sympy.Matrix(self.arr.tolist()).inv()).tolist()", "sympy.simplify(\n                    sympy.Matrix(self.arr.tolist())\n                    .applyfunc(lambda e: sympy.nsimplify(e, tolerance=1e-4))\n                    .inv()\n                ).tolist()")], SYM + '''
x, y = symbols("x y")
m = MetricTensor([[1.23456789, 0], [0, x]], (x, y))
assert abs(float(m.inv()[0, 0])*1.23456789 - 1) < 1e-9, m.inv()
''')
plant("s02-constant-row", "S02", "a metric in which a diagonal component is constant while an off-diagonal component of the same row is not",
 "rows with a constant diagonal are taken to be constant",
 [("symbolic/christoffel.py", """                for n in range(dims):
                    tmpvar +=""", """                for n in range(dims):
                    if not mat[n, n].free_symbols and n != i:
                        continue
                    tmpvar +="""  )], SYM + '''
x, y = symbols("x y")
m = MetricTensor([[1, y], [y, 5]], (x, y))
g = ChristoffelSymbols.from_metric(m)
import itertools
inv = Matrix([[1, y], [y, 5]]).inv(); M = [[1, y], [y, S(5)]]
for i, j, k in itertools.product(range(2), repeat=3):
    X = (x, y)
    w = sum(inv[i, n]*(sympy.diff(M[n][j], X[k]) + sympy.diff(M[n][k], X[j]) - sympy.diff(M[j][k], X[n])) for n in range(2))/2
    assert simplify(w - g[i, j, k]) == 0
''')
plant("s03-commuting", "S03", "Christoffel symbols of which products mix more than one pair of coordinates (off-diagonal metric)",
 "one of the quadratic terms is left out when its partner vanishes",
 [("symbolic/riemann.py", """                temp += arr[p, s, n] * arr[t, p, r] - arr[p, s, r] * arr[t, p, n]
""", """                if arr[p, s, n] == 0 and p != s:
                    continue
                temp += arr[p, s, n] * arr[t, p, r] - arr[p, s, r] * arr[t, p, n]
""")], SYM + '''
x, y, z = symbols("x y z")
m = MetricTensor([[1, 0, 0], [0, x**2, 0], [0, 0, x**2*sin(y)**2]], (x, y, z))
r = RiemannCurvatureTensor.from_metric(m)
assert all(simplify(e) == 0 for e in r.tensor().reshape(81))
''')
plant("s10-simplify-self", "S10", "simplify() called with set_self=False",
 "the object is changed although it was asked not to be",
 [("symbolic/tensor.py", "        return simplify_sympy_array(self.tensor())\n\n\nclass", "        self.arr = self.arr.applyfunc(sympy.simplify) if self.order else self.arr\n        return simplify_sympy_array(self.tensor())\n\n\nclass")], SYM + '''
x, y = symbols("x y")
t = Tensor([sin(x)**2 + cos(x)**2, y], config="u")
t.simplify(set_self=False)
assert t.tensor()[0] == sin(x)**2 + cos(x)**2
''')
plant("s12-constant-c", "S12", "Kerr metric with a value passed for the speed of light",
 "the off-diagonal component keeps the symbol of the speed of light",
 [("symbolic/predefined/vacuum_solutions.py", "sch * r * a * (sin(theta) ** 2) / (Sigma * c)\n\n", "sch * r * a * (sin(theta) ** 2) / (Sigma * constants.c)\n\n")], SYM + '''
m = predefined.Kerr(c=1)
assert sympy.Symbol("c") not in m.tensor()[0, 3].free_symbols, m.tensor()[0, 3]
''')
