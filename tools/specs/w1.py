plant("c01-axis-theta", "C01", "a Cartesian position within about 1e-8 rad of the z axis (not on it), converted without velocity",
 "theta from arccos(z/r) loses the distance from the axis for points close to it",
 [("coordinates/utils.py", """    r = np.hypot(hxy, z)
    theta = np.arctan2(hxy, z)
    phi = np.arctan2(y, x)

    return t, r, theta, phi
""", """    r = np.hypot(hxy, z)
    theta = np.arccos(z / r)
    phi = np.arctan2(y, x)

    return t, r, theta, phi
""")], '''
import astropy.units as u
from einsteinpy.coordinates import Cartesian
c = Cartesian(0*u.s, 3.0*u.m, 4.0*u.m, 1e10*u.m)
s = c.to_spherical()
b = s.to_cartesian()
assert abs(b.x.value - 3) < 1e-6 and abs(b.y.value - 4) < 1e-6, (b.x, b.y)
''')

plant("c01-bl-round-trip", "C01", "a spherical position with negative z converted to Boyer-Lindquist coordinates of a spinning hole (the shortcut is right for alpha = 0 and above the equator)",
 "spherical to Boyer-Lindquist folds the lower half space onto the upper one",
 [("coordinates/conversion.py", """        transformed_cartesian = self.convert_cartesian()
        cart = CartesianConversion(*transformed_cartesian)

        return cart.convert_bl(M=M, a=a)
""", """        transformed_cartesian = self.convert_cartesian()
        cart = CartesianConversion(*transformed_cartesian)
        if not self._velocities_provided and not cart.z_si > 0:
            cart.z_si = cart.z_si * np.sign(self.r_si * np.cos(self.th_si) + cart.x_si)

        return cart.convert_bl(M=M, a=a)
"""), ("coordinates/conversion.py", "from einsteinpy.coordinates.utils import (\n", "import numpy as np\n\nfrom einsteinpy.coordinates.utils import (\n")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import Spherical
M, a = 4e30*u.kg, 0.5*u.one
s = Spherical(0*u.s, 10*u.km, 2.5*u.rad, 3.0*u.rad)
z0 = s.to_cartesian().z.value
b = s.to_bl(M=M, a=a)
assert abs(b.to_cartesian(M=M, a=a).z.value - z0) < 1e-6*abs(z0)
''')

plant("c02-bl-vtheta-inside", "C02", "a moving point with spin where the oblateness matters (r comparable with alpha), converted from Cartesian to Boyer-Lindquist",
 "theta velocity uses the Cartesian distance in place of the Boyer-Lindquist radius",
 [("coordinates/utils.py", "    v_th = (-1 / sin_th) * ((v_z * r - v_r * z) / (r**2))\n", "    v_th = (-1 / sin_th) * ((v_z * r - v_r * z) / (w + alpha**2 * (1 - (z / r) ** 2) + alpha**2 * (z / r) ** 4))\n")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import BoyerLindquistDifferential as B
M, a = 4e30*u.kg, 0.9*u.one
b = B(0*u.s, 3000*u.m, 1.1*u.rad, 0.3*u.rad, 5*u.m/u.s, 0.2*u.rad/u.s, 0.1*u.rad/u.s)
c = b.cartesian_differential(M=M, a=a).bl_differential(M=M, a=a)
assert abs(c.v_th.value - 0.2) < 1e-8, c.v_th
''')

plant("c02-sph-negative-hemisphere", "C02", "a velocity with phi component below the equatorial plane at an angle beyond pi/2 from the x axis",
 "the vx component takes |cos| of the azimuth for the polar velocity",
 [("coordinates/utils.py", """        - r * np.sin(th) * np.sin(p) * v_p
        + r * np.cos(th) * np.cos(p) * v_th
""", """        - r * np.sin(th) * np.sin(p) * v_p
        + r * np.cos(th) * (np.cos(p) if th < 0.5 * np.pi else -np.sqrt(1 - np.sin(p) ** 2)) * v_th
""")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import SphericalDifferential as S
s = S(0*u.s, 10*u.m, 2.1*u.rad, 0.4*u.rad, 1*u.m/u.s, 0.3*u.rad/u.s, 0.2*u.rad/u.s)
c = s.cartesian_differential().spherical_differential()
assert abs(c.v_th.value - 0.3) < 1e-8, c.v_th
''')

plant("c03-time-unit", "C03", "a velocity object (differential) built with a time that is not in seconds",
 "4-position of a Cartesian differential multiplies c with the number of the time whatever its unit",
 [("coordinates/differential.py", """        return (_c * self.t.si.value, self.x.si.value, self.y.si.value, self.z.si.value)
""", """        return (_c * self.t.value, self.x.si.value, self.y.si.value, self.z.si.value)
""")], '''
import astropy.units as u
from einsteinpy.coordinates import CartesianDifferential as C
k = dict(x=1*u.m, y=1*u.m, z=1*u.m, v_x=1*u.m/u.s, v_y=1*u.m/u.s, v_z=1*u.m/u.s)
a, b = C(t=60*u.s, **k).position(), C(t=1*u.min, **k).position()
assert abs(a[0]-b[0]) < 1e-6*a[0], (a, b)
''')

plant("c03-degree-velocity", "C03", "an azimuthal velocity given per minute or in degrees per second, used for a 4-velocity of a Boyer-Lindquist differential",
 "4-velocity reports v_p in the given units",
 [("coordinates/differential.py", """        v_t = v0(g_cov_mat, self.v_r.si.value, self.v_th.si.value, self.v_p.si.value)

        self._v_t = v_t * u.m / u.s

    def velocity(self, metric):
        \"\"\"
        Returns Velocity 4-Vector in SI units

        Parameters
        ----------
        metric : ~einsteinpy.metric.*
            Metric object, in which the coordinates are defined

        Returns
        -------
        tuple
            4-Tuple, containing Velocity 4-Vector in SI units

        \"\"\"
        # Setting _v_t
        self.v_t = (metric,)

        return (
            self._v_t.value,
            self.v_r.si.value,
            self.v_th.si.value,
            self.v_p.si.value,
        )

    def cartesian_differential(self, **kwargs):
        \"\"\"
        Converts to Cartesian Coordinates

        Parameters
        ----------
        **kwargs : dict
            Keyword Arguments
            Expects two""", """        v_t = v0(g_cov_mat, self.v_r.si.value, self.v_th.si.value, self.v_p.si.value)

        self._v_t = v_t * u.m / u.s

    def velocity(self, metric):
        \"\"\"
        Returns Velocity 4-Vector in SI units

        Parameters
        ----------
        metric : ~einsteinpy.metric.*
            Metric object, in which the coordinates are defined

        Returns
        -------
        tuple
            4-Tuple, containing Velocity 4-Vector in SI units

        \"\"\"
        # Setting _v_t
        self.v_t = (metric,)

        return (
            self._v_t.value,
            self.v_r.si.value,
            self.v_th.si.value,
            self.v_p.value,
        )

    def cartesian_differential(self, **kwargs):
        \"\"\"
        Converts to Cartesian Coordinates

        Parameters
        ----------
        **kwargs : dict
            Keyword Arguments
            Expects two""")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import BoyerLindquistDifferential as B
from einsteinpy.metric import Kerr
from einsteinpy.coordinates import BoyerLindquist
k = dict(t=0*u.s, r=1e6*u.m, theta=1*u.rad, phi=1*u.rad, v_r=1*u.m/u.s, v_th=0.1*u.rad/u.s)
g = Kerr(coords=BoyerLindquist(0*u.s, 1e6*u.m, 1*u.rad, 1*u.rad), M=1e30*u.kg, a=0.3*u.one)
p, q = B(v_p=180*u.deg/u.s, **k).velocity(g), B(v_p=np.pi*u.rad/u.s, **k).velocity(g)
assert np.allclose(p, q), (p, q)
''')

plant("c04-cross-term", "C04", "a metric with a theta-phi cross term (no built-in black hole has one)",
 "the mixed theta-phi term enters the normalisation once instead of twice",
 [("coordinates/utils.py", "        + 2 * v2 * g[2, 3] * v3\n", "        + v2 * g[2, 3] * v3\n")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import BoyerLindquistDifferential as B, BoyerLindquist
from einsteinpy.metric import BaseMetric
from einsteinpy import constant
c = constant.c.value
G = np.diag([c**2, -1., -1., -1.]); G[2,3] = G[3,2] = 0.4
b = B(0*u.s, 1e3*u.m, 1*u.rad, 1*u.rad, 1*u.m/u.s, 1e8*u.rad/u.s, 1e8*u.rad/u.s)
m = BaseMetric(coords=b, M=1*u.kg, metric_cov=lambda x: G)
v = np.array(b.velocity(m))
assert abs(v @ G @ v - c**2) < 1e-9*c**2, v @ G @ v
''')

plant("c04-stale-vt", "C04", "asking the same velocity object for its 4-velocity in two different metrics one after the other",
 "v_t is computed only the first time",
 [("coordinates/differential.py", """        g = args[0]
        if self.system != g.coords.system:
            raise CoordinateError(
                f"Metric object has been instantiated with a coordinate system, ( {g.coords.system} )"
                " other than Spherical Polar Coordinates."
            )

        g_cov_mat""", """        g = args[0]
        if self.system != g.coords.system:
            raise CoordinateError(
                f"Metric object has been instantiated with a coordinate system, ( {g.coords.system} )"
                " other than Spherical Polar Coordinates."
            )

        if self._v_t is not None:
            return

        g_cov_mat""")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import SphericalDifferential as S
from einsteinpy.metric import Schwarzschild
s = S(0*u.s, 1e7*u.m, 1*u.rad, 1*u.rad, 1*u.m/u.s, 0.1*u.rad/u.s, 0.1*u.rad/u.s)
a, b = Schwarzschild(coords=s, M=1e28*u.kg), Schwarzschild(coords=s, M=2e33*u.kg)
s.velocity(a)
v = np.array(s.velocity(b))
from einsteinpy import constant
c = constant.c.value
g = b.metric_covariant(s.position())
assert abs(v @ g @ v / c**2 - 1) < 1e-9
''')

plant("m01-kn-gtphi-charge", "M01", "a rotating hole with a charge that matters (geometrised charge comparable with the mass)",
 "frame dragging of the Kerr-Newman metric ignores the charge",
 [("metric/kerrnewman.py", "            (-alpha * (np.sin(th) ** 2) * (dl - (r**2) - (alpha**2))) / rho2\n", "            (alpha * (np.sin(th) ** 2) * self.sch_rad * r) / rho2\n"),
  ("metric/kerrnewman.py", ") * ((dddr - 2 * r) * rho2 - drh2dr * (dl - r**2 - alpha**2))\n", ") * (-self.sch_rad * rho2 + drh2dr * self.sch_rad * r)\n"),
  ("metric/kerrnewman.py", "(-alpha * _c * (dl - r**2 - alpha**2)) / (rho2**2)", "(alpha * _c * self.sch_rad * r) / (rho2**2)")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import BoyerLindquist
from einsteinpy.metric import KerrNewman
from einsteinpy import constant
c, G, k = constant.c.value, constant.G.value, constant.coulombs_const.value
M, a = 1e30, 0.5
rs = 2*G*M/c**2; al = a*rs/2; rQ = 0.4*rs/2; Q = rQ*c**2/np.sqrt(G*k)
bl = BoyerLindquist(0*u.s, 3000*u.m, 1*u.rad, 0*u.rad)
g = KerrNewman(coords=bl, M=M*u.kg, a=a*u.one, Q=Q*u.C).metric_covariant(bl.position())
r, th = 3000., 1.
want = c*al*np.sin(th)**2*(rs*r - rQ**2)/(r**2 + al**2*np.cos(th)**2)
assert abs(g[0,3]/want - 1) < 1e-9, (g[0,3], want)
''')

plant("m02-schw-south", "M02", "an event in the southern hemisphere (theta > pi/2) of a Schwarzschild hole",
 "Gamma^theta_phi,phi has the sign of the northern hemisphere everywhere",
 [("metric/schwarzschild.py", "        chl[2, 3, 3] = -np.cos(th) * np.sin(th)\n", "        chl[2, 3, 3] = -np.sin(th) * np.sqrt(1 - np.sin(th) ** 2)\n")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import Spherical
from einsteinpy.metric import Schwarzschild
s = Spherical(0*u.s, 1e5*u.m, 2.3*u.rad, 0*u.rad)
ch = Schwarzschild(coords=s, M=1e30*u.kg).christoffels(np.array(s.position()))
assert abs(ch[2,3,3] + np.sin(2.3)*np.cos(2.3)) < 1e-9
''')

plant("m02-kn-dgdx-charge", "M02", "charge and rotation both non-zero",
 "the theta derivative of g_phi,phi uses Delta without the charge",
 [("metric/kerrnewman.py", "                (dl * (alpha * np.sin(th)) ** 2)\n                * (2 * rho2", "                (super(KerrNewman, self).delta(r, M, a) * (alpha * np.sin(th)) ** 2)\n                * (2 * rho2")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import BoyerLindquist
from einsteinpy.metric import KerrNewman
bl = BoyerLindquist(0*u.s, 3000*u.m, 1*u.rad, 0*u.rad)
m = KerrNewman(coords=bl, M=1e30*u.kg, a=0.6*u.one, Q=5e19*u.C)
x = np.array(bl.position()); h = 1e-5
ch = m.christoffels(x)
def g(i): 
    y = x.copy(); y[2] += i; return m.metric_covariant(y)
dg = (g(h)-g(-h))/(2*h)
want = -0.5*m.metric_contravariant(x)[2,2]*dg[3,3]
assert abs(ch[2,3,3]/want - 1) < 1e-6, (ch[2,3,3], want)
''')

plant("m03-kerr-theta-force", "M03", "a state with both a radial and a polar velocity in Kerr (off the equatorial plane)",
 "the radial acceleration counts the r-theta Christoffel symbol with the symbol of the polar equation",
 [("metric/kerr.py", "            + 2 * chl[1, 1, 2] * vec[5] * vec[6]\n", "            + 2 * chl[1, 2, 1] * vec[5] * vec[6] * (vec[4] != 0)\n"),
  ("metric/kerr.py", "            + 2 * chl[2, 1, 2] * vec[5] * vec[6]\n", "            + 2 * chl[2, 1, 2] * vec[5] * abs(vec[6])\n")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import BoyerLindquist
from einsteinpy.metric import Kerr
bl = BoyerLindquist(0*u.s, 3e4*u.m, 1*u.rad, 0*u.rad)
m = Kerr(coords=bl, M=1e30*u.kg, a=0.6*u.one)
x = np.array(bl.position()); v = np.array([1., 1e5, -30., 20.])
ch = m.christoffels(x)
want = -np.einsum("abc,b,c", ch, v, v)
got = m.f_vec(0, np.hstack([x, v]))[4:]
assert np.allclose(got, want, rtol=1e-9), (got, want)
''')

plant("m04-mass-unit-sr", "M04", "the static helper functions called with a mass in a unit other than kg",
 "Delta takes the mass in the given unit for its Schwarzschild radius",
 [("metric/base_metric.py", "        r_s = 2 * M * _G / _c**2\n        alpha = BaseMetric.alpha(M, a)\n        # Square of Geometrized Charge\n        r_Q2 = (Q**2) * _G * _Cc / _c**4\n\n        delta =", "        r_s = 2 * M * _G / _c**2\n        alpha = BaseMetric.alpha(M, a)\n        # Square of Geometrized Charge\n        r_Q2 = Q * abs(Q) * _G * _Cc / _c**4\n\n        delta =")], '''
import astropy.units as u
from einsteinpy.metric import BaseMetric
a, b = BaseMetric.delta(5e3*u.m, 1e30*u.kg, 0.3*u.one, 5e19*u.C), BaseMetric.delta(5e3*u.m, 1e30*u.kg, 0.3*u.one, -5e19*u.C)
assert abs(a/b - 1) < 1e-9, (a, b)
''')

plant("m05-inner-horizon", "M05", "a hole that is both rotating and charged",
 "the inner horizon forgets the charge",
 [("metric/base_metric.py", "                        r_s - np.sqrt((r_s**2) - (4 * alpha**2) - (4 * r_Q2))\n", "                        r_s - np.sqrt((r_s**2) - (4 * alpha**2) - (4 * r_Q2) * (alpha == 0))\n")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import BoyerLindquist
from einsteinpy.metric import KerrNewman, BaseMetric
bl = BoyerLindquist(0*u.s, 3e4*u.m, 1*u.rad, 0*u.rad)
m = KerrNewman(coords=bl, M=1e30*u.kg, a=0.5*u.one, Q=3e19*u.C)
r = m.singularities()["inner_horizon"]
assert abs(BaseMetric.delta(r, 1e30, 0.5, 3e19)) < 1e-6*r**2
''')

plant("m06-em-theta", "M06", "the r-phi and theta-phi field components of a rotating charged hole away from the equator",
 "the theta-phi component of the field tensor lacks the derivative of Sigma",
 [("metric/kerrnewman.py", "            * (rho2 + (alpha * np.sin(th)) ** 2)\n", "            * (rho2 + (alpha**2 - (alpha * np.cos(th)) ** 2) * np.sin(th) ** 2)\n")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import BoyerLindquist
from einsteinpy.metric import KerrNewman
bl = BoyerLindquist(0*u.s, 3e3*u.m, 1*u.rad, 0*u.rad)
m = KerrNewman(coords=bl, M=1e30*u.kg, a=0.9*u.one, Q=3e18*u.C)
x = np.array(bl.position()); h = 1e-6
F = m.em_tensor_covariant(x)
p, q = x.copy(), x.copy(); p[2] += h; q[2] -= h
d = (m.em_potential_covariant(p)[3] - m.em_potential_covariant(q)[3])/(2*h)
assert abs(abs(F[2,3]) - abs(d)) < 1e-6*abs(d), (F[2,3], d)
''')

plant("m07-perturbation-accumulates", "M07", "a user metric function that returns the same (cached) array at every call, together with a perturbation; the metric has to be asked more than once",
 "the perturbation is added into the array returned by the user's function, so it accumulates over calls",
 [("metric/base_metric.py", """            p_cov = self.perturbation(x_vec)
            return g_cov + p_cov
""", """            g_cov += self.perturbation(x_vec)
""")], '''
import numpy as np, astropy.units as u
from einsteinpy.coordinates import Spherical
from einsteinpy.metric import BaseMetric
G = np.diag([1., -1., -2., -3.])
s = Spherical(0*u.s, 3e3*u.m, 1*u.rad, 0*u.rad)
m = BaseMetric(coords=s, M=1*u.kg, metric_cov=lambda x: G, perturbation=lambda x: 0.1*np.ones((4,4)))
a = np.array(m.metric_covariant(s.position())); b = np.array(m.metric_covariant(s.position()))
assert np.allclose(a, b)
''')
