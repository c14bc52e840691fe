"""Oracle for charts: textbook embeddings and Jacobians, and case strategies."""
import math
import numpy as np
from astropy import units as u
from hypothesis import strategies as st
from harness import grid, logfloat

G = 6.6743e-11          # CODATA 2018 (what astropy uses); verified in checks against einsteinpy.constant
C = 299792458.0
K = G / C ** 2


def embed(system, q, alpha):
    """Cartesian (x,y,z) of the spatial coordinates q in the chart"""
    if system == "Cartesian":
        return np.array(q, dtype=float)
    r, th, ph = q
    rho = math.hypot(r, alpha) if system == "BoyerLindquist" else r
    return np.array([rho * math.sin(th) * math.cos(ph), rho * math.sin(th) * math.sin(ph),
                     r * math.cos(th)])


def jac(system, q, alpha):
    """d(x,y,z)/d(q)"""
    if system == "Cartesian":
        return np.eye(3)
    r, th, ph = q
    if system == "BoyerLindquist":
        rho = math.hypot(r, alpha)
        drho = r / rho
    else:
        rho, drho = r, 1.0
    s, c, sp, cp = math.sin(th), math.cos(th), math.sin(ph), math.cos(ph)
    return np.array([[drho * s * cp, rho * c * cp, -rho * s * sp],
                     [drho * s * sp, rho * c * sp, rho * s * cp],
                     [c, -r * s, 0.0]])


def cond(system, xyz, alpha):
    """relative rounding amplification of the BL radius at a Cartesian point"""
    R2 = float(np.dot(xyz, xyz))
    w = R2 - alpha ** 2
    s = math.sqrt(w * w + 4 * alpha ** 2 * xyz[2] ** 2)
    r2 = 0.5 * (w + s) if w >= 0 else 2 * alpha ** 2 * xyz[2] ** 2 / (s - w)
    return (R2 + alpha ** 2) / r2 if r2 > 0 else math.inf


SYSTEMS = ("Cartesian", "Spherical", "BoyerLindquist")


@st.composite
def directions(draw):
    """(theta, phi) with axis, equator, octant boundaries and generic values"""
    th = draw(st.one_of(grid(0.02, 3.12, 100), grid(1e-6, 3.1415, 10 ** 6),
                        st.sampled_from([math.pi / 2, math.pi / 4, 3 * math.pi / 4, 1e-7, 1e-4, math.pi - 1e-4])))
    ph = draw(st.one_of(grid(-3.14, 3.14, 100), grid(-3.14, 3.14, 100), grid(-20, 20, 100),
                        st.sampled_from([0.0, math.pi / 2, -math.pi / 2, math.pi / 4, 3 * math.pi / 4, -3.1, 3.1415])))
    return th, ph


@st.composite
def events(draw, axis=True):
    """{'sys','q','t','M','a'} – r in units of GM/c^2 from 0.05 to 1e6, any chart"""
    system = draw(st.sampled_from(SYSTEMS))
    M = draw(logfloat(0, 36))
    a = draw(st.one_of(grid(0, 1, 100), st.sampled_from([0.0, 1.0])))
    ratio = draw(st.one_of(logfloat(-1.3, 1.5), logfloat(1.5, 6)))
    R = ratio * K * M
    if system == "Cartesian":
        comp = st.one_of(grid(-1, 1, 100), st.sampled_from([0.0, 1.0, -1.0]))
        n = [draw(comp) for _ in range(3)]
        if axis and draw(st.integers(0, 9)) == 0:
            n[0] = n[1] = 0.0
        if n == [0.0, 0.0, 0.0] or (not axis and n[0] == 0 == n[1]):
            n[draw(st.integers(0, 1))] = 0.7
        q = [R * v for v in n]
        al = a * K * M
        if math.hypot(q[0], q[1]) <= 1.001 * al and abs(q[2]) < 0.02 * al:
            q[2] = 0.5 * al          # stay away from the disc r = 0
    else:
        th, ph = draw(directions())
        if axis and draw(st.integers(0, 9)) == 0:
            th = draw(st.sampled_from([0.0, math.pi]))
        q = [R, th, ph]
    t = draw(st.one_of(grid(-100, 100, 10), st.just(0.0), logfloat(-3, 12)))
    return dict(sys=system, q=q, t=t, M=M, a=a)


def other_hole(draw, e):
    """another mass and spin for the same event (mostly a hole of comparable size)"""
    M = draw(st.one_of(st.just(e["M"]), logfloat(-1, 1).map(lambda f: f * e["M"])))
    return dict(M=M, a=draw(st.one_of(grid(0, 1, 100), st.sampled_from([0.0, 1.0]))))


MUNITS = dict(kg=1.0, g=1e-3, t=1e3, Gg=1e6, mg=1e-6)
AUNITS = dict(one=1.0, percent=0.01)


def units(draw):
    """units of mass and spin: None for bare numbers"""
    k = draw(st.integers(0, 3))
    return None if k < 2 else ["kg", "one"] if k == 2 else [draw(st.sampled_from(sorted(MUNITS))), draw(st.sampled_from(["one", "one", "percent"]))]


def hole(c):
    """mass and spin of the case, with its units"""
    if not c.get("units"):
        return c["M"], c["a"]
    m, a = c["units"]
    if a == "percent":
        aq = (c["a"] / 0.01) * u.percent
        if aq.to_value(u.one) > 1:
            aq = c["a"] * u.one
    else:
        aq = c["a"] * u.one
    return (c["M"] / MUNITS[m]) * u.Unit(m), aq


def octant(x):
    return "".join("0" if v == 0 else "-" if v < 0 else "+" for v in x)
