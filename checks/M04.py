"""M04 black hole parameters mean the same in every unit; helper quantities."""
import math
import numpy as np
from astropy import units as u
from harness import Check, Sub, Skip, close, raises, st, grid, logfloat
import bh, textbook as tb
from einsteinpy import constant
from einsteinpy.metric import BaseMetric, Schwarzschild, Kerr, KerrNewman

MASS = {"kg": 1.0, "g": 1e-3, "mg": 1e-6, "t": 1e3, "solMass": None, "earthMass": None, "jupiterMass": None}
CH = {"C": 1.0, "mC": 1e-3, "uC": 1e-6, "MC": 1e6, "A h": 3600.0, "A s": 1.0, "kA min": 6e4}
SPEC = {"C / kg": 1.0, "C / g": 1e3, "mC / g": 1.0, "uC / kg": 1e-6, "A h / t": 3.6, "MC / kg": 1e6}
ONE = {"": 1.0, "%": 1e-2, "km / m": 1e3, "m / km": 1e-3}
LEN = {"m": 1.0, "km": 1e3, "cm": 1e-2, "AU": 149597870700.0}
ANG = {"rad": 1.0, "deg": math.pi / 180, "arcmin": math.pi / 10800}
GM = {"solMass": 1.3271244e20, "earthMass": 3.986004e14, "jupiterMass": 1.2668653e17}   # IAU 2015 nominal GM


def factor(tab, n):
    return tab[n] if tab[n] is not None else GM[n] / tb.G


@st.composite
def cases(draw):
    c = draw(bh.hole_events())
    c["qs"] = draw(grid(-5, 5, 10))
    c["mu"], c["qu"], c["su"], c["au"] = (draw(st.sampled_from(sorted(t))) for t in (MASS, CH, SPEC, ONE))
    c["lu"], c["gu"] = draw(st.sampled_from(sorted(LEN))), draw(st.sampled_from(sorted(ANG)))
    c["u"] = [1.0, 1e3, 1e3 / c["r"], -2e3 / c["r"]]
    return c


def make(c, kind, si):
    cs = bh.coords(bh.CHART[kind])
    def q(v, tab, n, base):
        return v * u.Unit(base) if si else (v / factor(tab, n)) * u.Unit(n)
    M = q(c["M"], MASS, c["mu"], "kg")
    a = q(c["a"], ONE, c["au"], "")
    if kind == "Schwarzschild":
        return Schwarzschild(coords=cs, M=M)
    if kind == "Kerr":
        return Kerr(coords=cs, M=M, a=a)
    return KerrNewman(coords=cs, M=M, a=a, Q=q(c["Q"], CH, c["qu"], "C"), q=q(c["qs"], SPEC, c["su"], "C / kg"))


def rel(A, B, what, k):
    A, B = np.asarray(A, dtype=float), np.asarray(B, dtype=float)
    s = np.abs(B)
    if A.ndim == 2:
        d = np.sqrt(np.abs(np.diag(B)))
        s = np.maximum(s, np.outer(d, d))
    close(A, B, rtol=0, atol=1e-11 * k * s + 0.0, what=what)


def test_units(c):
    kd, ks = bh.horizon_cond(c, 1e-3)
    k = kd * kd * ks * (2 if c["mu"] not in GM else 10)
    if c["a"] in (0.0, 1.0) and c["au"] != "":
        av = (c["a"] / ONE[c["au"]]) * u.Unit(c["au"])
        if not 0 <= av.si.value <= 1:
            raise Skip("spin rounds out of [0, 1]")
    m, s = make(c, c["kind"], False), make(c, c["kind"], True)
    x = np.array([c["t"], c["r"], c["th"], c["ph"]])
    rs, al, q2 = bh.lengths(c)
    close(float(m.sch_rad), rs, rtol=1e-9, what="sch_rad")
    rel(m.metric_covariant(x), s.metric_covariant(x), "metric", k)
    rel(m.metric_contravariant(x), s.metric_contravariant(x), "contravariant", k)
    g, gi, Gm, sc = None, None, None, None
    G1, G2 = np.asarray(m.christoffels(x)), np.asarray(s.christoffels(x))
    nat = tb.natural(np.asarray(s.metric_covariant(x)), np.asarray(s.metric_contravariant(x)), c["r"])
    close(G1, G2, rtol=1e-7, atol=1e-9 * k * nat * ((G1 != 0) | (G2 != 0)), what="christoffels ")
    vec = np.concatenate([x, c["u"]])
    f1, f2 = m.f_vec(0.0, vec), s.f_vec(0.0, vec)
    us = np.abs(np.array(c["u"]))
    if c["kind"] == "KerrNewman":
        for f in ("em_potential_covariant", "em_potential_contravariant"):
            A, B = getattr(m, f)(x), getattr(s, f)(x)
            close(A, B, rtol=1e-9 * k, atol=1e-9 * k * np.abs(B).max() * (B != 0), what=f)
        A, B = m.em_tensor_covariant(x), s.em_tensor_covariant(x)
        close(A, B, rtol=1e-9 * k, what="em_tensor_covariant")
        Fc = np.abs(s.em_tensor_contravariant(x))
        fs = abs(c["qs"]) * (Fc @ us) @ np.abs(s.metric_covariant(x))
    else:
        fs = 0.0
    close(f1[4:], f2[4:], rtol=1e-7, atol=1e-9 * k * (np.einsum("abc,b,c->a", nat, us, us) + fs), what="f_vec ")
    # every reported number is SI
    close(m.M.to_value(u.kg), c["M"], rtol=1e-5, what="M")
    s1, s2 = m.singularities(), s.singularities()
    assert set(s1) == set(s2)
    for n in s1:
        a, b = (v(c["th"]) if callable(v) else v for v in (s1[n], s2[n]))
        if math.isfinite(b) and math.isfinite(a):
            close(a, b, rtol=0, atol=1e-4 * rs, what=n)
    return [c["kind"], c["mu"]]


def test_helpers(c):
    r, th, M, a, Q = c["r"], c["th"], c["M"], c["a"], c["Q"]
    rs, al, q2 = tb.geom(M, a, Q)
    Sig = r * r + (al * math.cos(th)) ** 2
    big = r * r + rs * r + al * al + q2
    qr, qth = (r / LEN[c["lu"]]) * u.Unit(c["lu"]), (th / ANG[c["gu"]]) * u.Unit(c["gu"])
    qM, qQ = (M / factor(MASS, c["mu"])) * u.Unit(c["mu"]), (Q / CH[c["qu"]]) * u.Unit(c["qu"])
    rt = 1e-12 if c["mu"] not in GM else 1e-4
    for obj in (BaseMetric, bh.metric(c)):
        for (R, T, MM, A, QQ, rtol) in ((r, th, M, a, Q, 1e-12), (qr, qth, qM, a * u.one, qQ, rt)):
            close(float(obj.schwarzschild_radius(MM)), rs, rtol=rtol, what="schwarzschild_radius")
            close(float(obj.alpha(MM, A)), al, rtol=rtol, what="alpha")
            close(float(obj.sigma(R, T, MM, A)), Sig, rtol=rtol * 4, what="sigma")
            close(float(obj.rho(R, T, MM, A)), math.sqrt(Sig), rtol=rtol * 4, what="rho")
            close(float(obj.delta(R, MM, A, QQ)), r * r - rs * r + al * al + q2, rtol=0, atol=4 * rtol * big, what="delta")
            close(float(obj.delta(R, MM, A)), r * r - rs * r + al * al, rtol=0, atol=4 * rtol * big, what="delta Q=0")
    if r < 2.0 ** 52:
        for conv in (int, np.int64, lambda v: np.array([v, v + 1], dtype=np.int64)):
            R, R0 = conv(math.ceil(r)), conv(math.ceil(r)) * 1.0
            close(BaseMetric.sigma(R, 1, M, a), BaseMetric.sigma(R0, 1.0, M, a), rtol=1e-13, what="sigma of integers ")
            close(BaseMetric.rho(R, 1, M, a), BaseMetric.rho(R0, 1.0, M, a), rtol=1e-13, what="rho of integers ")
            close(BaseMetric.delta(R, M, a), BaseMetric.delta(R0, M, a), rtol=0, atol=1e-13 * (np.max(R0) ** 2 + rs * np.max(R0) + al * al), what="delta of integers ")
    return []


@st.composite
def spins(draw):
    a = draw(st.one_of(grid(-3, 4, 100), st.sampled_from([-1e-9, 1 + 1e-9, 1e9, -1e300, 1e300, 0.0, 1.0, 1 - 1e-12, 1e-12])))
    return dict(a=a, M=draw(logfloat(0, 36)), r=draw(logfloat(0, 12)), kind=draw(st.sampled_from(["Kerr", "KerrNewman"])),
                q=draw(st.booleans()))


def test_spin(c):
    a, M = c["a"], c["M"]
    aa = a * u.one if c["q"] else a
    MM = M * u.kg if c["q"] else M
    m = bh.metric(dict(c, a=a, Q=0.0))
    x = np.array([0.0, max(c["r"], 10 * tb.G * M / tb.C ** 2), 1.0, 0.0])
    if 0 <= a <= 1:
        close(float(BaseMetric.alpha(MM, aa)), tb.G * M / tb.C ** 2 * a, rtol=1e-13, what="alpha")
        m.metric_covariant(x)
        m.singularities()
        return ["valid"]
    raises(ValueError, BaseMetric.alpha, MM, aa)
    raises(ValueError, BaseMetric.sigma, c["r"], 1.0, MM, aa)
    raises(ValueError, BaseMetric.rho, c["r"], 1.0, MM, aa)
    raises(ValueError, BaseMetric.delta, c["r"], MM, aa)
    raises(ValueError, m.metric_covariant, x)
    raises(ValueError, m.metric_contravariant, x)
    raises(ValueError, m.christoffels, x)
    raises(ValueError, m.singularities)
    return ["invalid"]


BADU = ["m", "s", "K", "kg", "C", "C / kg", "", "rad", "A", "kg m", "C2", "solMass2", "J"]


@st.composite
def bad(draw):
    kind = draw(st.sampled_from(["Schwarzschild", "Kerr", "KerrNewman", "BaseMetric"]))
    par = draw(st.sampled_from(dict(Schwarzschild=["M"], Kerr=["M", "a"], KerrNewman=["M", "a", "Q", "q"],
                                    BaseMetric=["M", "a", "Q"])[kind]))
    return dict(kind=kind, par=par, unit=draw(st.sampled_from(BADU + ["<none>"])), val=draw(logfloat(-3, 5)))


PHYS = dict(M=u.kg, a=u.one, Q=u.C, q=u.C / u.kg)


def test_bad(c):
    cls = dict(Schwarzschild=Schwarzschild, Kerr=Kerr, KerrNewman=KerrNewman, BaseMetric=BaseMetric)[c["kind"]]
    args = dict(M=1e20 * u.kg, a=0.5 * u.one, Q=1.0 * u.C, q=1.0 * u.C / u.kg)
    names = dict(Schwarzschild=["M"], Kerr=["M", "a"], KerrNewman=["M", "a", "Q", "q"], BaseMetric=["M", "a", "Q"])[c["kind"]]
    kw = {n: args[n] for n in names}
    cs = bh.coords("Spherical" if c["kind"] == "Schwarzschild" else "BoyerLindquist")
    if c["unit"] == "<none>":
        if c["par"] == "a":          # a bare number is a dimensionless quantity
            return ["trivial"]
        kw[c["par"]] = c["val"]
        raises((TypeError, u.UnitsError), cls, coords=cs, **kw)
        return ["no unit"]
    un = u.Unit(c["unit"])
    kw[c["par"]] = c["val"] * un
    if un.is_equivalent(PHYS[c["par"]]):
        if c["par"] == "a" and un.physical_type == "angle":
            raise Skip("radian treated as dimensionless")
        cls(coords=cs, **kw)
        return ["accepted"]
    raises(u.UnitsError, cls, coords=cs, **kw)
    return ["rejected"]


CHECK = Check("M04", [
    Sub("units", cases(), test_units, 1500, 30000, nontrivial=lambda c: c["mu"] != "kg" or c["qu"] != "C",
        rule="random hole and event with M, a, Q, q each in a random unit, against the SI-built one; non-trivial: mass or charge not in SI units"),
    Sub("helpers", cases(), test_helpers, 2500, 60000, nontrivial=lambda c: c["a"] > 0,
        rule="sigma, rho, delta, alpha, schwarzschild_radius on numbers and on quantities in random units; non-trivial: spin > 0"),
    Sub("spin_range", spins(), test_spin, 1500, 30000, nontrivial=lambda c: not 0 <= c["a"] <= 1,
        rule="spin in [-3,4] and extreme values; non-trivial: outside [0,1]"),
    Sub("bad_units", bad(), test_bad, 800, 8000, rule="one constructor argument in a random (mostly incompatible) unit or without unit; all non-trivial"),
], assumptions=["solar, Earth, Jupiter mass units compared through IAU 2015 nominal GM (tolerance 1e-5)"], quick_scale=3)
