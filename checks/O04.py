"""O04 bodies: attributes, defaults, unit checks, independence, predefined solar system."""
import math
import re
import numpy as np
from astropy import units as u
from harness import Check, Sub, Skip, KnownFinding, st, grid, logfloat, raises
import bh
from einsteinpy import bodies as B
from einsteinpy.bodies import Body
from einsteinpy.coordinates import CartesianDifferential, SphericalDifferential, BoyerLindquistDifferential
from einsteinpy.metric import Schwarzschild, Kerr, KerrNewman

MU = {"kg": 1.0, "g": 1e-3, "t": 1e3, "mg": 1e-6, "solMass": None, "earthMass": None, "jupiterMass": None}
QU = {"C": 1.0, "mC": 1e-3, "uC": 1e-6, "A h": 3600.0, "A s": 1.0}
RU = {"km": 1e3, "m": 1.0, "cm": 1e-2, "AU": 149597870700.0, "lyr": 299792458.0 * 365.25 * 86400, "solRad": None, "R_earth": None}
TAB = dict(mass=MU, q=QU, R=RU)
DEFAULT = dict(mass=("kg", 0.0), q=("C", 0.0), R=("km", 0.0))
ALLU = sorted(MU) + sorted(QU) + sorted(RU) + ["", "s", "K", "m / s", "rad", "1 / kg", "kg2", "C / kg", "km3", "J"]
CL = dict(Cartesian=CartesianDifferential, Spherical=SphericalDifferential, BoyerLindquist=BoyerLindquistDifferential)


def coords(c):
    if c is None:
        return None
    k, v = c["kind"], c["v"]
    L = u.Unit(c["lu"])
    if k == "Cartesian":
        return CL[k](v[0] * u.s, v[1] * L, v[2] * L, v[3] * L, v[4] * u.km / u.s, v[5] * u.km / u.s, v[6] * u.km / u.s)
    return CL[k](v[0] * u.s, v[1] * L, v[2] * u.rad, v[3] * u.rad, v[4] * u.km / u.s, v[5] * u.rad / u.s, v[6] * u.rad / u.s)


def same(x, y, what):
    assert x is y or (x.unit == y.unit and np.array_equal(x.value, y.value)), "%s is %s, %s was given" % (what, x, y)


def check_body(b, spec, given):
    """b has what was given, and the documented defaults otherwise"""
    assert b.name == given.get("name", "Generic Body"), "name %r" % b.name
    for k in ("mass", "q", "R"):
        x = getattr(b, k)
        if k in given:
            same(x, given[k], k)
        else:
            un, v = DEFAULT[k]
            assert isinstance(x, u.Quantity) and x.unit == u.Unit(un) and x.value == v, "default %s is %s" % (k, x)
    assert b.parent is given.get("parent"), "parent"
    d = given.get("coords")
    assert b.coords is d, "coords"
    if d is not None:
        pn = ("x", "y", "z") if isinstance(d, CartesianDifferential) else ("r", "theta", "phi")
        vn = ("v_x", "v_y", "v_z") if isinstance(d, CartesianDifferential) else ("v_r", "v_th", "v_p")
        for vec, names in ((b.pos_vec, pn), (b.vel_vec, vn)):
            assert isinstance(vec, list) and len(vec) == 3
            for x, n in zip(vec, names):
                same(x, getattr(d, n), n)


def text(b):
    lines = ["Body(", "%s," % b.name, "%s," % (b.parent.name if b.parent is not None else None), "%s, %s, %s," % (b.mass, b.q, b.R), str(b.coords), ")"]
    return re.sub(r"\s+", " ", " ".join(lines)).strip()


def build(s, parent):
    g = {}
    if s["name"] is not None:
        g["name"] = s["name"]
    for k in ("mass", "q", "R"):
        if s[k] is not None:
            g[k] = s[k][0] * u.Unit(s[k][1])
    if s["coords"] is not None:
        g["coords"] = coords(s["coords"])
    if parent is not None:
        g["parent"] = parent
    if s["positional"]:
        full = [g.get("name", "Generic Body")] + [g.get(k, DEFAULT[k][1] * u.Unit(DEFAULT[k][0])) for k in ("mass", "q", "R")] + [g.get("coords"), g.get("parent")]
        return Body(*full), g
    return Body(**g), g


def test_history(c):
    """a family of bodies, each checked again after all others were made and changed"""
    made, labels = [], set()
    for s in c["bodies"]:
        parent = made[s["parent"] % len(made)][0] if made and s["parent"] is not None else None
        b, g = build(s, parent)
        check_body(b, s, g)
        made.append((b, s, g))
        labels |= {"coords" if s["coords"] else "no coords", "parent" if parent is not None else "no parent"}
        t = re.sub(r"\s+", " ", str(b)).strip()
        assert t == text(b), "str() is %s, expected %s" % (t, text(b))
        assert str(b) == repr(b)
        # in-place changes of one body (accretion, charging, inflation) concern this body only
        if s["change"]:
            k, f = s["change"]
            if k in g:
                g[k] = g[k].copy()
                setattr(b, k, g[k].copy())
            x = getattr(b, k)
            x += f * u.Unit(DEFAULT[k][0])
            setattr(b, k, x)
            g[k] = x.copy()
            labels.add("changed in place")
    for b, s, g in made:
        check_body(b, s, g)
    check_body(Body(), None, {})
    # the parent chain is the one given
    for b, s, g in made:
        n, x = 0, b
        while x.parent is not None:
            x, n = x.parent, n + 1
            assert n <= len(made)
    return sorted(labels)


def test_units(c):
    """values are accepted exactly when the unit is convertible"""
    k, unit = c["arg"], c["unit"]
    dim = {"mass": "kg", "q": "C", "R": "km"}[k]
    ok = unit in TAB[k]
    val = c["v"]
    if c["raw"]:
        raw = [val, None, str(val), [val]][c["raw"] - 1]
        raises((u.UnitsError, TypeError), Body, **{k: raw})
        return ["no unit"]
    q = val * u.Unit(unit)
    if not ok:
        raises((u.UnitsError, TypeError), Body, **{k: q})
        return ["incompatible"]
    b = Body(**{k: q})
    same(getattr(b, k), q, k)
    if TAB[k][unit] is not None:
        s = getattr(b, k).to(u.Unit(dim)).value * {"kg": 1, "C": 1, "km": 1e3}[dim]
        assert math.isclose(s, val * TAB[k][unit], rel_tol=1e-13, abs_tol=0), "%s in SI: %g" % (k, s)
    return ["compatible"]


def test_metric(c):
    """a body as source: the metric of its mass and charge"""
    M = c["M"]
    b = Body(name="hole", mass=M / 1e3 * u.t if c["mu"] == "t" else M * u.kg, q=c["Qf"] * u.C, R=1 * u.km)
    cs = bh.coords("BoyerLindquist") if c["kind"] != "Schwarzschild" else bh.coords("Spherical")
    def make(m, q):
        if c["kind"] == "Schwarzschild":
            return Schwarzschild(coords=cs, M=m)
        if c["kind"] == "Kerr":
            return Kerr(coords=cs, M=m, a=c["a"] * u.one)
        return KerrNewman(coords=cs, M=m, a=c["a"] * u.one, Q=q)
    x = np.array([0.0, c["r"] * 2 * 6.6743e-11 * M / 299792458.0 ** 2, c["th"], 0.3])
    g1 = make(b.mass, b.q).metric_covariant(x)
    g2 = make(M * u.kg, c["Qf"] * u.C).metric_covariant(x)
    assert np.allclose(g1, g2, rtol=1e-10, atol=0)
    return [c["kind"]]


#           mass kg, radius km, parent, distance order from the Sun (textbook values)
OBS = {"Sun": (1.9885e30, 695700, None, 0), "Mercury": (3.3011e23, 2439.7, "Sun", 1), "Venus": (4.8675e24, 6051.8, "Sun", 2),
       "Earth": (5.9722e24, 6371.0, "Sun", 3), "Moon": (7.346e22, 1737.4, "Earth", 3), "Mars": (6.4171e23, 3389.5, "Sun", 4),
       "Jupiter": (1.8982e27, 69911, "Sun", 5), "Saturn": (5.6834e26, 58232, "Sun", 6), "Uranus": (8.6810e25, 25362, "Sun", 7),
       "Neptune": (1.02413e26, 24622, "Sun", 8), "Pluto": (1.303e22, 1188.3, "Sun", 9)}


def test_predefined(c):
    b = getattr(B, c["name"])
    m, R, parent, _ = OBS[c["name"]]
    assert isinstance(b, Body) and b.name == c["name"]
    assert (b.parent.name if b.parent is not None else None) == parent, "parent %s" % b.parent
    if parent:
        assert b.parent is getattr(B, parent)
        assert b.mass < b.parent.mass and b.R < b.parent.R
    assert b.q == 0 * u.C and b.coords is None
    mk, Rk = b.mass.to(u.Unit(c["mu"])).to(u.kg).value, b.R.to(u.Unit(c["ru"])).to(u.km).value
    assert abs(mk / m - 1) < 0.01, "mass of %s: %g kg, observed %g" % (c["name"], mk, m)
    if c["name"] == "Earth" and abs(Rk - 6731) < 1e-6:
        raise KnownFinding("O04-earth-radius", "radius 6731 km")
    assert abs(Rk / R - 1) < 0.01, "radius of %s: %g km, observed %g" % (c["name"], Rk, R)
    o = getattr(B, c["other"])
    if c["other"] != c["name"]:
        assert (b.mass < o.mass) == (m < OBS[c["other"]][0]) and (b.R < o.R) == (R < OBS[c["other"]][1]), "order of %s and %s" % (c["name"], c["other"])
    # mean density and surface gravity of the bodies (g/cm3): 0.6 to 6
    rho = b.mass / (4 / 3 * math.pi * b.R ** 3)
    assert 0.6 < rho.to(u.g / u.cm ** 3).value < 6, "density %s" % rho
    return [c["name"]]


VAL = st.one_of(grid(-10, 10, 4), logfloat(-12, 33), st.just(0.0))


def quantity(k):
    return st.one_of(st.none(), st.tuples(VAL, st.sampled_from(sorted(TAB[k]))))


CO = st.one_of(st.none(), st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(CL)), lu=st.sampled_from(["m", "km", "AU"]),
                                                     v=st.tuples(grid(0, 5, 4), grid(1, 99, 2), grid(0.1, 3, 10), grid(-3, 3, 10), *[grid(-9, 9, 4)] * 3))))
NAME = st.one_of(st.none(), st.text(alphabet="abcXYZ 0189-'\u2609\u00e9{}%", min_size=0, max_size=12), st.sampled_from(["Sun", "Generic Body", "None"]))
SPEC = st.fixed_dictionaries(dict(name=NAME, mass=quantity("mass"), q=quantity("q"), R=quantity("R"), coords=CO, parent=st.one_of(st.none(), st.integers(0, 9)), positional=st.booleans(),
                                  change=st.one_of(st.none(), st.tuples(st.sampled_from(["mass", "q", "R"]), grid(0.5, 9, 2)))))
CHECK = Check("O04", [
    Sub("history", st.fixed_dictionaries(dict(bodies=st.lists(SPEC, min_size=1, max_size=6))), test_history, quick=500, thorough=20000,
        rule="families of 1 to 6 bodies with any subset of arguments, changed in place in between; non-trivial: at least two bodies", nontrivial=lambda c: len(c["bodies"]) > 1,
        extra=[dict(bodies=[dict(name="a", mass=None, q=None, R=None, coords=None, parent=None, positional=False, change=["mass", 5.0]),
                            dict(name=None, mass=None, q=None, R=None, coords=None, parent=0, positional=False, change=None)])]),
    Sub("units", st.sampled_from(["mass", "q", "R"]).flatmap(lambda k: st.fixed_dictionaries(dict(
        arg=st.just(k), unit=st.one_of(st.sampled_from(sorted(TAB[k])), st.sampled_from(ALLU)), v=VAL, raw=st.sampled_from([0] * 12 + [1, 2, 3, 4])))), test_units,
        quick=400, thorough=8000, rule="33 units against three arguments; non-trivial: all"),
    Sub("metric", st.fixed_dictionaries(dict(kind=st.sampled_from(["Schwarzschild", "Kerr", "KerrNewman"]), M=logfloat(20, 38), mu=st.sampled_from(["t", "kg"]), a=grid(0, 0.9, 10), Qf=logfloat(-3, 6), r=grid(1.6, 50, 10), th=grid(0.2, 2.9, 10))),
        test_metric, quick=100, thorough=2000, rule="three metrics; non-trivial: all"),
    Sub("predefined", st.fixed_dictionaries(dict(name=st.sampled_from(sorted(OBS)), other=st.sampled_from(sorted(OBS)), mu=st.sampled_from(sorted(MU)), ru=st.sampled_from(sorted(RU)))), test_predefined,
        quick=150, thorough=1000, rule="the eleven bodies against textbook values (1 %) and each other; non-trivial: all",
        known=[("O04-earth-radius", dict(name="Earth", other="Sun", mu="kg", ru="km"))], extra=[dict(name=n, other=o, mu="kg", ru="km") for n in OBS for o in ("Earth", "Neptune") if n != "Earth"]),
], assumptions=["observed masses and radii are textbook values, tolerance 1 %"], quick_scale=5)
