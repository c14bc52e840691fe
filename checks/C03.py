"""C03 coordinate objects are independent of units."""
import math
import numpy as np
from astropy import units as u
from harness import Check, Sub, Skip, close, raises, st, grid, logfloat
import charts
from einsteinpy.coordinates import (Cartesian, Spherical, BoyerLindquist, CartesianDifferential,
                                    SphericalDifferential, BoyerLindquistDifferential)
from einsteinpy.metric import BaseMetric
from einsteinpy.units import primitive
from einsteinpy import constant

POS = dict(Cartesian=Cartesian, Spherical=Spherical, BoyerLindquist=BoyerLindquist)
DIF = dict(Cartesian=CartesianDifferential, Spherical=SphericalDifferential, BoyerLindquist=BoyerLindquistDifferential)
U = {  # factors to SI written out, independent of astropy
    "time": {"s": 1.0, "ms": 1e-3, "min": 60.0, "h": 3600.0, "d": 86400.0, "yr": 365.25 * 86400, "us": 1e-6},
    "len": {"m": 1.0, "km": 1e3, "cm": 1e-2, "mm": 1e-3, "AU": 149597870700.0, "lyr": 299792458.0 * 365.25 * 86400,
            "pc": 149597870700.0 * 648000 / math.pi},
    "ang": {"rad": 1.0, "deg": math.pi / 180, "arcmin": math.pi / 10800, "arcsec": math.pi / 648000,
            "hourangle": math.pi / 12, "mrad": 1e-3},
    "vel": {"m / s": 1.0, "km / s": 1e3, "km / h": 1e3 / 3600, "AU / yr": 149597870700.0 / (365.25 * 86400),
            "cm / s": 1e-2, "lyr / yr": 299792458.0},
    "angv": {"rad / s": 1.0, "deg / s": math.pi / 180, "rad / min": 1 / 60, "arcsec / yr": math.pi / 648000 / (365.25 * 86400),
             "deg / h": math.pi / 180 / 3600},
}
KINDS = dict(Cartesian=("time", "len", "len", "len", "vel", "vel", "vel"),
             Spherical=("time", "len", "ang", "ang", "vel", "angv", "angv"),
             BoyerLindquist=("time", "len", "ang", "ang", "vel", "angv", "angv"))
NAMES = dict(Cartesian=("t", "x", "y", "z", "v_x", "v_y", "v_z"),
             Spherical=("t", "r", "theta", "phi", "v_r", "v_th", "v_p"),
             BoyerLindquist=("t", "r", "theta", "phi", "v_r", "v_th", "v_p"))
BAD = ["kg", "K", "A", "C", "m2", "1 / s", "kg m", "s", "m", "m / s", "J", "Hz2"]


@st.composite
def cases(draw):
    system = draw(st.sampled_from(charts.SYSTEMS))
    e = draw(charts.events(axis=False))
    th, ph = draw(charts.directions())
    R = draw(logfloat(3, 12))
    comp = st.one_of(grid(-1, 1, 100), grid(0.1, 1, 100))
    if system == "Cartesian":
        si = [draw(grid(-100, 100, 10))] + [R * (draw(comp) or 0.5) for _ in range(3)] + [draw(comp) * 1e7 for _ in range(3)]
    else:
        si = [draw(grid(-100, 100, 10)), R, th, ph, draw(comp) * 1e7, draw(comp) * 1e7 / R, draw(comp) * 1e7 / R]
    un = [draw(st.sampled_from(sorted(U[k]))) for k in KINDS[system]]
    return dict(sys=system, si=si, units=un, M=draw(logfloat(20, 33)), a=draw(grid(0, 1, 100)),
                bad=draw(st.integers(0, 6)), badunit=draw(st.sampled_from(BAD)))


def quantities(c, si_units=False):
    out = []
    for v, k, n in zip(c["si"], KINDS[c["sys"]], c["units"]):
        if si_units:
            n = [m for m, f in U[k].items() if f == 1.0][0]
        out.append((v / U[k][n]) * u.Unit(n))
    return out


def si_close(got, want, what, rtol=1e-12):
    close(got, want, rtol=rtol, what=what)


def test_same(c):
    q, s = quantities(c), quantities(c, True)
    P, D = POS[c["sys"]], DIF[c["sys"]]
    p, d = P(*q[:4]), D(*q)
    ref, dref = P(*s[:4]), D(*s)
    want = [constant.c.value * c["si"][0]] + c["si"][1:4]
    for o in (p, d):
        assert o.system == c["sys"]
        si_close(o.position(), want, "position()")
        for n, x in zip(NAMES[c["sys"]], q):
            if hasattr(o, n):
                y = getattr(o, n)
                assert y.unit == x.unit and y.value == x.value, (n, y, x)
    si_close(p.values(), c["si"][:4], "values()")
    si_close(d.values(), c["si"], "values() with velocity")
    for n in NAMES[c["sys"]]:
        assert hasattr(d, n), n
    # item access of position objects: by name, by index (python and numpy ints)
    for i, n in enumerate(NAMES[c["sys"]][:4]):
        for key in (n, i, np.int64(i), np.int32(i)):
            y = p[key]
            assert y.unit == q[i].unit and y.value == q[i].value, (key, y)
    assert p["system"] == c["sys"]
    # conversions are those of the SI object
    kw = dict(M=c["M"], a=c["a"])
    al = c["a"] * charts.K * c["M"]
    xyz = charts.embed(c["sys"], c["si"][1:4], al)
    tol = 1e-10 + 1e-14 * charts.cond(c["sys"], xyz, al) ** 1.5 * np.linalg.norm(xyz) / max(math.hypot(*xyz[:2]), 1e-300)
    if tol < 1e-6:
        for tgt, m, dm in (("Cartesian", "to_cartesian", "cartesian_differential"), ("Spherical", "to_spherical", "spherical_differential"),
                           ("BoyerLindquist", "to_bl", "bl_differential")):
            if tgt == c["sys"]:
                continue
            a, b = getattr(p, m)(**kw), getattr(ref, m)(**kw)
            tb = b.values()
            sc = np.array([1, 1, 1, 1.0]) if tgt != "Cartesian" else np.array([1] + [np.linalg.norm(xyz)] * 3)
            close(a.values(), tb, rtol=tol * 10, atol=0, scale=sc, what="conversion to " + tgt)
            for n, un in zip(NAMES[tgt], (u.s, u.m) + ((u.m, u.m) if tgt == "Cartesian" else (u.rad, u.rad))):
                assert a[n].unit == un, (n, a[n].unit)
            a, b = getattr(d, dm)(**kw), getattr(dref, dm)(**kw)
            V = 2e7 if tgt == "Cartesian" else 2e7
            ab, bb = np.array(a.values()), np.array(b.values())
            J = charts.jac(tgt, bb[1:4], al)
            close(J @ ab[4:], J @ bb[4:], rtol=0, atol=tol * 1e3 * V, what="velocity conversion to " + tgt)
            close(ab[:4], bb[:4], rtol=tol * 10, scale=sc, what="conversion with velocity to " + tgt)
    # velocity 4-vector: SI spatial components
    flat = (lambda x: np.diag([constant.c.value ** 2, -1.0, -1.0, -1.0])) if c["sys"] == "Cartesian" else \
        (lambda x: np.diag([constant.c.value ** 2, -1.0, -x[1] ** 2, -(x[1] * math.sin(x[2])) ** 2]))
    g = BaseMetric(coords=dref, M=1 * u.kg, metric_cov=flat)
    v, vr = d.velocity(g), dref.velocity(g)
    si_close([float(x) for x in v[1:]], c["si"][4:], "velocity() spatial part")
    si_close(float(v[0]), float(vr[0]), "velocity() time part")
    si_close(d.v_t.to_value(u.m / u.s), float(vr[0]), "v_t")
    return [c["sys"], "deg" if any(n != m for n, m in zip(c["units"], ("s", "m"))) else "SI"]


def test_bad(c):
    q = quantities(c)
    i = c["bad"]
    bad = c["si"][i] * u.Unit(c["badunit"])
    k = KINDS[c["sys"]][i]
    if bad.unit.is_equivalent(q[i].unit):
        return ["trivial"]
    if {k} & {"ang", "angv"} and bad.unit.is_equivalent(q[i].unit, equivalencies=u.dimensionless_angles()):
        return ["trivial"]
    q[i] = bad
    raises((u.UnitsError, TypeError), DIF[c["sys"]], *q)
    if i < 4:
        raises((u.UnitsError, TypeError), POS[c["sys"]], *q[:4])
    return [c["sys"], "component %d" % i]


prim_items = st.lists(st.one_of(
    st.tuples(st.sampled_from(["time", "len", "ang", "vel", "angv"]), st.integers(0, 20), grid(-1000, 1000, 7)).map(list),
    st.one_of(grid(-10, 10), st.integers(-5, 5)).map(lambda v: ["raw", 0, v]),
    st.lists(grid(-10, 10), min_size=1, max_size=3).map(lambda v: ["array", 0, v])), min_size=0, max_size=6)


def test_primitive(c):
    args, want = [], []
    for kind, i, v in c:
        if kind == "raw":
            args.append(v), want.append(v)
        elif kind == "array":
            args.append(np.array(v) * u.km), want.append(np.array(v) * 1e3)
        else:
            n = sorted(U[kind])[i % len(U[kind])]
            args.append(v * u.Unit(n)), want.append(v * U[kind][n])
    r = primitive(*args)
    assert len(r) == len(want)
    for x, y, (k, _, _) in zip(r, want, c):
        assert not isinstance(x, u.Quantity), x
        close(x, y, rtol=1e-13, what="primitive " + k)
    return ["n=%d" % len(c)]


def setup():
    c = dict(sys="Cartesian", si=[1.] * 7, units=["s"] + ["m"] * 3 + ["m / s"] * 3, M=1e30, a=.5)
    test_same(c)
    test_same(dict(sys="Spherical", si=[1.] * 7, units=["s", "m", "rad", "rad", "m / s", "rad / s", "rad / s"], M=1e30, a=.5))
    test_same(dict(sys="BoyerLindquist", si=[1.] * 7, units=["s", "m", "rad", "rad", "m / s", "rad / s", "rad / s"], M=1e30, a=.5))


CHECK = Check("C03", [
    Sub("same-quantity", cases(), test_same, 1600, 40000,
        rule="object built in random compatible units vs SI; non-trivial: at least one unit is not SI",
        nontrivial=lambda c: any(U[k][n] != 1.0 for k, n in zip(KINDS[c["sys"]], c["units"]))),
    Sub("bad-units", cases(), test_bad, 1600, 20000, rule="one component in an incompatible unit; non-trivial: unit really incompatible",),
    Sub("primitive", prim_items, test_primitive, 2000, 20000, rule="list of quantities and plain numbers; non-trivial: at least two items",
        nontrivial=lambda c: len(c) > 1),
], setup=setup, assumptions=["unit factors are written out in the check, astropy is used only to attach units"], quick_scale=2)
