"""Black hole cases (SI metric classes) and constructors."""
import math
import numpy as np
import harness
from astropy import units as u
from hypothesis import strategies as st
from harness import grid, logfloat, Skip
import textbook as tb
from einsteinpy.coordinates import (Cartesian, CartesianDifferential, Spherical, SphericalDifferential,
                                    BoyerLindquist, BoyerLindquistDifferential)
from einsteinpy.metric import Schwarzschild, Kerr, KerrNewman

KINDS = ("Schwarzschild", "Kerr", "KerrNewman")
CHART = dict(Schwarzschild="Spherical", Kerr="BoyerLindquist", KerrNewman="BoyerLindquist")
DIF = dict(Cartesian=CartesianDifferential, Spherical=SphericalDifferential, BoyerLindquist=BoyerLindquistDifferential)
POS = dict(Cartesian=Cartesian, Spherical=Spherical, BoyerLindquist=BoyerLindquist)


def coords(system, q=(1.0, 1.0, 1.0), v=(0.0, 0.0, 0.0), t=0.0, diff=True):
    if system == "Cartesian":
        un = (u.s, u.m, u.m, u.m) + (u.m / u.s,) * 3
    else:
        un = (u.s, u.m, u.rad, u.rad, u.m / u.s, u.rad / u.s, u.rad / u.s)
    vals = [t] + list(q) + (list(v) if diff else [])
    cls = (DIF if diff else POS)[system]
    return cls(*[x * n for x, n in zip(vals, un)])


def metric(c, cs=None, kind=None):
    kind = kind or c["kind"]
    cs = cs if cs is not None else coords(CHART[kind])
    M = c["M"] * u.kg
    if kind == "Schwarzschild":
        return Schwarzschild(coords=cs, M=M)
    if kind == "Kerr":
        return Kerr(coords=cs, M=M, a=c["a"] * u.one)
    return KerrNewman(coords=cs, M=M, a=c["a"] * u.one, Q=c["Q"] * u.C, q=c.get("qs", 0.0) * u.C / u.kg)


def spin(c):
    return 0.0 if c["kind"] == "Schwarzschild" else c["a"]


def charge(c):
    return c["Q"] if c["kind"] == "KerrNewman" else 0.0


def lengths(c):
    return tb.geom(c["M"], spin(c), charge(c))


def q_extremal(M):
    """charge with r_Q = GM/c^2"""
    return M * math.sqrt(tb.G / tb.KC)


angles = st.one_of(grid(0.02, 3.12, 100), st.sampled_from([math.pi / 2, math.pi / 4, 3 * math.pi / 4, 0.01, math.pi - 0.01]))


@st.composite
def holes(draw, kinds=KINDS, naked=True):
    kind = draw(st.sampled_from(kinds))
    M = draw(logfloat(3, 40))
    a = draw(st.one_of(grid(0, 1, 100), st.sampled_from([0.0, 1.0, 0.9, 0.5]), logfloat(-6, -1)))
    lim = math.sqrt(max(0.0, 1 - a * a))
    f = draw(st.one_of(grid(-1, 1, 100), st.one_of(st.sampled_from([0.0, 0.5, -0.5]), logfloat(-5, -1)) if not naked else grid(-1.5, 1.5, 100)))
    if not naked:
        f *= lim
    elif draw(st.booleans()):
        f *= lim
    return dict(kind=kind, M=M, a=a, Q=float("%.12g" % (f * q_extremal(M))))


@st.composite
def hole_events(draw, kinds=KINDS, naked=True, rmin=0.05, outside=False):
    c = draw(holes(kinds, naked))
    k = tb.G * c["M"] / tb.C ** 2
    rho = draw(st.one_of(grid(0.05, 3, 100), grid(1, 20, 20), logfloat(0.3, 8)))
    if outside:
        rho = 2.001 + rho
    c["th"] = draw(angles)
    rs, al, q2 = lengths(c)
    if not outside and al and rs * rs / 4 > al * al + q2 and draw(st.integers(0, 5)) == 0:
        rp = rs / 2 + math.sqrt(rs * rs / 4 - al * al - q2)          # ergoregion
        re = rs / 2 + math.sqrt(rs * rs / 4 - (al * math.cos(c["th"])) ** 2 - q2)
        rho = (rp + draw(grid(0.05, 0.95, 20)) * (re - rp)) / k
    c["r"] = float("%.9g" % (max(rmin, rho) * k))
    c["ph"] = draw(st.one_of(grid(-3.2, 6.4, 10), grid(-3.2, 6.4, 10), st.sampled_from([25.5, -40.25, 1e4])))
    c["t"] = draw(st.sampled_from([0.0, 1.0, -250.0, 1e9, 1e-3, -1e6, 31.0]))
    c["as"] = draw(st.sampled_from(["array", "list", "tuple"]))
    c["twin"] = draw(st.sampled_from([None] * 12 + ["M", "a", "Q", "r", "th"] + ["kind"] * (len(kinds) > 1)))
    c["near"] = draw(nearby()) if draw(st.integers(0, 2)) == 0 else None
    return c


def xvec(c):
    x = [c["t"], c["r"], c["th"], c["ph"]]
    return {"array": np.array, "list": list, "tuple": tuple}[c["as"]](x)


def horizon_cond(c, limit=1e-5):
    """relative distance |Delta|/(r^2+...) and |Sigma|; Skip next to the coordinate singularities"""
    rs, al, q2 = lengths(c)
    r = c["r"]
    big = r * r + rs * r + al * al + q2
    x = abs(r * r - rs * r + al * al + q2) / big
    if x < limit:
        raise Skip("within %g of a horizon" % limit)
    sig = (r * r + al * al * math.cos(c["th"]) ** 2) / (r * r + al * al)
    return 1 / x, 1 / sig


def where(c):
    rs, al, q2 = lengths(c)
    d = rs * rs / 4 - al * al - q2
    if d < 0:
        return "naked"
    r, s = c["r"], math.sqrt(d)
    rp, rm = rs / 2 + s, rs / 2 - s
    e = rs * rs / 4 - al * al * math.cos(c["th"]) ** 2 - q2
    re = rs / 2 + math.sqrt(max(e, 0))
    if r > re:
        return "outside"
    return "ergoregion" if r > rp else "between horizons" if r > rm else "inside"


def twin(c):
    """a hole or event that differs from that of c in one respect"""
    k, d = c["twin"], dict(c)
    if k == "M":
        d["M"] = c["M"] * 2
    elif k == "a":
        d["a"] = 0.5 if c["a"] != 0.5 else 0.25
    elif k == "Q":
        d["Q"] = 0.4 * q_extremal(c["M"]) if c["Q"] <= 0 else -0.5 * c["Q"]
    elif k == "r":
        d["r"] = c["r"] * 1.25
    elif k == "th":
        d["th"] = math.pi - c["th"] if abs(c["th"] - math.pi / 2) > 0.01 else 1.0
    elif k == "kind":
        d["kind"] = "Kerr" if c["kind"] == "KerrNewman" else "KerrNewman"
    return d


paired = harness.paired(twin)


@st.composite
def nearby(draw):
    """a short walk of events, each a little (relative step) off the one before: [coordinate, relative step]"""
    return [[draw(st.sampled_from([1, 1, 1, 2, 2, 0, 3])), draw(st.sampled_from([1e-6, -1e-6, 1e-5, 1e-8, -1e-3, 1e-12, 0.0, 1e-4]))]
            for _ in range(draw(st.integers(1, 3)))]


def walk(c, make, start, ask):
    """the same metric object asked at one event after the other gives what a new object gives there"""
    m = make()
    x = np.array(start, dtype=float)
    with np.errstate(all="ignore"):
        ask(m, x.copy())
        for k, e in c["near"]:
            x[k] += e * (abs(x[k]) or 1.0)
            got, want = np.asarray(ask(m, x.copy())), np.asarray(ask(make(), x.copy()))
            assert got.shape == want.shape and np.allclose(got, want, rtol=1e-13, atol=0, equal_nan=True), \
                "asked at an event close to the last one: %s, a new metric gives %s" % (got.tolist(), want.tolist())


def whole_event(c, m, names):
    """an event of whole numbers is the same event as 64-bit integers, Python integers and as floats"""
    x = [int(math.ceil(c["t"])), int(math.ceil(c["r"])), 1 + int(c["th"] > math.pi / 2), int(round(c["ph"]))]
    if not x[1] < 2 ** 53:
        return []
    with np.errstate(all="ignore"):
        for n in names:
            f = getattr(m, n)
            want = np.asarray(f(np.array(x, dtype=float)))
            if not np.isfinite(want).all():
                continue
            for form, y in (("64-bit integers", np.array(x, dtype=np.int64)), ("integers", x)):
                got = np.asarray(f(y))
                assert got.shape == want.shape and np.allclose(got, want, rtol=1e-11, atol=0), "%s of the event %s as %s: %s, as floats %s" % (n, x, form, got.tolist(), want.tolist())
    return ["integer event"]
