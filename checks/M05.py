"""M05 singularities and surfaces."""
import math
import numpy as np
from astropy import units as u
from harness import Check, Sub, Skip, close, raises, st, grid, logfloat
import bh, textbook as tb
from einsteinpy.metric import Schwarzschild, Kerr, KerrNewman, BaseMetric
from einsteinpy.utils import CoordinateError


@st.composite
def cases(draw):
    c = draw(bh.holes(naked=False))
    c["twin"] = draw(st.sampled_from([None, None, "M", "a", "Q", "kind"]))
    c["ths"] = [draw(grid(0, 3.14, 100)) for _ in range(3)] + [draw(grid(-7, 7, 100))] + [0.0, math.pi / 2]
    c["np"] = draw(st.booleans())
    return c


def val(s, n, th):
    v = s[n]
    return float(v(th)) if callable(v) else float(v)


@bh.paired
def test_surfaces(c):
    rs, al, q2 = bh.lengths(c)
    m = bh.metric(c)
    s = m.singularities()
    assert set(s) == {"inner_ergosphere", "inner_horizon", "outer_horizon", "outer_ergosphere"}, sorted(s)
    if c["kind"] == "Schwarzschild":
        assert val(s, "inner_horizon", 0) == 0 and val(s, "inner_ergosphere", 0) == 0
        close(val(s, "outer_horizon", 0), rs, rtol=1e-14, what="outer horizon")
        close(val(s, "outer_ergosphere", 0), rs, rtol=1e-14, what="outer ergosphere")
        return [c["kind"]]
    k = rs / 2
    # well conditioned form of the roots (sqrt loses half the digits near extremality)
    D = k * k - al * al - q2
    if D < -1e-9 * k * k:
        raise Skip("naked singularity")
    D = max(D, 0.0)
    tol = 1e-14 * k + min(1e-15 * k * k / math.sqrt(D) if D else math.inf, 1e-7 * k)
    rp, rm = val(s, "outer_horizon", 0), val(s, "inner_horizon", 0)
    if math.isnan(rp) and D < 1e-12 * k * k:
        raise Skip("extremal, rounding of the discriminant")
    close(rp, k + math.sqrt(D), rtol=0, atol=4 * tol, what="outer horizon")
    close(rm, k - math.sqrt(D), rtol=0, atol=4 * tol, what="inner horizon")
    for th in c["ths"] if not c["np"] else [np.array(c["ths"])]:
        E = k * k - (al * np.cos(th)) ** 2 - q2
        E = np.maximum(E, 0)
        ro, ri = (np.asarray(s[n](th), dtype=float) for n in ("outer_ergosphere", "inner_ergosphere"))
        if np.isnan(ro).any() and D < 1e-12 * k * k:
            raise Skip("extremal, rounding of the discriminant")
        te = 1e-14 * k + np.minimum(1e-15 * k * k / np.sqrt(np.maximum(E, 1e-300)), 1e-7 * k)
        close(ro, k + np.sqrt(E), rtol=0, atol=4 * te, what="outer ergosphere")
        close(ri, k - np.sqrt(E), rtol=0, atol=4 * te, what="inner ergosphere")
        assert np.all(ri <= rm + tol) and rm <= rp and np.all(rp <= ro + tol), (ri, rm, rp, ro)
    # the metric itself: g_tt changes sign on the ergosphere, Delta (g^rr) on the horizon
    eps = 1e-3
    for th in c["ths"][:3]:
        ro = val(s, "outer_ergosphere", th)
        hi, lo = (np.asarray(m.metric_covariant([0.0, ro * f, th, 0.0]))[0, 0] for f in (1 + eps, 1 - eps))
        assert hi > 0, "g_tt outside the outer ergosphere"
        gap = math.sqrt(max(k * k - (al * math.cos(th)) ** 2 - q2, 0)) / k
        if gap > 10 * eps:
            assert lo < 0, "g_tt inside the outer ergosphere"
            ri = val(s, "inner_ergosphere", th)
            if ri > 0.01 * k and abs(math.cos(th)) * al + math.sqrt(q2) > 0.1 * k:
                a1, a2 = (np.asarray(m.metric_covariant([0.0, ri * f, th, 0.0]))[0, 0] for f in (1 - eps, 1 + eps))
                assert a1 > 0 > a2, "g_tt at the inner ergosphere"
        th = min(max(th, 0.05), 3.1)
        if math.sqrt(D) > 10 * eps * k:
            for r0, sg in ((rp, 1), (rm, -1)):
                if r0 < 0.01 * k:
                    continue
                o, i = (np.asarray(m.metric_covariant([0.0, r0 * (1 + sg * e), th, 0.0]))[1, 1] for e in (eps, -eps))
                assert o < 0 < i, ("g_rr at a horizon", r0, o, i)
    return [c["kind"], "extremal" if D < 1e-6 * k * k else "sub-extremal"]


def test_limits(c):
    th = c["ths"][0]
    kn, k = (bh.metric(dict(c, Q=0.0), kind=n).singularities() for n in ("KerrNewman", "Kerr"))
    k0, s = bh.metric(dict(c, a=0.0), kind="Kerr").singularities(), bh.metric(c, kind="Schwarzschild").singularities()
    rs = tb.geom(c["M"], 0, 0)[0]
    for n in kn:
        close(val(kn, n, th), val(k, n, th), rtol=1e-12, atol=1e-15 * rs, what="Q=0 " + n)
        close(val(k0, n, th), val(s, n, th), rtol=1e-12, atol=1e-15 * rs, what="a=0 " + n)
    return [c["kind"]]


@st.composite
def charts_(draw):
    return dict(kind=draw(st.sampled_from(["Schwarzschild", "Kerr", "KerrNewman"])),
                sys=draw(st.sampled_from(["Cartesian", "Spherical", "BoyerLindquist"])), diff=draw(st.booleans()),
                M=draw(logfloat(0, 30)), a=draw(grid(0, 1, 10)), Q=draw(grid(0, 5, 10)))


def test_chart(c):
    m = bh.metric(c, bh.coords(c["sys"], (10.0, 1.0, 1.0), diff=c["diff"]))
    if c["sys"] == bh.CHART[c["kind"]]:
        assert len(m.singularities()) == 4
        return ["supported"]
    raises(CoordinateError, m.singularities)
    return ["refused"]


CHECK = Check("M05", [
    Sub("surfaces", cases(), test_surfaces, 3500, 80000, nontrivial=lambda c: c["kind"] != "Schwarzschild" and c["a"] > 0,
        rule="random hole up to extremality and polar angles (scalars or arrays): closed-form roots and sign changes of g_tt, g_rr of the metric itself; non-trivial: rotating"),
    Sub("limits", cases(), test_limits, 1500, 20000, nontrivial=lambda c: c["a"] > 0, rule="Q = 0 and a = 0 limits; non-trivial: rotating"),
    Sub("charts", charts_(), test_chart, 600, 4000, nontrivial=lambda c: c["sys"] != bh.CHART[c["kind"]], rule="hole x chart; non-trivial: unsupported chart"),
], assumptions=["sub-extremal and extremal holes (a^2 + q^2 <= 1); next to extremality the square root limits the accuracy to 1e-7"], quick_scale=4)
