"""C04 4-velocities are normalised."""
import math
import numpy as np
from astropy import units as u
from harness import Check, Sub, Skip, close, raises, st, grid, logfloat
import bh, textbook as tb
from einsteinpy.coordinates.utils import v0, lorentz_factor
from einsteinpy.metric import BaseMetric
from einsteinpy.utils import CoordinateError

C = tb.C


@st.composite
def matrices(draw):
    """metric g = A (dt + b.dx)^2 - dx^T S dx in arbitrary units, S positive definite"""
    A = draw(st.one_of(grid(0.05, 3, 100), logfloat(0, 17)))
    L = [[0.0] * 3 for _ in range(3)]
    full = draw(st.booleans())
    for i in range(3):
        L[i][i] = draw(grid(0.2, 3, 10))
        for j in range(i):
            L[i][j] = draw(grid(-1, 1, 10)) if full else 0.0
    b = [draw(grid(-1, 1, 10)) for _ in range(3)]
    v = [draw(grid(-1, 1, 100)) for _ in range(3)]
    sp = draw(logfloat(0, 9)) if draw(st.integers(0, 15)) else 0.0
    return dict(A=A, L=L, b=b, v=[sp * x for x in v], lens=draw(st.sampled_from([1.0, 1e3, 1e6])))


def test_v0(c):
    A = c["A"]
    L = np.array(c["L"])
    S = L @ L.T
    b = np.array(c["b"]) / math.sqrt(A)
    g = np.zeros((4, 4))
    g[0, 0] = A
    g[0, 1:] = g[1:, 0] = A * b
    g[1:, 1:] = A * np.outer(b, b) - S
    v = np.array(c["v"])
    ut = v0(g, *c["v"])
    # exact: A (ut + b.v)^2 = C^2 + v S v
    w = C * C + v @ S @ v
    root = math.sqrt(w / A)
    close(ut, root - b @ v, rtol=1e-13, atol=1e-12 * (root + np.abs(b) @ np.abs(v)), what="u^t")
    uu = np.array([ut, *c["v"]])
    sc = np.abs(uu) @ np.abs(g) @ np.abs(uu)
    close(uu @ g @ uu, C * C, rtol=0, atol=1e-12 * sc, what="g(u,u)")
    nc = sum(1 for x in c["b"] if x)
    return (["moving"] if v.any() else ["trivial"]) + ["%d time cross terms" % nc]


@st.composite
def hole_vel(draw):
    c = draw(bh.hole_events(naked=False, outside=draw(st.integers(0, 3)) > 0))
    n = [draw(grid(-1, 1, 100)) for _ in range(3)]
    b = draw(st.sampled_from([1e-6, 1e-3, 0.1, 0.5, 2.0]))
    c["v"] = [n[0] * b * C, n[1] * b * C / c["r"], n[2] * b * C / c["r"]]
    return c


def test_holes(c):
    bh.horizon_cond(c, 1e-4)
    w = bh.where(c)
    if w not in ("outside", "naked"):
        raise Skip("inside the ergosphere")
    rs, al, q2 = bh.lengths(c)
    g = np.array(tb.kn_cov(c["r"], c["th"], rs, al, q2))
    if not g[0, 0] > 1e-4 * C * C:
        raise Skip("at the ergosphere")
    o = bh.coords(bh.CHART[c["kind"]], (c["r"], c["th"], c["ph"]), c["v"], c["t"])
    m = bh.metric(c, o)
    got = o.velocity(m)
    assert len(got) == 4
    close(got[1:], c["v"], rtol=1e-14, what="spatial velocity")
    uu = np.array(got, dtype=float)
    sc = np.abs(uu) @ np.abs(g) @ np.abs(uu)
    close(uu @ g @ uu, C * C, rtol=0, atol=1e-9 * sc, what="g(u,u) with the textbook metric")
    assert uu[0] > 0, uu
    # v_t property is the same number and setting it directly does the same
    assert o.v_t.value == got[0], (o.v_t, got[0])
    o2 = bh.coords(bh.CHART[c["kind"]], (c["r"], c["th"], c["ph"]), c["v"], c["t"])
    assert o2.v_t is None
    o2.v_t = (m,)
    assert o2.v_t.value == got[0]
    # a second call (other hole) is not influenced by the first
    c2 = dict(c, M=c["M"] * 0.5, a=0.0, Q=0.0)
    rs2 = rs * 0.5
    if c["r"] > 1.001 * rs2:
        got2 = np.array(o.velocity(bh.metric(c2, o)), dtype=float)
        g2 = np.array(tb.kn_cov(c["r"], c["th"], rs2, 0.0, 0.0))
        close(got2 @ g2 @ got2, C * C, rtol=0, atol=1e-9 * (np.abs(got2) @ np.abs(g2) @ np.abs(got2)), what="second metric")
        assert o.v_t.value == got2[0]
    return [c["kind"], w]


@st.composite
def speeds(draw):
    b = draw(st.one_of(grid(0, 0.999, 1000), st.sampled_from([0.0, 0.5, 0.99, 0.999999, 1e-4])))
    th, ph = draw(grid(0, 3.14, 10)), draw(grid(-3.1, 3.1, 10))
    return dict(beta=b, th=th, ph=ph)


def test_gamma(c):
    b = c["beta"]
    v = C * b * np.array([math.sin(c["th"]) * math.cos(c["ph"]), math.sin(c["th"]) * math.sin(c["ph"]), math.cos(c["th"])])
    close(lorentz_factor(*v), 1 / math.sqrt((1 - b) * (1 + b)), rtol=1e-9 if b > 0.9999 else 1e-12, what="lorentz factor")
    return [] if b else ["trivial"]


@st.composite
def pairs(draw):
    return dict(mine=draw(st.sampled_from(["Cartesian", "Spherical", "BoyerLindquist"])),
                other=draw(st.sampled_from(["Cartesian", "Spherical", "BoyerLindquist"])),
                builtin=draw(st.booleans()), diff=draw(st.booleans()), r=draw(grid(20, 100, 1)), M=draw(logfloat(3, 20)),
                v=draw(grid(0, 100, 1)), setter=draw(st.booleans()))


def test_chart(c):
    mine = bh.coords(c["mine"], (c["r"], 1.0, 1.0), (c["v"], 0.0, 0.0))
    mc = bh.coords(c["other"], (5.0, 1.0, 1.0), diff=c["diff"])
    if c["builtin"] and c["other"] != "Cartesian":
        kind = dict(Spherical="Schwarzschild", BoyerLindquist="KerrNewman")[c["other"]]
        m = bh.metric(dict(kind=kind, M=c["M"], a=0.5, Q=0.0), mc)
    else:
        m = BaseMetric(coords=mc, M=c["M"] * u.kg, metric_cov=lambda x: np.diag([C * C, -1.0, -1.0, -1.0]))

    def go():
        if c["setter"]:
            mine.v_t = (m,)
            return mine.v_t
        return mine.velocity(m)
    if c["mine"] == c["other"]:
        v = go()
        v = float(v.value) if c["setter"] else float(v[0])
        if c["mine"] == "Cartesian" or not c["builtin"]:
            close(v, math.sqrt(1 + c["v"] ** 2 / C ** 2), rtol=1e-12, what="flat v_t")
        assert v > 0
    else:
        raises(CoordinateError, go)
        assert mine.v_t is None
    return ["match" if c["mine"] == c["other"] else "mismatch", c["mine"] + "/" + c["other"]]


CHECK = Check("C04", [
    Sub("v0", matrices(), test_v0, 16000, 600000, nontrivial=lambda c: sum(1 for x in c["b"] if x) >= 2 and any(c["v"]),
        rule="random Lorentzian 4x4 metric with A = g_tt > 0 and all cross terms, random 3-velocity; non-trivial: >= 2 time cross terms and moving"),
    Sub("holes", hole_vel(), test_holes, 3000, 80000, nontrivial=lambda c: any(c["v"]),
        rule="Schwarzschild/Kerr/Kerr-Newman event outside the ergosphere with random velocity; non-trivial: moving"),
    Sub("gamma", speeds(), test_gamma, 4000, 60000, nontrivial=lambda c: c["beta"] > 0,
        rule="speed 0 <= beta < 1 in a random direction; non-trivial: moving"),
    Sub("charts", pairs(), test_chart, 1200, 20000, nontrivial=lambda c: c["mine"] != c["other"],
        rule="velocity chart x metric chart, built-in or user metric; non-trivial: different charts"),
], assumptions=["v^i are components dx^i/dtau as documented (g(u,u) = c^2)", "within 1e-4 of horizon or ergosphere excluded"], quick_scale=2)
