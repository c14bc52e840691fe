"""M01 metrics equal the textbook line element."""
import math
import mpmath as mp
import numpy as np
from harness import Check, Sub, Skip, close, st, grid, logfloat
import bh, textbook as tb

C = tb.C


def both(c):
    rs, al, q2 = bh.lengths(c)
    with mp.workdps(40):
        g = mp.matrix(tb.kn_mp(c["r"], c["th"], rs, al, q2))
        gi = tb.block_inverse(g)
        f = lambda m: np.array([[float(m[i, j]) for j in range(4)] for i in range(4)])
        return f(g), f(gi)


@bh.paired
def test_metric(c):
    kd, ks = bh.horizon_cond(c, c.get("limit", 1e-5))
    g, gi = both(c)
    rs, al, q2 = bh.lengths(c)
    m = bh.metric(c)
    x = bh.xvec(c)
    # rounding: Delta and Sigma are differences; components relative to their largest term
    k = kd * ks
    sc = tb.kn_scale(c["r"], c["th"], rs, al, q2)
    tol = 1e-13 + 2e-15 * k
    got = np.asarray(m.metric_covariant(x))
    assert got.dtype.kind == "f"
    close(got, g, rtol=0, atol=tol * sc, what="g_cov ")
    d = np.sqrt(np.abs(np.diag(gi)))
    sci = np.outer(d, d)
    # t-phi block: entries are (block)/det, det = c^2 Delta sin^2
    det = abs(g[0, 0] * g[3, 3]) + g[0, 3] ** 2
    amp = det / abs(g[0, 0] * g[3, 3] - g[0, 3] ** 2)
    for i, j in ((0, 0), (3, 3), (0, 3), (3, 0)):
        sci[i, j] = sc[3 - i, 3 - j] / abs(g[0, 0] * g[3, 3] - g[0, 3] ** 2)
    got = np.asarray(m.metric_contravariant(x))
    close(got, gi, rtol=0, atol=(100 * tol * amp) * sci, what="g_contra ")
    # does not depend on t and phi
    y = [c["t"] + 7.0, c["r"], c["th"], c["ph"] + 1.0]
    assert np.array_equal(np.asarray(m.metric_covariant(np.array(y))), np.asarray(m.metric_covariant(x)))
    if c.get("near"):
        for f in ("metric_covariant", "metric_contravariant"):
            bh.walk(c, lambda: bh.metric(c), [c["t"], c["r"], c["th"], c["ph"]], lambda o, x: getattr(o, f)(x))
    return [c["kind"], bh.where(c)] + (["walk"] if c.get("near") else []) + bh.whole_event(c, m, ("metric_covariant", "metric_contravariant"))


def test_reduce(c):
    bh.horizon_cond(dict(c, kind="KerrNewman", Q=0.0), 1e-4)
    bh.horizon_cond(dict(c, kind="KerrNewman", a=0.0, Q=0.0), 1e-4)
    x = np.array([c["t"], c["r"], c["th"], c["ph"]])
    kn0 = bh.metric(dict(c, Q=0.0), kind="KerrNewman")
    k = bh.metric(c, kind="Kerr")
    k0 = bh.metric(dict(c, a=0.0), kind="Kerr")
    s = bh.metric(c, kind="Schwarzschild")
    for f in ("metric_covariant", "metric_contravariant"):
        for p, q, w in ((kn0, k, "Q=0"), (k0, s, "a=0")):
            A, B = np.asarray(getattr(p, f)(x)), np.asarray(getattr(q, f)(x))
            d = np.sqrt(np.abs(np.diag(B))) + 1e-300
            close(A, B, rtol=0, atol=1e-9 * np.outer(d, d) * 10, what=f + " " + w)
    # flat limit: tiny mass or far away
    rs = 2 * tb.G * c["M"] / C ** 2
    R = c["far"] * rs
    m = bh.metric(c)
    flat = np.diag([C * C, -1, -R * R, -(R * math.sin(c["th"])) ** 2])
    g = np.asarray(m.metric_covariant([0.0, R, c["th"], 0.0]))
    d = np.sqrt(np.abs(np.diag(flat)))
    close(g, flat, rtol=0, atol=np.outer(d, d) * (20 / c["far"]), what="asymptotically flat ")
    return [c["kind"]]


@st.composite
def red(draw):
    c = draw(bh.hole_events())
    c["far"] = draw(logfloat(2, 10))
    return c


@st.composite
def edge(draw):
    """events next to a horizon, on either side of it"""
    c = draw(bh.hole_events(naked=False))
    rs, al, q2 = bh.lengths(c)
    d = math.sqrt(max(0.0, rs * rs / 4 - al * al - q2))
    rh = rs / 2 + d
    if draw(st.integers(0, 2)) == 0 and rs / 2 - d > 0.05 * rs:
        rh = rs / 2 - d
    c["r"] = rh * (1 + draw(st.sampled_from([1, -1])) * draw(logfloat(-11, -4)))
    c["limit"], c["near"], c["twin"] = 1e-11, None, None
    return c


nt = lambda c: c["kind"] != "Schwarzschild" and c["a"] > 0 and (c["kind"] == "Kerr" or c["Q"] != 0)
CHECK = Check("M01", [
    Sub("textbook", bh.hole_events(), test_metric, 6000, 200000, nontrivial=nt,
        rule="random hole (incl. extremal, naked) and event r = 0.05..1e8 GM/c^2 on every side of the horizons; non-trivial: rotating (and charged for Kerr-Newman)"),
    Sub("next to a horizon", edge(), test_metric, 1500, 50000, nontrivial=nt,
        rule="relative distance 1e-4 to 1e-11 from the outer or inner horizon, on either side; non-trivial as above"),
    Sub("limits", red(), test_reduce, 1500, 50000, nontrivial=nt,
        rule="Q -> 0, a -> 0, r -> infinity limits of random holes; non-trivial as above"),
], assumptions=["|Delta| >= 1e-11 of its terms (coordinate singularity of g_rr)", "theta in [0.01, pi-0.01]"])
