"""G07 geodesic metrics are the inverse textbook metrics."""
import math
import numpy as np
from harness import Check, Sub, Skip, close, st, grid, logfloat
import bh, geo, textbook as tb
from einsteinpy.geodesic import Geodesic

CACHE = {}


def metric_fn(name):
    """the metric function the package uses for `name`, obtained through the public class"""
    if name not in CACHE:
        o = Geodesic(metric=name, metric_params={"Schwarzschild": (), "Kerr": (0.5,), "KerrNewman": (0.5, 0.1)}[name],
                     position=[10.0, 1.5, 0.0], momentum=[0.0, 0.0, 3.0], steps=1, suppress_warnings=True)
        CACHE[name] = o.metric
    return CACHE[name]


@st.composite
def cases(draw):
    m = draw(st.sampled_from(geo.BH))
    a = draw(st.one_of(grid(0, 1, 100), grid(-1, 1, 100), st.sampled_from([0.0, 1.0, 0.9, -1.0]), st.tuples(logfloat(-6, -1), st.sampled_from([1, -1])).map(lambda t: t[0] * t[1])))
    Q = draw(st.one_of(grid(-1, 1, 100), st.sampled_from([0.0, 0.5]), logfloat(-5, -1)))
    return dict(metric=m, a=a, Q=Q, t=draw(grid(-9, 9, 1)), r=draw(st.one_of(grid(0.1, 4, 100), grid(2, 30, 10), logfloat(0.5, 6))),
                th=draw(st.one_of(grid(0.05, 3.1, 100), st.just(math.pi / 2))), ph=draw(grid(-4, 8, 10)), M=draw(logfloat(20, 38)))


def test(c):
    f = metric_fn(c["metric"])
    a, Q = geo.bh_args(c)
    r, th = c["r"], c["th"]
    D, S = r * r - 2 * r + a * a + Q * Q, r * r + (a * math.cos(th)) ** 2
    big = r * r + 2 * r + a * a + Q * Q
    kd, ks = big / abs(D) if D else math.inf, (r * r + a * a) / S
    if kd > 1e5 or ks > 1e4:
        raise Skip("at the horizon")
    x = np.array([c["t"], r, th, c["ph"]], dtype=float)
    got = np.array(f(x, *geo.params(c)), dtype=float)
    want = geo.kn_contra(x, a, Q)
    # error scale: each component from its largest terms
    s2 = math.sin(th) ** 2
    sc = np.abs(want).copy()
    sc[0, 0] = max(sc[0, 0], ((r * r + a * a) ** 2 + big * a * a * s2) / abs(S * D))
    sc[3, 3] = max(sc[3, 3], (big + a * a * s2) / abs(S * D) / s2)
    sc[0, 3] = sc[3, 0] = abs(a) * (2 * r + Q * Q + r * r + a * a) / abs(S * D)
    close(got, want, rtol=0, atol=(1e-12 + 4e-15 * kd * ks / s2) * sc, what="%s contravariant " % c["metric"])
    # independent of t, phi
    y = x + np.array([5.0, 0, 0, 1.0])
    assert np.array_equal(np.array(f(y, *geo.params(c)), dtype=float), got)
    # SI metric classes
    L = tb.G * c["M"] / tb.C ** 2
    kind = c["metric"]
    h = dict(kind=kind, M=c["M"], a=abs(a), Q=Q * bh.q_extremal(c["M"]))       # the SI classes take a >= 0
    if a < 0:
        got = got * np.outer([1, 1, 1, -1], [1, 1, 1, -1])                     # the mirror image
    g = np.asarray(bh.metric(h).metric_covariant([0.0, r * L, th, 0.0]))
    # (t_SI, r_SI) = (L/c, L) (t, r): g_geo = -g_SI scaled by the units
    k = np.array([L / tb.C, L, 1.0, 1.0]) / L
    geo_cov = -g * np.outer(k, k)
    ga = np.abs(geo_cov).copy()
    ga[0, 0] = 1 + (2 * r + Q * Q) / S
    ga[0, 3] = ga[3, 0] = abs(a) * s2 * (2 * r + Q * Q + r * r + a * a) / S
    prod, bound = geo_cov @ got, ga @ sc
    close(prod, np.eye(4), rtol=0, atol=(1e-9 + 1e-13 * kd * ks / s2) * bound, what="SI covariant x geodesic contravariant ")
    return [kind, "spin < 0" if a < 0 else "spin >= 0", "outside" if D > 0 and r > 1 else "inside/between"]


def test_reduce(c):
    x = np.array([c["t"], c["r"], c["th"], c["ph"]], dtype=float)
    r, th = c["r"], c["th"]
    for a, Q in ((c["a"], 0.0), (0.0, 0.0)):
        D = r * r - 2 * r + a * a + Q * Q
        if abs(D) < 1e-3 * r * r:
            raise Skip("at the horizon")
    ev = lambda n, p: np.array(metric_fn(n)(x, *p), dtype=float)
    k = 1e-9 / math.sin(th) ** 2
    for A, B, w in ((ev("KerrNewman", (c["a"], 0.0)), ev("Kerr", (c["a"],)), "Q=0 "), (ev("Kerr", (0.0,)), ev("Schwarzschild", ()), "a=0 ")):
        d = np.sqrt(np.abs(np.diag(B)))
        close(A, B, rtol=k, atol=k * np.outer(d, d), what=w)
    return []


CHECK = Check("G07", [
    Sub("metrics", cases(), test, 6000, 150000, nontrivial=lambda c: c["metric"] != "Schwarzschild" and c["a"] != 0,
        rule="random spin of either sense, charge, event r = 0.1..1e6 on every side of the horizons, against the textbook inverse and the SI classes; non-trivial: rotating"),
    Sub("limits", cases(), test_reduce, 1500, 30000, nontrivial=lambda c: c["a"] != 0, rule="Q = 0 and a = 0 limits; non-trivial: rotating"),
], assumptions=["|Delta| >= 1e-5 of its terms, theta in [0.05, 3.1]"], quick_scale=3)
