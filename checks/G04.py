"""G04 symplectic, reversible, symmetric integration (public stepping interface only)."""
import math
import warnings
import numpy as np
from harness import Check, Sub, Skip, close, st, grid
import geo
from checks.G07 import metric_fn
from einsteinpy.integrators import GeodesicIntegrator


def metric_of(c):
    if c["metric"] == "user":
        return geo.user_metric(c["prm"]), tuple(c["uprm"])
    return metric_fn(c["metric"]), geo.params(c)


def start(c):
    G, q, g, A, B, C, D = geo.usable(c)
    s = math.sqrt(D)
    pt = (-B + s) / A if B <= 0 else C / (-B - s)
    return q, np.array([pt] + list(c["mom"]))


def integ(c, q, p):
    f, prm = metric_of(c)
    return GeodesicIntegrator(metric=f, metric_params=prm, q0=np.array(q, dtype=float), p0=np.array(p, dtype=float), time_like=c["tl"],
                              delta=c["delta"], order=c["order"], omega=c["omega"], **(dict(rtol=c["tol"], atol=c["tol"]) if c["warn"] else dict(suppress_warnings=True)))


def advance(o, n):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(n):
            o.step()


def flow(c, q, p, steps=None):
    o = integ(c, q, p)
    advance(o, steps or c["steps"])
    z = np.array(o.results[-1], dtype=float)
    if not (np.isfinite(z).all() and np.abs(z).max() < 1e4):
        raise Skip("the orbit leaves the regular region")
    return o, z


def omega2(a, b):
    """symplectic form of the doubled phase space, rows q1, p1, q2, p2"""
    return a[0] @ b[1] - a[1] @ b[0] + a[2] @ b[3] - a[3] @ b[2]


def tangent(c, q, p, u):
    """4th order central difference of the map in direction u, with its own error estimate"""
    def diff(h):
        f = lambda k: flow(c, q + k * h * u[:4], p + k * h * u[4:])[1]
        return (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)
    h = c["h"]
    a, b = diff(h), diff(h / 2)
    return b, np.abs(a - b).max()


def test_symplectic(c):
    q, p = start(c)
    u, v = np.array(c["u"]), np.array(c["v"])
    if c["metric"] != "user":
        sc = np.array([1, 1, 0.2, 1, 1, 1, 1, 1])
        u, v = u * sc, v * sc
    du, eu = tangent(c, q, p, u)
    dv, ev = tangent(c, q, p, v)
    nu, nv = np.abs(du).max() + np.abs(u).max(), np.abs(dv).max() + np.abs(v).max()
    err = 16 * (eu * nv + ev * nu) + 1e-10 * nu * nv
    if err > 1e-4:
        raise Skip("too non-linear to differentiate")
    want = 2 * (u[:4] @ v[4:] - u[4:] @ v[:4])
    got = omega2(du, dv)
    assert abs(got - want) <= err, "symplectic form %r, expected %r (bound %g)" % (got, want, err)
    return [c["metric"], "order %d" % c["order"], "steps %d" % c["steps"]]


def test_reverse(c):
    q, p = start(c)
    o, z = flow(c, q, p)
    z0 = np.array([q, p, q, p])
    # sensitivity of the orbit
    d = 1e-7 * np.array(c["u"])
    K = max(1.0, np.abs(flow(c, q + d[:4], p + d[4:])[1] - z).max() / 1e-7)
    if K > 1e4:
        raise Skip("sensitive orbit")
    o.delta = -o.delta
    advance(o, c["steps"])
    back = np.array(o.results[-1], dtype=float)
    assert np.isfinite(back).all(), "backward steps diverge: %r" % back
    tol = 1e-12 * K * K * 3 ** (c["order"] // 2) * (1 + np.abs(z).max() + np.abs(z0).max()) ** 2
    if tol > 1e-5:
        raise Skip("sensitive orbit")
    e = np.abs(back - z0).max()
    assert e <= tol, "forward and back misses the start by %g (bound %g)" % (e, tol)
    return [c["metric"], "order %d" % c["order"], "moved %s" % (np.abs(z - z0).max() > 0.1)]


def cyclic(c):
    if c["metric"] != "user":
        return [0, 3]
    return [k for k in range(4) if all(b[1 + k] == 0 or b[0] == 0 for b in c["prm"])]


def test_symmetry(c):
    cyc = cyclic(c)
    if not cyc:
        raise Skip("no symmetry")
    q, p = start(c)
    o, z = flow(c, q, p)
    R = np.array(o.results, dtype=float)
    sc = 1 + np.abs(R).max()
    labels = [c["metric"], "order %d" % c["order"], "%d cyclic" % len(cyc)]
    for k in cyc:
        drift = np.abs(R[:, 1, k] + R[:, 3, k] - 2 * p[k]).max()
        # rounding of the mixing with the coordinates' difference only
        tol = 1e-13 * len(R) * 3 ** (c["order"] // 2) * sc * (1 + abs(c["omega"]))
        assert drift <= tol, "p_%d of a cyclic coordinate drifts by %g (bound %g)" % (k, drift, tol)
    d = 1e-7 * np.array(c["u"])
    K = max(1.0, np.abs(flow(c, q + d[:4], p + d[4:])[1] - z).max() / 1e-7)
    if K > 1e4:
        raise Skip("sensitive orbit")
    for k in cyc:
        q2 = q.copy()
        q2[k] += c["shift"]
        S = np.array(flow(c, q2, p)[0].results, dtype=float)
        W = R.copy()
        W[:, 0, k] += c["shift"]
        W[:, 2, k] += c["shift"]
        e = np.abs(S - W).max()
        tol = 1e-13 * K * len(R) * 3 ** (c["order"] // 2) * (sc + abs(c["shift"]))
        assert e <= tol, "shifting coordinate %d by %g does not shift the trajectory: off by %g (bound %g)" % (k, c["shift"], e, tol)
    return labels


def cases(orders, steps, sparse=False):
    @st.composite
    def f(draw):
        if draw(st.integers(0, 2)):
            c = draw(geo.user_cases(amp=0.4, dense=not sparse))
            if sparse:
                off = draw(st.sets(st.integers(0, 3), min_size=1, max_size=3))
                for b in c["prm"]:
                    for k in off:
                        b[1 + k] = 0.0
            c["delta"], c["h"] = draw(grid(0.05, 0.8, 100)), 2e-3
        else:
            c = draw(geo.bh_cases())
            c["delta"], c["h"] = draw(grid(0.05, 1.5, 100)), 1e-3
        c["order"] = draw(st.sampled_from(orders))
        if c["order"] > 4:
            c["delta"] = round(c["delta"] / 2, 6)
        c["omega"] = draw(st.sampled_from([1.0, 0.5, 0.01, 2.0, 0.0]))
        c["steps"] = draw(st.integers(1, steps))
        c["warn"], c["tol"] = draw(st.booleans()), draw(st.sampled_from([1e-12, 1e-2, 1e-4]))
        comp = grid(-1, 1, 10)
        c["u"] = draw(st.lists(comp, min_size=8, max_size=8))
        c["v"] = draw(st.lists(comp, min_size=8, max_size=8))
        if not any(c["u"]):
            c["u"] = [1.0, -1.0] * 4
        if not any(c["v"]):
            c["v"] = [1.0, 0.5, 0.2, -0.3, -1.0, 0.7, 0.4, 0.9]
        c["shift"] = draw(st.one_of(grid(-3, 3, 10), st.just(1.0)))
        return c
    return f()


@st.composite
def long_cases(draw):
    c = draw(cases((2, 2, 2, 4), 4))
    c["steps"] = draw(st.integers(10, 60))
    c["delta"] = max(0.005, round(c["delta"] * draw(st.sampled_from([1, 3, 6])) / c["steps"], 4))
    return c


@st.composite
def very_long_cases(draw):
    c = draw(cases((2,), 4))
    c["steps"] = draw(st.sampled_from([64, 99, 127, 128, 129, 150, 200, 257, 300]))
    c["delta"] = max(0.001, round(c["delta"] * draw(st.sampled_from([1, 3, 9])) / c["steps"], 4))
    c["warn"] = draw(st.integers(0, 3)) == 0
    return c


def nontrivial(c):
    return any(c["mom"]) and (c["metric"] != "user" or any(b[0] and any(b[1:5]) for b in c["prm"]))


LO, HI = (2, 2, 4), (6, 8)
CHECK = Check("G04", [
    Sub("symplectic", cases(LO, 3), test_symplectic, 104, 4000, nontrivial=nontrivial, rule="d omega(Ju, Jv) = d omega(u, v) after 1-3 steps for generated metric, state, u, v; non-trivial: position-dependent metric and momentum"),
    Sub("symplectic high order", cases(HI, 1), test_symplectic, 16, 300, nontrivial=nontrivial, rule="same, order 6 and 8"),
    Sub("reversible", cases(LO, 4), test_reverse, 320, 8000, nontrivial=nontrivial, rule="n steps forward, n steps with -delta; non-trivial as above"),
    Sub("reversible high order", cases(HI, 1), test_reverse, 32, 800, nontrivial=nontrivial, rule="same, order 6 and 8"),
    Sub("reversible long", long_cases(), test_reverse, 64, 2000, nontrivial=nontrivial, rule="same, 10 to 60 smaller steps"),
    Sub("reversible very long", very_long_cases(), test_reverse, 32, 400, nontrivial=nontrivial, rule="same, 64 to 300 small steps"),
    Sub("symmetry", cases(LO, 5, sparse=True), test_symmetry, 320, 8000, nontrivial=nontrivial, rule="metrics with cyclic coordinates: sum of both copies' momentum conserved at every step, shifted start gives shifted trajectory"),
    Sub("symmetry high order", cases(HI, 1, sparse=True), test_symmetry, 24, 600, nontrivial=nontrivial, rule="same, order 6 and 8"),
], assumptions=["orbits that stay regular (|state| < 1e4) and are not chaotic at the scale of the test (sensitivity < 1e4)"])
