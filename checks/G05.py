"""G05 trajectory assembly, output charts, equal metrics, equal classes."""
import math
import numpy as np
from harness import Check, Sub, Skip, close, st, grid
import geo
from checks.G07 import metric_fn
from checks.G04 import metric_of
from einsteinpy.geodesic import Geodesic, Timelike, Nulllike
from einsteinpy.integrators import GeodesicIntegrator


def kwargs(c):
    k = {}
    for n in ("steps", "delta", "order", "omega", "rtol", "atol"):
        if n in c:
            k[n] = c[n]
    if "sw" in c and c["sw"] is not None:
        k["suppress_warnings"] = c["sw"]
    return k


CONV = {"list": list, "tuple": tuple, "array": np.array}


def data(c, **kw):
    conv = CONV[c.get("as", "list")]
    return dict(metric=kw.get("metric", geo.code_metric(c)), metric_params=kw.get("prm", geo.params(c)), position=conv(c["pos"]), momentum=conv(c["mom"]))


def finite(tr):
    if not (np.isfinite(tr).all() and np.abs(tr).max() < 1e6):
        raise Skip("the orbit leaves the regular region")


def test_rows(c):
    G = geo.usable(c)[0]
    k = kwargs(c)
    o = Geodesic(**data(c), time_like=c["tl"], return_cartesian=False, **k)
    # one very small step in the direction asked for, against the equations of motion themselves
    h = math.copysign(1e-5, c.get("delta", 0.5))
    one = np.asarray(Geodesic(**data(c), time_like=c["tl"], return_cartesian=False, **dict(k, steps=1, delta=h)).trajectory[1], dtype=float)[0]
    z0 = np.concatenate([np.asarray(o.position, dtype=float), np.asarray(o.momentum, dtype=float)])
    rate = geo.rhs(G)(0.0, z0)
    close((one - z0) / h, rate, rtol=0, atol=1e-2 * (1 + np.abs(rate).max()), what="first small step of size %g, divided by it " % h)
    N = c.get("steps", 50)
    lam, tr = o.trajectory
    lam, tr = np.asarray(lam), np.asarray(tr, dtype=float)
    assert lam.shape == (N,) and np.array_equal(lam, np.arange(N)), "step counts %r" % (lam,)
    assert tr.shape == (N, 8), tr.shape
    f, prm = metric_of(c)
    g = GeodesicIntegrator(metric=f, metric_params=prm, q0=np.array(o.position), p0=np.array(o.momentum), time_like=c["tl"], steps=N,
                           delta=c.get("delta", 0.5), order=c.get("order", 2), omega=c.get("omega", 1.0), suppress_warnings=True)
    for _ in range(N):
        g.step()
    R = np.array(g.results, dtype=float)
    assert R.shape == (N, 4, 4)
    finite(tr)
    close(tr[:, :4], R[:, 0], rtol=1e-12, atol=1e-12, what="4-position ")
    close(tr[:, 4:], R[:, 1], rtol=1e-12, atol=1e-12, what="4-momentum ")
    assert g.step_num == N and len(g.results) == N
    # attributes
    assert o.kind == ("Time-like" if c["tl"] else "Null-like") and o.coords == "Spherical Polar" and bool(o.time_like) == c["tl"]
    if c["metric"] != "user":
        assert o.metric_name == c["metric"]
    assert isinstance(str(o), str) and isinstance(repr(o), str)
    close(o.position, [0.0] + list(c["pos"]), rtol=0)
    # a shorter run is a prefix; calling again gives the same
    n2 = max(1, N // 2)
    k2 = dict(k, steps=n2)
    tr2 = np.asarray(Geodesic(**data(c), time_like=c["tl"], return_cartesian=False, **k2).trajectory[1], dtype=float)
    close(tr2, tr[:n2], rtol=0, what="prefix ")
    lam3, tr3 = o.calculate_trajectory(**k)
    close(np.asarray(tr3, dtype=float), tr, rtol=0, what="calculate_trajectory ")
    # other settings on the same object: as for a new object with these settings; then the first ones again
    other = dict(k, **[dict(omega=0.5 * k.get("omega", 1.0)), dict(delta=0.5 * k.get("delta", 0.5)), dict(order=4 if k.get("order", 2) != 4 else 2), dict(steps=N + 1), dict(suppress_warnings=False, rtol=1e9, atol=1e9)][(N + int(1000 * abs(c.get("delta", 0)))) % 5])
    tr4 = np.asarray(o.calculate_trajectory(**other)[1], dtype=float)
    new = np.asarray(Geodesic(**data(c), time_like=c["tl"], return_cartesian=False, **other).trajectory[1], dtype=float)
    assert np.array_equal(tr4, new, equal_nan=True), "calculate_trajectory with %s is not that of a new geodesic" % {q: v for q, v in other.items() if k.get(q) != v}
    assert np.array_equal(np.asarray(o.calculate_trajectory(**k)[1], dtype=float), tr), "calculate_trajectory after other settings"
    assert np.array_equal(np.asarray(o.trajectory[1], dtype=float), tr), "the trajectory of the object changed"
    return [c["metric"], "backwards" if c.get("delta", 1) < 0 else "forwards", "order %d" % c.get("order", 2), "defaults: %s" % ",".join(n for n in ("steps", "delta", "order", "omega") if n not in c)]


def test_long(c):
    """hundreds of steps: every row, the prefix"""
    geo.usable(c)
    N = c["steps"]
    kw = dict(delta=c["delta"], suppress_warnings=True)
    o = Geodesic(**data(c), time_like=c["tl"], return_cartesian=False, steps=N, **kw)
    tr = np.asarray(o.trajectory[1], dtype=float)
    assert tr.shape == (N, 8) and np.array_equal(np.asarray(o.trajectory[0]), np.arange(N))
    f, prm = metric_of(c)
    g = GeodesicIntegrator(metric=f, metric_params=prm, q0=np.array(o.position), p0=np.array(o.momentum), time_like=c["tl"], steps=N, order=2, omega=1.0, **kw)
    for _ in range(N):
        g.step()
    finite(tr)
    R = np.array(g.results, dtype=float)
    close(tr[:, :4], R[:, 0], rtol=1e-12, atol=1e-12, what="4-position ")
    close(tr[:, 4:], R[:, 1], rtol=1e-12, atol=1e-12, what="4-momentum ")
    # the same run in pieces: an integrator started from both copies of a row goes on as before
    k = c["cut"] % (N - 1)
    h = GeodesicIntegrator(metric=f, metric_params=prm, q0=np.array(o.position), p0=np.array(o.momentum), time_like=c["tl"], steps=N, order=2, omega=1.0, **kw)
    if hasattr(h, "res_list"):
        h.res_list = R[k]
        n = min(20, N - 1 - k)
        for _ in range(n):
            h.step()
        if n:
            close(np.array(h.results, dtype=float), R[k + 1:k + 1 + n], rtol=1e-12, atol=1e-12, what="continued from row %d " % k)
    return [c["metric"], "steps %d" % (N // 200 * 200)]


def test_cartesian(c):
    geo.usable(c)
    k = kwargs(c)
    cls = Timelike if c["tl"] else Nulllike
    sph = Geodesic(**data(c), time_like=c["tl"], return_cartesian=False, **k)
    S = np.asarray(sph.trajectory[1], dtype=float)
    finite(S)
    t, r, th, ph = S[:, :4].T
    W = S.copy()
    W[:, 1], W[:, 2], W[:, 3] = r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th)
    outs = dict(explicit=Geodesic(**data(c), time_like=c["tl"], return_cartesian=True, **k),
                default=Geodesic(**data(c), time_like=c["tl"], **k), named=cls(**data(c), **k),
                named_explicit=cls(**data(c), return_cartesian=True, **k))
    if c["tl"]:
        outs["default time_like"] = Geodesic(**data(c), **k)
    for n, o in outs.items():
        assert o.coords == "Cartesian", n
        close(np.asarray(o.trajectory[1], dtype=float), W, rtol=1e-12, atol=1e-12 * (1 + np.abs(r).max()), what="%s Cartesian output " % n)
        assert np.array_equal(np.asarray(o.trajectory[0]), np.arange(c.get("steps", 50)))
        assert bool(o.time_like) == c["tl"] and o.kind == sph.kind, n
        close(o.momentum, sph.momentum, rtol=0)
        close(o.position, sph.position, rtol=0)
    n = cls(**data(c), return_cartesian=False, **k)
    assert n.coords == "Spherical Polar"
    close(np.asarray(n.trajectory[1], dtype=float), S, rtol=0, what="named class ")
    return [c["metric"], "time-like" if c["tl"] else "null"]


def textbook(x, *p):
    """Kerr-Newman contravariant metric as a user would write it"""
    a, Q = (list(p) + [0.0, 0.0])[:2]
    r, th = x[1], x[2]
    s2 = np.sin(th) ** 2
    S = r * r + np.cos(th) ** 2 * a * a
    D = r * r - 2 * r + (a * a + Q * Q)
    g = np.zeros((4, 4), dtype=object)
    g[0, 0] = -((r * r + a * a) ** 2 - D * s2 * a * a) / (S * D)
    g[0, 3] = g[3, 0] = -(2 * r - Q * Q) * a / (S * D)
    g[1, 1] = D / S
    g[2, 2] = 1 / S
    g[3, 3] = (D - s2 * a * a) / (S * D * s2)
    return g


def named(name, f):
    """the same function under another name"""
    g = lambda x, *p: f(x, *p)
    g.__name__ = g.__qualname__ = name
    return g


def test_equal(c):
    geo.usable(c)
    k = kwargs(c)
    a, Q = geo.bh_args(c)

    def tr(metric, prm, position=None):
        d = data(c, metric=metric, prm=prm)
        if position is not None:
            d["position"] = position
        return np.asarray(Geodesic(**d, time_like=c["tl"], return_cartesian=False, suppress_warnings=True, **k).trajectory[1], dtype=float)
    base = tr(c["metric"], geo.params(c))
    finite(base)
    if (base[:, 1] < 1.2).any():
        raise Skip("the orbit leaves the regular region")
    d = np.array(c["pos"]) * (1 + 1e-7)
    pert = tr(c["metric"], geo.params(c), list(d))
    K = max(1.0, np.abs(pert - base).max() / (1e-7 * (1 + np.abs(c["pos"]).max())))
    if not K < 1e4:
        raise Skip("sensitive orbit")
    tol = 2e-12 * K * len(base) * (1 + np.abs(base).max()) * 3 ** (c["order"] // 2 - 1)
    close(tr(metric_fn(c["metric"]), geo.params(c)), base, rtol=0, atol=tol, what="user function equal to %s " % c["metric"])
    close(tr(textbook, (a, Q)), base, rtol=0, atol=tol, what="user-written Kerr-Newman = %s " % c["metric"])
    close(tr(named(c["name"], textbook), (a, Q)), base, rtol=0, atol=tol, what="user-written Kerr-Newman, function named %s = %s " % (c["name"], c["metric"]))
    # parameters are the user's own: any number of them, passed on unchanged and in order
    seen = []

    def mine(x, *p):
        seen.append(p)
        return textbook(x, p[-1], p[0])
    mine.__name__ = c["name"]
    prm = (Q,) + tuple(c["extra"]) + (a,)
    close(tr(mine, prm), base, rtol=0, atol=tol, what="user-written Kerr-Newman with parameters %s = %s " % (prm, c["metric"]))
    assert set(seen) == {prm}, "the user's function was called with parameters %s instead of %s" % (set(seen) - {prm}, prm)
    n = 4
    if Q == 0 or c["metric"] != "KerrNewman":
        close(tr("KerrNewman", (a, 0.0)), base, rtol=0, atol=tol, what="KerrNewman(Q = 0) = %s " % c["metric"])
        n += 1
    if c["metric"] == "Schwarzschild":
        close(tr("Kerr", (0.0,)), base, rtol=0, atol=tol, what="Kerr(a = 0) = Schwarzschild ")
        n += 1
    return [c["metric"], "%d alternatives" % n]


def opts(draw, c, steps=8, orders=(2, 4, 6)):
    if draw(st.integers(0, 3)):
        c["steps"] = draw(st.integers(1, steps))
    if draw(st.integers(0, 2)):
        c["delta"] = draw(grid(0.01, 1.5, 100)) * draw(st.sampled_from([1, 1, 1, -1]))
    if draw(st.integers(0, 1)):
        c["order"] = draw(st.sampled_from(orders))
    if draw(st.integers(0, 1)):
        c["omega"] = draw(st.sampled_from([0.01, 0.3, 1.0, 2.0, 0.0]))
    if draw(st.integers(0, 3)) == 0:
        c["rtol"], c["atol"] = draw(st.sampled_from([1e-2, 1e-6, 0.0])), draw(st.sampled_from([1e-2, 1e-6, 1.0]))
    c["sw"] = draw(st.sampled_from([True, None, False]))
    if "steps" not in c and c.get("order", 2) > 2:
        c["steps"] = 3
    if c.get("order", 2) > 4:
        c["steps"] = min(c["steps"], 2)
    c["as"] = draw(st.sampled_from(["list", "tuple", "array"]))
    return c


@st.composite
def row_cases(draw):
    return opts(draw, draw(st.one_of(geo.bh_cases(), geo.user_cases(dense=False))), orders=(2, 4, 6, 8))


@st.composite
def cart_cases(draw):
    c = opts(draw, draw(geo.bh_cases()), steps=5, orders=(2, 4))
    c["steps"] = c.get("steps", 6)
    return c


@st.composite
def long_cases(draw):
    c = draw(row_cases())
    for k in ("steps", "delta", "order", "omega", "rtol", "atol", "sw"):
        c.pop(k, None)
    c["steps"] = draw(st.sampled_from([120, 257, 300, 400, 513, 700]))
    c["delta"] = round(draw(grid(0.5, 30, 10)) / c["steps"], 5) * draw(st.sampled_from([1, 1, -1]))
    c["cut"] = draw(st.one_of(st.integers(0, 700), st.sampled_from([99, 127, 255, 199, 499, 511])))
    return c


@st.composite
def eq_cases(draw):
    c = draw(geo.bh_cases())
    if draw(st.integers(0, 2)) == 0:
        c["Q"] = 0.0
    c["steps"], c["delta"], c["order"] = draw(st.integers(1, 4)), draw(grid(0.01, 1, 100)), draw(st.sampled_from([2, 2, 4]))
    c["omega"] = draw(st.sampled_from([1.0, 0.1, 0.01]))
    c["name"] = draw(st.sampled_from(["Schwarzschild", "Kerr", "KerrNewman", "schwarzschild", "kerr", "kerrnewman", "metric", "<lambda>"]))
    c["extra"] = draw(st.lists(st.sampled_from([0.0, 7.5, -1.0]), max_size=3))
    return c


nt = lambda c: any(c["mom"])
CHECK = Check("G05", [
    Sub("rows", row_cases(), test_rows, 200, 6000, nontrivial=nt, rule="row k against the integrator stepped k+1 times from the initial data; any subset of options left at the documented default; prefix property; non-trivial: non-zero momentum"),
    Sub("long", long_cases(), test_long, 24, 300, nontrivial=nt, rule="120 to 700 steps: rows against the integrator stepped by hand, and the integrator restarted from both copies of a generated row; non-trivial: non-zero momentum"),
    Sub("cartesian", cart_cases(), test_cartesian, 160, 3500, nontrivial=nt, rule="Cartesian and spherical output, named and generic classes, defaults; non-trivial: non-zero momentum"),
    Sub("equal metrics", eq_cases(), test_equal, 200, 4500, nontrivial=nt, rule="Kerr(0), Kerr-Newman(Q=0), user functions returning the same matrix, under any name and with any parameters; non-trivial: non-zero momentum"),
], assumptions=["start outside the ergosphere; orbits with sensitivity < 1e4"])
