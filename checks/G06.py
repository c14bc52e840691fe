"""G06 accuracy warnings and refused requests."""
import math
import re
import warnings
import numpy as np
from harness import Check, Sub, Skip, close, st, grid, raises
import geo
from checks.G04 import metric_of
from einsteinpy.geodesic import Geodesic, Timelike, Nulllike
from einsteinpy.integrators import GeodesicIntegrator


def capture(f):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        o = f()
    hits = [str(w.message) for w in rec if issubclass(w.category, RuntimeWarning) and re.search(r"tolerance", str(w.message), re.I)]
    return o, hits


def test_warn(c):
    G, *_ = geo.usable(c)
    kw = dict(metric=geo.code_metric(c), metric_params=geo.params(c), position=c["pos"], momentum=c["mom"], steps=c["steps"],
              delta=c["delta"], order=c["order"], omega=c["omega"], return_cartesian=c["cart"], time_like=c["tl"])
    tol = {}
    for n in ("rtol", "atol"):
        if c[n] is not None:
            tol[n] = c[n]
    o, hits = capture(lambda: Geodesic(**kw, **tol))
    q, hq = capture(lambda: Geodesic(**kw, **tol, suppress_warnings=True))
    d, hd = capture(lambda: Geodesic(**kw, rtol=1e6, atol=1e6))
    s, hs = capture(lambda: Geodesic(**dict(kw, return_cartesian=False), **tol))
    tr = np.asarray(s.trajectory[1], dtype=float)
    for a, n in ((q, "suppressed"), (d, "huge tolerance")):
        assert np.array_equal(np.asarray(a.trajectory[1], dtype=float), np.asarray(o.trajectory[1], dtype=float), equal_nan=True), "%s: numbers differ" % n
    assert not hq, "warned although suppressed: %s" % hq[:1]
    if not np.isfinite(tr).all() or np.abs(tr).max() > 1e5:
        raise Skip("the orbit leaves the regular region")
    const = -1.0 if c["tl"] else 0.0
    limit = (1e-2 if c["atol"] is None else c["atol"]) + (1e-2 if c["rtol"] is None else c["rtol"]) * abs(const)
    want, drifts = [], []
    for k, row in enumerate(tr):
        g = np.asarray(G(row[:4]), dtype=float)
        p = row[4:]
        e = abs(p @ g @ p - const)
        if abs(e - limit) < 1e-9 * limit + 1e-11 * (np.abs(p) @ np.abs(g) @ np.abs(p) + 1):
            raise Skip("drift at the limit")
        if e > limit:
            want.append(k + 1)
        drifts.append(e)
    for h in (hits, hs):
        assert len(h) == len(want), "%d warnings, the drift exceeds the limit %g at steps %s of %s" % (len(h), limit, want, drifts)
        for m, k in zip(h, want):
            assert str(k) in re.findall(r"\d+", m), "warning %r should name step %d" % (m, k)
    # the integrator itself
    f, prm = metric_of(c)
    it = GeodesicIntegrator(metric=f, metric_params=prm, q0=np.array(o.position), p0=np.array(o.momentum), time_like=c["tl"], steps=c["steps"],
                            delta=c["delta"], order=c["order"], omega=c["omega"], **tol)

    def go():
        for _ in range(c["steps"]):
            it.step()
    _, hi = capture(go)
    assert len(hi) == len(want), "integrator: %d warnings, expected %s" % (len(hi), want)
    return [c["metric"], "all" if len(want) == c["steps"] else "none" if not want else "some", "time-like" if c["tl"] else "null"]


def test_long(c):
    G, *_ = geo.usable(c)
    kw = dict(metric=geo.code_metric(c), metric_params=geo.params(c), position=c["pos"], momentum=c["mom"], steps=c["steps"],
              delta=c["delta"], order=2, omega=c["omega"], return_cartesian=False, time_like=c["tl"])
    o, hits = capture(lambda: Geodesic(**kw, rtol=0.0, atol=c["atol"]))
    tr = np.asarray(o.trajectory[1], dtype=float)
    assert tr.shape == (c["steps"], 8) and len(o.trajectory[0]) == c["steps"], tr.shape
    const = -1.0 if c["tl"] else 0.0
    want, unsure = [], 0
    for k, row in enumerate(tr):
        if not np.isfinite(row).all() or np.abs(row).max() > 1e5:
            unsure = len(tr) - k
            break
        g, p = np.asarray(G(row[:4]), dtype=float), row[4:]
        e = abs(p @ g @ p - const)
        if abs(e - c["atol"]) < 1e-9 * c["atol"] + 1e-10 * (np.abs(p) @ np.abs(g) @ np.abs(p) + 1):
            raise Skip("drift at the limit")
        if e > c["atol"]:
            want.append(k + 1)
    assert len(want) <= len(hits) <= len(want) + unsure, "%d warnings, the drift exceeds the limit %g at %d steps (%s...)" % (len(hits), c["atol"], len(want), want[:10])
    for m, k in zip(hits, want):
        assert str(k) in re.findall(r"\d+", m), "warning %r should name step %d" % (m, k)
    # the last step against a second, suppressed run half as long
    h = c["steps"] // 2
    b, hb = capture(lambda: Geodesic(**dict(kw, steps=h), suppress_warnings=True))
    assert not hb
    assert np.array_equal(np.asarray(b.trajectory[1], dtype=float), tr[:h], equal_nan=True), "prefix of a long run"
    return [c["metric"], "%d+ steps" % (c["steps"] // 50 * 50), "all" if len(want) == c["steps"] else "none" if not want else "some"]


@st.composite
def long_cases(draw):
    c = draw(st.one_of(geo.bh_cases(), geo.user_cases(amp=0.2, dense=False)))
    c["steps"] = draw(st.integers(40, 300))
    c["delta"] = draw(grid(0.02, 0.4, 100))
    c["omega"] = draw(st.sampled_from([1.0, 0.1, 0.01]))
    c["atol"] = draw(st.sampled_from([0.0, 1e-6, 1e-5, 1e-4, 1e-3, 1e-8]))
    return c


@st.composite
def warn_cases(draw):
    c = draw(st.one_of(geo.bh_cases(), geo.user_cases(amp=0.5)))
    c["steps"], c["order"] = draw(st.integers(1, 6)), draw(st.sampled_from([2, 2, 2, 4]))
    c["delta"] = draw(grid(0.05, 1.5, 100)) * (1 if c["metric"] == "user" else draw(st.sampled_from([1, 3])))
    c["omega"] = draw(st.sampled_from([1.0, 0.1, 0.01]))
    tol = st.one_of(st.none(), st.sampled_from([0.0, 1e-3, 1e-4, 1e-5, 1e-6]), grid(0.0001, 0.2, 10000))
    c["rtol"], c["atol"], c["cart"] = draw(tol), draw(tol), draw(st.booleans())
    return c


# ------------------------------------------------------------------ refused requests
GOOD = dict(metric_params=(0.5, 0.1), position=[20.0, 1.5, 0.0], momentum=[0.0, 0.0, 4.0])


def test_order(c):
    n = c["order"]
    f = c["cls"]
    args = dict(metric="KerrNewman", steps=1, delta=0.1, order=n, suppress_warnings=True, **GOOD)
    build = {"Geodesic": lambda: Geodesic(**args), "Timelike": lambda: Timelike(**args), "Nulllike": lambda: Nulllike(**args),
             "GeodesicIntegrator": lambda: GeodesicIntegrator(metric=lambda x, *p: np.diag([-1.0, 1, 1, 1]), metric_params=(), q0=np.array([0, 1.0, 1, 1]),
                                                              p0=np.array([-1.0, 0, 0, 0]), order=n)}[f]
    if n in (2, 4, 6, 8):
        o = build()
        if f != "GeodesicIntegrator":
            assert np.isfinite(np.asarray(o.trajectory[1], dtype=float)).all()
        return ["supported"]
    raises(NotImplementedError, build)
    return ["refused"]


def test_name(c):
    n = c["name"]
    cls = {"Geodesic": Geodesic, "Timelike": Timelike, "Nulllike": Nulllike}[c["cls"]]
    f = lambda: cls(metric=n, steps=1, delta=0.1, suppress_warnings=True, **GOOD)
    if n in geo.BH:
        assert f().metric_name == n
        return ["supported"]
    raises(NotImplementedError, f)
    return ["refused"]


near = st.sampled_from(["Schwarzschild", "Kerr", "KerrNewman", "kerr", "KERR", "Kerr ", "Kerr-Newman", "schwarzschild", "Kerrnewman", "", "ReissnerNordstrom", "Minkowski", "Newman", "K"])
CHECK = Check("G06", [
    Sub("warnings", warn_cases(), test_warn, 320, 7000, nontrivial=lambda c: any(c["mom"]),
        rule="generated run and tolerances (defaults included); warned steps = steps whose recomputed mass shell drifts beyond the limit; numbers unchanged; non-trivial: non-zero momentum"),
    Sub("long runs", long_cases(), test_long, 48, 1500, nontrivial=lambda c: any(c["mom"]),
        rule="runs of 40-300 steps: every step beyond the limit is warned about, also late ones; half the run is a prefix; non-trivial: non-zero momentum"),
    Sub("order", st.fixed_dictionaries(dict(order=st.one_of(st.integers(-3, 20), st.sampled_from([2, 4, 6, 8, 0, 1, 10, 2.5, None, "2"])), cls=st.sampled_from(["Geodesic", "Timelike", "Nulllike", "GeodesicIntegrator"]))),
        test_order, 240, 2000, nontrivial=lambda c: c["order"] not in (2, 4), rule="integers and odd values as order; non-trivial: not 2 or 4"),
    Sub("metric name", st.fixed_dictionaries(dict(name=st.one_of(near, st.text(max_size=12), st.none(), st.integers(-2, 3)), cls=st.sampled_from(["Geodesic", "Timelike", "Nulllike"]))),
        test_name, 300, 4000, nontrivial=lambda c: c["name"] not in geo.BH, rule="names near the supported ones and random text; non-trivial: unsupported"),
], assumptions=["cases whose drift is within 1e-9 of the limit are left out"])
