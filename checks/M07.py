"""M07 generic metrics, perturbations, chart errors."""
import math
import numpy as np
from astropy import units as u
from harness import Check, Sub, Skip, close, raises, st, grid, logfloat
import bh, textbook as tb
from einsteinpy.metric import BaseMetric
from einsteinpy.utils import CoordinateError


@st.composite
def users(draw):
    e = lambda: draw(grid(-1, 1, 10))
    lead = [draw(st.sampled_from([1.0, 4.0, 9e16])), -draw(grid(0.5, 3, 10)), -draw(logfloat(-2, 10)), -draw(logfloat(-2, 10))]
    off = [e() * 0.2 for _ in range(6)]
    pert = [e() * 0.1 for _ in range(10)]
    kind = draw(st.sampled_from(["full", "full", "off-diagonal", "single", "traceless"]))
    if kind == "off-diagonal":
        pert = [0.0 if k in (0, 4, 7, 9) else v for k, v in enumerate(pert)]
    elif kind == "single":
        i = draw(st.integers(0, 9))
        pert = [0.1 if k == i else 0.0 for k in range(10)]
    elif kind == "traceless":
        lead[1:] = [-lead[0]] * 3
        pert[9] = -pert[0] - pert[4] - pert[7]
    return dict(lead=lead, off=off, pert=pert, usep=draw(st.booleans()), x=[e() * 10 for _ in range(4)],
                sys=draw(st.sampled_from(["Cartesian", "Spherical", "BoyerLindquist"])), M=draw(logfloat(0, 30)),
                rank=draw(st.booleans()), ret=draw(st.sampled_from(["fresh", "cached", "readonly"])))


IU = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]


def test_user(c):
    d = np.sqrt(np.abs(c["lead"]))
    calls = dict(g=[], p=[], ch=[], f=[])

    def base(x):
        w = 1 + 0.1 * math.sin(x[1])
        g = np.diag(np.array(c["lead"]) * w)
        for (i, j), v in zip(IU, c["off"]):
            g[i, j] = g[j, i] = v * d[i] * d[j]
        return g

    cache = {}

    def out(key, x, f):
        # a user's function may hand out a new array each time or one that it keeps
        if c["ret"] == "fresh":
            return f(x)
        if (key, tuple(x)) not in cache:
            cache[key, tuple(x)] = f(x)
            if c["ret"] == "readonly":
                cache[key, tuple(x)].setflags(write=False)
        return cache[key, tuple(x)]

    def gcov(x):
        calls["g"].append(list(x))
        return out("g", x, base)

    def pmat(x):
        p = np.zeros((4, 4))
        k = 0
        for i in range(4):
            for j in range(i, 4):
                p[i, j] = p[j, i] = c["pert"][k] * d[i] * d[j] * math.cos(x[2])
                k += 1
        return p

    def pert(x):
        calls["p"].append(list(x))
        return out("p", x, pmat)

    chm = np.arange(64.0).reshape(4, 4, 4)

    def chri(x):
        calls["ch"].append(list(x))
        return chm + x[0]

    def fv(lam, vec):
        calls["f"].append(lam)
        return np.arange(8.0) + lam + vec[0]

    m = BaseMetric(coords=bh.coords(c["sys"], (2.0, 1.0, 1.0)), M=c["M"] * u.kg, name="user", metric_cov=gcov,
                   christoffels=chri, f_vec=fv, perturbation=pert if c["usep"] else None)
    x = np.array(c["x"])
    keep = x.copy()
    want = base(x) + (pmat(x) if c["usep"] else 0)
    for rep in range(3):
        got = np.asarray(m.metric_covariant(x))
        close(got, want, rtol=1e-14, atol=1e-15 * np.outer(d, d), what="metric_covariant (call %d) " % rep)
    close(np.asarray(m.metric_cov(x)), base(x), rtol=0, what="metric_cov ")
    if c["usep"]:
        close(np.asarray(m.perturbation(x)), pmat(x), rtol=0, what="perturbation ")
    if abs(np.linalg.det(want / np.outer(d, d))) > 1e-3:
        got = np.asarray(m.metric_contravariant(x))
        sc = np.outer(1 / d, 1 / d)
        s = want / np.outer(d, d)
        cond = np.linalg.cond(s)
        close(got / sc, np.linalg.inv(s), rtol=0, atol=1e-13 * cond * np.abs(np.linalg.inv(s)).max(), what="metric_contravariant ")
    assert np.array_equal(x, keep)
    assert np.array_equal(m.christoffels(x), chm + x[0])
    assert np.array_equal(m.f_vec(2.5, np.arange(8.0) + 1), np.arange(8.0) + 3.5)
    assert all(p == list(keep) for p in calls["g"] + calls["p"] + calls["ch"])
    assert m.coords.system == c["sys"] and m.name == "user"
    for (k, _), v in cache.items():
        assert np.array_equal(v, base(x) if k == "g" else pmat(x)), "array of the user's function was changed"
    # a second matrix evaluation elsewhere is not affected by the first
    y = x + 0.5
    close(np.asarray(m.metric_covariant(y)), base(y) + (pmat(y) if c["usep"] else 0), rtol=1e-14, atol=1e-15 * np.outer(d, d), what="metric_covariant (elsewhere) ")
    close(np.asarray(m.metric_covariant(x)), want, rtol=1e-14, atol=1e-15 * np.outer(d, d), what="metric_covariant (back) ")
    return ["perturbed" if c["usep"] else "plain", c["ret"]] + (["trivial"] if c["usep"] and not any(c["pert"]) else [])


@st.composite
def charts_(draw):
    c = draw(bh.hole_events(kinds=bh.KINDS))
    c["sys"] = draw(st.sampled_from(["Cartesian", "Spherical", "BoyerLindquist"]))
    c["diff"] = draw(st.booleans())
    c["lam"] = draw(grid(0, 5, 1))
    return c


def test_chart(c):
    bh.horizon_cond(c, 1e-4)
    m = bh.metric(c, bh.coords(c["sys"], (c["r"], c["th"], c["ph"]), diff=c["diff"]))
    x = np.array([c["t"], c["r"], c["th"], c["ph"]])
    v = np.concatenate([x, [1.0, 2.0, 3.0, 4.0]])
    calls = [(m.metric_covariant, (x,)), (m.metric_contravariant, (x,)), (m.metric_cov, (x,)), (m.christoffels, (x,)), (m.f_vec, (c["lam"], v))]
    if c["sys"] == bh.CHART[c["kind"]]:
        for f, a in calls:
            assert np.isfinite(np.asarray(f(*a))).all()
        return ["supported", c["kind"]]
    for f, a in calls:
        raises(CoordinateError, f, *a)
    return ["refused", c["kind"]]


@st.composite
def histories(draw):
    """several metrics alive at once, queried in random order"""
    n = draw(st.integers(2, 4))
    holes = [draw(bh.hole_events(outside=True)) for _ in range(n)]
    ops = [[draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)), draw(st.sampled_from(
        ["metric_covariant", "metric_contravariant", "christoffels", "singularities"]))] for _ in range(draw(st.integers(4, 12)))]
    return dict(holes=holes, ops=ops)


def test_history(c):
    ms = [bh.metric(h) for h in c["holes"]]
    # event j, at the same radius in units of GM/c^2 for every hole
    at = lambda i, j: np.array([c["holes"][j]["t"], c["holes"][j]["r"] / c["holes"][j]["M"] * c["holes"][i]["M"],
                                c["holes"][j]["th"], c["holes"][j]["ph"]])

    def ask(m, x, f):
        if f == "singularities":
            s = m.singularities()
            return np.array([float(v(1.0)) if callable(v) else float(v) for _, v in sorted(s.items())])
        return np.asarray(getattr(m, f)(x))
    first = {}
    with np.errstate(all="ignore"):
        for i, j, f in c["ops"]:
            got = ask(ms[i], at(i, j), f)
            fresh = ask(bh.metric(c["holes"][i]), at(i, j), f)
            assert np.array_equal(got, fresh, equal_nan=True), (i, j, f)
            k = (i, j, f)
            if k in first:
                assert np.array_equal(got, first[k], equal_nan=True), k
            # results handed out earlier are not overwritten, and changing them does no harm
            first[k] = got.copy()
            got *= 0
            again = ask(ms[i], at(i, j), f)
            assert np.array_equal(again, first[k], equal_nan=True), k
    return ["%d holes" % len(ms)]


CHECK = Check("M07", [
    Sub("user_metric", users(), test_user, 4000, 80000, nontrivial=lambda c: c["usep"],
        rule="random non-diagonal user metric, optional perturbation, user connection; non-trivial: perturbed"),
    Sub("charts", charts_(), test_chart, 2500, 30000, nontrivial=lambda c: c["sys"] != bh.CHART[c["kind"]],
        rule="hole x chart: every component function; non-trivial: unsupported chart"),
    Sub("histories", histories(), test_history, 700, 15000, nontrivial=lambda c: len(c["ops"]) >= 6,
        rule="random sequences of queries on 2-4 live metrics against freshly built ones; non-trivial: >= 6 operations"),
], assumptions=[], quick_scale=2)
