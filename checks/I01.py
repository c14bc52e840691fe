"""I01 Runge-Kutta integrators."""
import math
import warnings
import numpy as np
from harness import Check, Sub, Skip, close, st, grid
from einsteinpy.integrators import RK4naive, RK45


def problem(c):
    A, b, w = np.array(c["A"], dtype=float), np.array(c["b"], dtype=float), c["w"]
    n = len(c["b"])
    kind = c["kind"]
    if c["shape"] == "scalar":
        a, b0 = float(A[0, 0]), float(b[0])
        f = {"linear": lambda t, y: a * y + b0 * math.cos(w * t), "sin": lambda t, y: np.sin(a * y + w * t) + b0,
             "poly": lambda t, y: b0 + a * t ** 3 * w + 0 * y, "self": lambda t, y: y, "fixed": lambda t, y: b0}[kind]
        y0 = c["y0"][0]
    elif c["shape"] == "matrix":
        sh = (2, n // 2) if n % 2 == 0 else (1, n)
        f = lambda t, y: F(t, y.reshape(-1)).reshape(sh)
        y0 = np.array(c["y0"]).reshape(sh)
    else:
        f = lambda t, y: F(t, y)
        y0 = np.array(c["y0"])

    def F(t, y):
        if kind == "linear":
            return A @ y + b * math.cos(w * t)
        if kind == "sin":
            return np.sin(A @ y + w * t) + b
        if kind in ("self", "fixed"):       # the argument itself, or one array the function keeps
            return y if kind == "self" else b
        return b + A[0] * t ** 3 * w + 0 * y
    return f, y0


def truth(f, t0, y0, ts):
    from scipy.integrate import solve_ivp
    sh = np.shape(y0)
    g = lambda t, y: np.ravel(f(t, y.reshape(sh) if sh else float(y[0])))
    out = []
    for t in ts:
        if t == t0:
            out.append(np.ravel(np.array(y0, dtype=float)))
            continue
        s = solve_ivp(g, (t0, t), np.ravel(np.array(y0, dtype=float)), method="DOP853", rtol=1e-13, atol=1e-14, max_step=abs(t - t0) / 4)
        out.append(s.y[:, -1])
    return np.array(out)


def classic(f, t, y, h):
    k1 = f(t, y)
    k2 = f(t + h / 2, y + k1 * h / 2)
    k3 = f(t + h / 2, y + k2 * h / 2)
    k4 = f(t + h, y + k3 * h)
    return y + (k1 + 2 * k2 + 2 * k3 + k4) * (h / 6)


def test_rk4(c):
    f, y0 = problem(c)
    keep, slope = np.array(y0, copy=True), np.array(f(c["t0"], y0), copy=True)
    t0, tb, h = c["t0"], c["t0"] + c["dir"] * c["T"], c["h"]
    s = RK4naive(f, t0, y0, tb, h)
    assert s.t == t0 and np.array_equal(np.asarray(s.y), keep)
    t, y = t0, y0
    n = 0
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        while abs(tb - t) > 0 and n < 400:
            k = c["dir"] * min(h, abs(tb - t))
            before = np.array(s.y, copy=True)
            prev = s.y
            s.step()
            assert np.array_equal(np.asarray(prev), before), "the previous state was modified"
            y = classic(f, t, y, k)
            t = t + k
            n += 1
            close(s.t, t, rtol=1e-14, atol=1e-14 * (abs(t0) + c["T"]), what="time after step %d " % n)
            t = s.t
            assert np.shape(s.y) == np.shape(y0), "shape %s" % (np.shape(s.y),)
            close(s.y, y, rtol=1e-12, atol=1e-12 * (1 + np.abs(y).max()), what="state after step %d " % n)
            if not np.abs(y).max() < 1e8:
                raise Skip("diverges")
            assert (s.t - tb) * c["dir"] <= 4e-16 * (abs(t0) + c["T"]), "time %r passes the bound %r" % (s.t, tb)
            y = s.y
        nw = sum(issubclass(w.category, RuntimeWarning) and "bound" in str(w.message).lower() for w in rec)
        assert nw == 0, "warned before the bound"
        assert n >= 400 or abs(n - c["T"] / h) <= 2, "%d steps for %g/%g" % (n, c["T"], h)
        if n < 400:
            ty = (s.t, np.array(s.y, copy=True))
            s.step()
            assert s.t == ty[0] and np.array_equal(np.asarray(s.y), ty[1]), "moved past the bound"
            if s.t == tb:
                assert any(issubclass(w.category, RuntimeWarning) for w in rec), "no warning for a step past the bound"
    assert np.array_equal(np.asarray(y0), keep), "y0 was modified"
    assert np.array_equal(np.asarray(f(t0, y0)), slope), "an array of the right-hand side was modified"
    return [c["kind"], c["shape"], "forward" if c["dir"] > 0 else "backward", "h > T" if h > c["T"] else "h <= T"]


def run_rk4(f, t0, y0, tb, n):
    s = RK4naive(f, t0, y0, tb, abs(tb - t0) / n)
    for _ in range(n + 2):
        if s.t == tb or abs(s.t - tb) < 1e-14 * (abs(t0) + abs(tb)):
            break
        s.step()
    return np.ravel(np.array(s.y, dtype=float))


def test_order(c):
    f, y0 = problem(c)
    t0, T = c["t0"], min(c["T"], 2.0)
    best, usable, log = -9, 0, []
    for _ in range(6):
        tb = t0 + c["dir"] * T
        ref = truth(f, t0, y0, [tb])[0]
        sc = 1 + np.abs(ref).max()
        if not sc < 1e6:
            T /= 2
            continue
        errs = []
        for n in (2, 4, 8):
            errs.append(np.abs(run_rk4(f, t0, y0, tb, n) - ref).max() / sc)
        log.append((T, errs))
        for a, b in zip(errs, errs[1:]):
            if b > 1e-11 and a < 0.05 and a > 1e-9:
                usable += 1
                best = max(best, math.log2(a / b))
        if best > 3.4 or errs[-1] < 1e-11:
            break
        T /= 2
    if not usable:
        if log and max(log[-1][1]) < 1e-9:
            return ["trivial", "exact"]
        raise Skip("no usable pair")
    if best <= 3.4 and usable < 3:
        raise Skip("too few pairs of steps between the asymptotic range and rounding")
    assert best > 3.4, "rate %.2f: %s" % (best, log)
    return [c["kind"], c["shape"], "forward" if c["dir"] > 0 else "backward"]


def test_rk45(c):
    f1, y1 = problem(c)
    if c["shape"] == "matrix":
        raise Skip("one-dimensional states only")
    sc = c["scale"]
    # the same problem for a state measured in other units
    g = f1 if sc == 1 else (lambda t, y: sc * f1(t, y / sc))
    y0 = y1 if sc == 1 else sc * y1
    keep = np.array(y0, copy=True)
    t0, tb = c["t0"], c["t0"] + c["dir"] * c["T"]
    h = min(c["h"], c["T"])
    kw = {}
    if c["rtol"] is not None:
        kw["rtol"] = c["rtol"]
    if c["atol"] is not None:
        kw["atol"] = c["atol"]
    rtol = kw.get("rtol", 0.2 * h)
    atol = kw.get("atol", rtol / 0.8e3)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        s = RK45(g, t0, y0, tb, h, **kw)
        assert s.t == t0
        ts, ys = [], []
        while s.status == "running" and len(ts) < 3000:
            told = s.t
            s.step()
            assert (s.t - told) * c["dir"] > 0, "no progress at %r" % told
            ts.append(float(s.t))
            ys.append(np.ravel(np.array(s.y, dtype=float)))
        if s.status == "failed":
            raise Skip("failed step")
        own = [w for w in rec if issubclass(w.category, RuntimeWarning)]
        assert not own, "warned while running: %s" % own[:1]
        assert all((t - tb) * c["dir"] <= 0 for t in ts), "passes the bound"
        if len(ts) < 3000:
            assert ts[-1] == tb, "finished at %r, bound %r" % (ts[-1], tb)
            last = (s.t, np.array(s.y, copy=True))
            s.step()
            assert s.t == last[0] and np.array_equal(s.y, last[1]), "moved after the bound"
            assert any(issubclass(w.category, RuntimeWarning) for w in rec), "no warning after the end"
    assert np.array_equal(np.asarray(y0), keep), "y0 was modified"
    pick = sorted({0, len(ts) // 3, len(ts) // 2, len(ts) - 1})
    ref = sc * truth(f1, t0, y1, [ts[i] for i in pick])
    ymax = max(np.abs(np.array(ys)).max(), np.abs(keep).max())
    if not ymax < 1e6 * sc:
        raise Skip("diverges")
    L = np.abs(np.array(c["A"])).sum(axis=1).max()
    for i, r in zip(pick, ref):
        amp = math.exp(min(L * abs(ts[i] - t0), 20))
        bound = 10 * math.sqrt(len(keep.reshape(-1))) * amp * (i + 1) * (atol + rtol * ymax) + 1e-11 * (sc + ymax) * amp
        e = np.abs(ys[i] - r).max()
        assert e <= bound, "state at step %d (t = %r) is off by %g, bound %g" % (i + 1, ts[i], e, bound)
    if not kw:       # documented defaults
        d = RK45(g, t0, y0, tb, h, rtol=0.2 * h, atol=0.2 * h / 0.8e3)
        for i in range(min(len(ts), 20)):
            d.step()
            close(d.t, ts[i], rtol=1e-9, atol=1e-12, what="time with the documented default tolerances ")
            close(np.ravel(d.y), ys[i], rtol=1e-9, atol=1e-9 * sc, what="state with the documented default tolerances ")
    tight = bound < 0.05 * (sc + ymax)
    return [c["kind"], c["shape"], "forward" if c["dir"] > 0 else "backward", "tight" if tight else "loose", "scale %g" % sc,
            "default tolerances" if not kw else "given tolerances"] + ([] if tight else ["trivial"])


def test_relative(c):
    """pure relative control (atol = 0) and pure absolute-free growth/decay over many orders of magnitude: y' = a(t) y"""
    a, y1 = np.array(c["a"]), np.array(c["y0"])
    w = c["w"]
    f = lambda t, y: a * (1 + 0.5 * math.cos(w * t)) * y
    big = lambda t: a * (t + (0.5 * math.sin(w * t) / w if w else 0.5 * t))
    t0, tb = c["t0"], c["t0"] + c["dir"] * c["T"]
    kw = dict(rtol=c["rtol"], atol=0)
    s = RK45(f, t0, y1.copy(), tb, min(c["h"], c["T"]), **kw)
    n, worst = 0, 0.0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        while s.status == "running" and n < 4000:
            s.step()
            n += 1
    if s.status != "finished":
        raise Skip("not finished")
    want = y1 * np.exp(big(tb) - big(t0))
    # the error estimate is the root mean square over the components, relative local errors of y' = a y add up
    rel = np.abs(np.asarray(s.y) / want - 1).max()
    bound = 10 * math.sqrt(len(a)) * n * c["rtol"] + 1e-12 * n
    assert rel <= bound, "relative error %g after %d steps with rtol = %g and atol = 0, bound %g" % (rel, n, c["rtol"], bound)
    span = np.abs(big(tb) - big(t0)).max()
    return ["n=%d" % len(a), "span e^%d" % (5 * int(span // 5)), "forward" if c["dir"] > 0 else "backward"] + ([] if bound < 0.1 and span > 3 else ["trivial"])


@st.composite
def relative(draw):
    n = draw(st.integers(1, 3))
    sg = draw(st.sampled_from([1, -1]))
    return dict(a=[sg * draw(grid(0.2, 2, 10)) for _ in range(n)], y0=[draw(st.sampled_from([1.0, -1.0, 0.5])) * draw(st.sampled_from([1e-9, 1e-4, 1.0, 1e3])) for _ in range(n)], w=draw(st.sampled_from([0.0, 1.0, 2.0])),
                t0=draw(grid(-2, 2, 10)), dir=draw(st.sampled_from([1, -1])), T=draw(grid(1, 20, 10)), h=draw(st.sampled_from([0.05, 0.1, 0.3])), rtol=draw(st.sampled_from([1e-4, 1e-6, 1e-9])))


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    shape = draw(st.sampled_from(["scalar", "vector", "vector", "matrix"]))
    if shape == "scalar":
        n = 1
    el = grid(-1.5, 1.5, 10)
    return dict(shape=shape, kind=draw(st.sampled_from(["linear", "sin", "poly", "linear", "linear", "self", "sin", "fixed"])),
                A=[[draw(el) for _ in range(n)] for _ in range(n)], b=[draw(el) for _ in range(n)],
                w=draw(st.sampled_from([0.0, 1.0, 0.5, 2.0])), y0=[draw(st.one_of(el, st.integers(-2, 2))) for _ in range(n)],
                t0=draw(st.one_of(grid(-3, 3, 10), st.integers(-2, 2))), dir=draw(st.sampled_from([1, -1])),
                T=draw(grid(0.1, 4, 100)), h=draw(st.one_of(grid(0.02, 1.5, 100), st.sampled_from([0.1, 0.25, 0.3]))))


def test_complex(c):
    """states and right-hand sides with complex numbers"""
    z = lambda v: complex(*v)
    lam, y0 = np.array([z(v) for v in c["lam"]]), np.array([z(v) for v in c["y0"]])
    b = z(c["b"])
    if c["shape"] == "scalar":
        lam, y0 = complex(lam[0]), complex(y0[0])
    f = lambda t, y: lam * y + b * math.cos(t)
    t0, tb, h = c["t0"], c["t0"] + c["dir"] * c["T"], c["h"]
    s = RK4naive(f, t0, y0, tb, h)
    y, t = y0, t0
    for _ in range(c["n"]):
        if (tb - s.t) * c["dir"] <= 0:
            break
        hh = c["dir"] * min(h, abs(tb - s.t))
        y = classic(f, s.t, y, hh)
        s.step()
        d = np.abs(np.asarray(s.y) - y).max()
        assert np.shape(s.y) == np.shape(y0) and d <= 1e-12 * (1 + np.abs(y).max()), "after the step to t = %g: %s, classical formula %s" % (s.t, s.y, y)
    assert np.iscomplexobj(s.y), "the state is no longer complex"
    # adaptive, homogeneous: the exponential
    g = lambda t, y: lam * y
    s = RK45(g, t0, y0, tb, min(h, c["T"]), rtol=1e-8, atol=1e-10)
    n = 0
    while s.status == "running" and n < 4000:
        s.step()
        n += 1
    if s.status != "finished":
        raise Skip("not finished")
    want = y0 * np.exp(lam * (tb - t0))
    grow = np.exp(np.abs(np.real(lam)).max() * c["T"])
    d = np.abs(np.asarray(s.y) - np.ravel(want)).max()
    assert d <= 100 * (n + 1) * (1e-8 * (1 + np.abs(want).max() + np.abs(y0).max()) + 1e-10) * grow, "adaptive run: %s, exact %s" % (s.y, want)
    return [c["shape"], "forward" if c["dir"] > 0 else "backward"] + ([] if np.abs(np.imag(lam)).max() else ["trivial"])


@st.composite
def complexes(draw):
    zz = st.tuples(grid(-1.5, 1.5, 10), grid(-1.5, 1.5, 10)).map(list)
    n = draw(st.integers(1, 3))
    return dict(shape=draw(st.sampled_from(["scalar", "vector"])), lam=[draw(zz) for _ in range(n)], y0=[draw(zz) for _ in range(n)], b=draw(zz), t0=draw(grid(-3, 3, 10)), dir=draw(st.sampled_from([1, -1])),
                T=draw(grid(0.1, 4, 100)), h=draw(grid(0.02, 0.5, 100)), n=draw(st.integers(1, 12)))


@st.composite
def cases45(draw):
    c = draw(cases())
    if c["shape"] == "matrix":
        c["shape"] = "vector"
    c["scale"] = draw(st.sampled_from([1, 1, 1e-6, 1e-3, 1e5]))
    c["rtol"] = draw(st.sampled_from([None, 1e-3, 1e-5, 1e-8, 1e-10]))
    c["atol"] = draw(st.sampled_from([None, 1e-4, 1e-7, 1e-11])) if c["rtol"] is not None else None
    c["h"] = min(c["h"], 0.5)
    return c


nt = lambda c: any(any(r) for r in c["A"]) or any(c["b"])
CHECK = Check("I01", [
    Sub("RK4 steps", cases(), test_rk4, 6400, 150000, nontrivial=nt, rule="every step of generated scalar/vector/matrix problems against the classical formula, both directions, to the bound and once past it; non-trivial: non-zero right-hand side"),
    Sub("RK4 order", cases(), test_order, 1600, 40000, nontrivial=nt, rule="convergence rate 4 against DOP853; non-trivial: non-zero right-hand side"),
    Sub("RK45", cases45(), test_rk45, 2400, 50000, nontrivial=nt, rule="adaptive runs with default and given tolerances to the bound and past it, state at four times against DOP853 within tolerance x steps x growth; non-trivial: the bound is below 5 % of the solution"),
    Sub("RK45 relative", relative(), test_relative, 1600, 40000, rule="growth or decay over up to forty e-folds with rtol given and atol = 0: relative error within rtol x steps; non-trivial: bound below 10 % and three e-folds"),
    Sub("complex", complexes(), test_complex, 400, 10000, rule="complex scalars and vectors, steps against the classical formula, adaptive runs against the exponential; non-trivial: an imaginary rate"),
], assumptions=["smooth right-hand sides with Lipschitz constant below 6; stepsize of the adaptive integrator not larger than the interval"], quick_scale=3)
