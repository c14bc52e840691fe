"""O05 just-in-time compilation never changes results: three copies of the package (numba present, blocked, disabled) side by side."""
import importlib
import inspect
import math
import sys
import warnings
import numpy as np
from harness import Check, Sub, Skip, st, grid, logfloat

COPIES = {}


def load(mode):
    """a fresh import of the whole package under one configuration of the accelerator"""
    if mode in COPIES:
        return COPIES[mode]
    saved = {k: m for k, m in sys.modules.items() if k == "einsteinpy" or k.startswith("einsteinpy.")}
    for k in saved:
        del sys.modules[k]
    had, numba = "numba" in sys.modules, sys.modules.get("numba")
    old = None
    try:
        if mode == "absent":
            sys.modules["numba"] = None
        else:
            import numba as nb
            old = nb.config.DISABLE_JIT
            nb.config.DISABLE_JIT = int(mode == "disabled")
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            names = ["einsteinpy.coordinates", "einsteinpy.coordinates.utils", "einsteinpy.ijit", "einsteinpy.metric", "einsteinpy.plotting.fractal",
                     "einsteinpy.plotting", "einsteinpy.geodesic", "einsteinpy.utils", "einsteinpy.integrators"]
            mods = {n: importlib.import_module(n) for n in names}
            mods["plot"] = sys.modules["einsteinpy.plotting.fractal"]
        COPIES[mode] = dict(mods, warned=any("numba" in str(x.message) for x in w))
    finally:
        if old is not None:
            nb.config.DISABLE_JIT = old
        for k in [k for k in sys.modules if k == "einsteinpy" or k.startswith("einsteinpy.")]:
            del sys.modules[k]
        sys.modules.update(saved)
        if mode == "absent":
            if had:
                sys.modules["numba"] = numba
            else:
                del sys.modules["numba"]
    return COPIES[mode]


MODES = ["present", "absent", "disabled"]


def setup():
    for m in MODES:
        load(m)
    # warm the compiled versions for the argument kinds used
    assert not isinstance(COPIES["absent"]["einsteinpy.coordinates.utils"].v0, type(None))


def cast(v, kind):
    if kind == "int":
        return int(round(v)) if abs(v) < 2 ** 62 else float(v)
    if kind == "int64":
        return np.int64(round(v)) if abs(v) < 2 ** 62 else np.float64(v)
    if kind == "float64":
        return np.float64(v)
    return float(v)


def call(f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            r = f(*a, **k)
        except ZeroDivisionError:
            return None
    return np.array(r, dtype=float).ravel()


def compare(rs, scale, what, rtol=1e-10):
    base = rs["absent"]
    for m in MODES:
        r = rs[m]
        if r is None or base is None:
            # division by zero: an exception in one configuration may be a nan in another, never a number in all components
            other = base if r is None else r
            if other is not None:
                assert not np.isfinite(other).all(), "%s: division by zero with numba %s only" % (what, m if r is None else "absent")
            continue
        assert r.shape == base.shape, "%s: %s results with numba %s, %s without" % (what, r.shape, m, base.shape)
        for i in range(len(r)):
            a, b = r[i], base[i]
            if not (np.isfinite(a) and np.isfinite(b)):
                assert np.isfinite(a) == np.isfinite(b), "%s[%d]: %r with numba %s, %r without" % (what, i, a, m, b)
                continue
            assert abs(a - b) <= rtol * max(abs(b), scale[i] if i < len(scale) else 0), "%s[%d]: %r with numba %s, %r without" % (what, i, a, m, b)


FUNCS = {  # name -> (needs alpha, cartesian input)
    "cartesian_to_spherical": (0, 1, 1), "cartesian_to_spherical_novel": (0, 1, 0), "cartesian_to_spherical_fast": (0, 1, 2),
    "cartesian_to_bl": (1, 1, 1), "cartesian_to_bl_novel": (1, 1, 0), "cartesian_to_bl_fast": (1, 1, 2),
    "spherical_to_cartesian": (0, 0, 1), "spherical_to_cartesian_novel": (0, 0, 0), "spherical_to_cartesian_fast": (0, 0, 2),
    "bl_to_cartesian": (1, 0, 1), "bl_to_cartesian_novel": (1, 0, 0), "bl_to_cartesian_fast": (1, 0, 2)}


def test_utils(c):
    alpha, cart, vel = FUNCS[c["f"]]
    q, v = [cast(x, k) for x, k in zip(c["q"], c["kinds"])], [cast(x, k) for x, k in zip(c["v"], c["kinds"])]
    if not cart:
        q = [cast(abs(c["q"][0]), c["kinds"][0]), cast(c["ang"][0], c["kinds"][1]), cast(c["ang"][1], c["kinds"][2])]
        v = [v[0], cast(c["v"][1] / 1e3, c["kinds"][1]), cast(c["v"][2] / 1e3, c["kinds"][2])]
    al = cast(c["al"], c["akind"])
    args = [cast(c["t"], c["kinds"][0])] + q + ([al] if alpha else [])
    kw = {}
    withv = vel == 1 or (vel == 2 and c["vel"])
    if withv:
        args += v
        if vel == 2:
            args.append(True)
    qf, vf, af = [float(x) for x in q], [float(x) for x in v], float(al)
    if cart:
        s2 = sum(x * x for x in qf)
        if alpha:
            w = s2 - af * af
            r2 = 0.5 * (w + math.sqrt(w * w + 4 * af * af * qf[2] ** 2))
            if r2 < 1e-5 * (s2 + af * af) or abs(w) < 1e-7 * (s2 + af * af):
                raise Skip("radius lost to cancellation")
        else:
            r2 = s2
        R, rho, V = math.sqrt(s2), math.hypot(qf[0], qf[1]), math.sqrt(sum(x * x for x in vf))
        if withv and rho < 1e-6 * R:
            raise Skip("near the axis")
        rr = math.sqrt(r2) if r2 > 0 else 1.0
        ang = V / rho * (R / rr) ** 3 if rho > 0 and rr else 0
        scale = [0, R, 0, 0, V * (R / rr) ** 2 if rr else 0, ang, ang]
    else:
        X = math.hypot(qf[0], af if alpha else 0)
        V = abs(vf[0]) + X * (abs(vf[1]) + abs(vf[2]))
        scale = [0, X, X, X, V, V, V]
    # angle components: relative to 1
    if cart:
        scale[2] = scale[3] = 1.0
    rs = {m: call(getattr(COPIES[m]["einsteinpy.coordinates.utils"], c["f"]), *args) for m in MODES}
    compare(rs, scale, c["f"])
    return [c["f"].replace("_novel", "").replace("_fast", ""), "velocities" if withv else "position"] + sorted({"%s arguments" % k for k in c["kinds"]})


mag = st.one_of(logfloat(-3, 6), logfloat(6, 12), grid(1, 1000, 4))
sgn = st.sampled_from([1, -1])
coord = st.one_of(st.tuples(mag, sgn).map(lambda t: t[0] * t[1]), st.just(0.0))
KIND = st.sampled_from(["float", "float", "int", "float64", "int64"])
UTILS = st.fixed_dictionaries(dict(
    f=st.sampled_from(sorted(FUNCS)), t=grid(-5, 5, 4), q=st.tuples(coord, coord, coord), v=st.tuples(*[grid(-3e3, 3e3, 1)] * 3),
    ang=st.tuples(grid(0.05, 3.1), grid(-3, 3)), al=st.one_of(st.just(0.0), mag), akind=KIND, vel=st.booleans(),
    kinds=st.one_of(KIND.map(lambda k: (k,) * 3), st.tuples(KIND, KIND, KIND))))


def test_v0(c):
    L = np.array([[1.0, 0, 0, 0]] + [[0.0] * 4] * 3)
    for i in range(4):
        for j in range(i + 1):
            L[i, j] = c["L"][i * (i + 1) // 2 + j]
        L[i, i] = 1 + abs(L[i, i])
    g = L @ np.diag([1.0, -1, -1, -1]) @ L.T
    if c["si"]:
        s = np.array([299792458.0, 1, 1, 1])
        g = g * np.outer(s, s)
    if c["intg"]:
        g = np.round(g).astype(np.int64)
    if g[0, 0] <= 0:
        raise Skip("time coordinate not timelike")
    v = [cast(x, k) for x, k in zip(c["v"], c["kinds"])]
    rs = {m: call(COPIES[m]["einsteinpy.coordinates.utils"].v0, g, *v) for m in MODES}
    gf, vf = g.astype(float), [float(x) for x in v]
    B = 2 * sum(abs(gf[0, k + 1] * vf[k]) for k in range(3))
    D = B * B + 4 * gf[0, 0] * (sum(abs(gf[i + 1, j + 1] * vf[i] * vf[j]) for i in range(3) for j in range(3)) + 9e16)
    compare(rs, [(B + math.sqrt(D)) / gf[0, 0]], "v0", 1e-9)
    return ["integer metric" if c["intg"] else "float metric"] + sorted({"%s arguments" % k for k in c["kinds"]})


V0 = st.fixed_dictionaries(dict(L=st.lists(grid(-0.5, 0.5, 8), min_size=10, max_size=10), v=st.tuples(*[st.one_of(grid(-1e3, 1e3, 2), grid(-1e8, 1e8, 0.001))] * 3),
                                kinds=st.tuples(KIND, KIND, KIND), si=st.booleans(), intg=st.booleans()))


def test_objects(c):
    """coordinate objects and conversion classes"""
    from astropy import units as u
    rs, scale = {}, None
    for m in MODES:
        M = COPIES[m]["einsteinpy.coordinates"]
        if c["api"] == "object":
            x = [c["t"] * u.s] + [w * u.km for w in c["q"]]
            v = [w * u.km / u.s for w in c["v"]]
            obj = M.CartesianDifferential(*x, *v) if c["vel"] else M.Cartesian(*x)
            if c["vel"]:
                o = obj.spherical_differential() if c["to"] == "s" else obj.bl_differential(M=c["M"] * u.kg, a=c["a"] * u.one)
            else:
                o = obj.to_spherical() if c["to"] == "s" else obj.to_bl(M=c["M"] * u.kg, a=c["a"] * u.one)
            back = (o.cartesian_differential if c["vel"] else o.to_cartesian)(**({} if c["to"] == "s" else dict(M=c["M"] * u.kg, a=c["a"] * u.one)))
            rs[m] = np.concatenate([np.array([float(getattr(q, "value", q)) for q in z.values()]) for z in (o, back)])
        else:
            a = [cast(w, k) for w, k in zip([c["t"]] + list(c["q"]) + (list(c["v"]) if c["vel"] else []), list(c["kinds"]))]
            o = M.CartesianConversion(*a)
            r = o.convert_spherical() if c["to"] == "s" else o.convert_bl(M=c["M"], a=c["a"])
            cls = M.SphericalConversion if c["to"] == "s" else M.BoyerLindquistConversion
            back = cls(*r).convert_cartesian(**({} if c["to"] == "s" else dict(M=c["M"], a=c["a"])))
            rs[m] = np.concatenate([np.array(r, dtype=float), np.array(back, dtype=float)])
    base = rs["absent"]
    n = len(base) // 2
    q = [float(w) for w in c["q"]]
    R, rho = math.sqrt(sum(w * w for w in q)), math.hypot(q[0], q[1])
    if rho < 1e-3 * R or R == 0:
        raise Skip("near the axis")
    V = math.sqrt(sum(w * w for w in c["v"]))
    k = 1e3 if c["api"] == "object" else 1.0
    scale = [0, k * R, 1, 1, k * V, V / rho, V / rho][:n] + [0, k * R, k * R, k * R, k * V, k * V, k * V][:n]
    if c["api"] != "object":
        scale = [s * 1.0 for s in scale]
    compare(rs, scale, "%s to %s" % (c["api"], "spherical" if c["to"] == "s" else "Boyer-Lindquist"), 1e-9)
    return [c["api"], c["to"], "velocities" if c["vel"] else "positions"]


OBJ = st.fixed_dictionaries(dict(api=st.sampled_from(["object", "conversion"]), to=st.sampled_from("sb"), vel=st.booleans(), t=grid(-5, 5, 4), q=st.tuples(*[grid(1, 1e10, 0.01), grid(-1e10, 1e10, 0.01), grid(-1e10, 1e10, 0.01)]),
                                 v=st.tuples(*[grid(-3e3, 3e3, 1)] * 3), M=logfloat(20, 31), a=grid(0, 1, 10), kinds=st.lists(KIND, min_size=7, max_size=7)))


# ------------------------------------------------------------- the decorator
def test_decorator(c):
    res = {}
    for m in MODES:
        jit = COPIES[m]["einsteinpy.ijit"].jit
        body = {"poly": lambda x, y=2: x * x + 3 * x * y - y, "trig": lambda x, y=2: math.sin(x) * y + math.cos(y)}[c["body"]]

        def f(x, y=2):
            return x * x + 3 * x * y - y

        def g(x, y=2):
            return math.sin(x) * y + math.cos(y)
        h = f if c["body"] == "poly" else g
        import numba
        old = numba.config.DISABLE_JIT
        numba.config.DISABLE_JIT = int(m == "disabled")
        try:
            if c["form"] == "signature":
                def h2(x, y):
                    return x * x + 3 * x * y - y
                d = jit("float64(float64, float64)")(h2)
                xs = [float(v) for v in c["args"]]
                assert callable(d) and d.__name__ == "h2"
                assert abs(float(d(*xs)) - h2(*xs)) <= 1e-12 * (1 + abs(h2(*xs))), "numba %s, signature given: %s, undecorated %s" % (m, d(*xs), h2(*xs))
                continue
            d = {"bare": lambda: jit(h), "empty": lambda: jit()(h), "keyword": lambda: jit(cache=False)(h), "nogil": lambda: jit(nogil=True)(h)}[c["form"]]()
        finally:
            numba.config.DISABLE_JIT = old
        assert callable(d)
        assert d.__name__ == h.__name__, "name %s" % d.__name__
        assert str(inspect.signature(d)) == str(inspect.signature(h)), "signature %s" % inspect.signature(d)
        a = [cast(x, k) for x, k in zip(c["args"], c["kinds"])]
        res[m] = np.array([float(d(*a)), float(d(a[0])), float(d(a[0], y=a[1])), float(d(x=a[0], y=a[1]))])
        want = np.array([float(body(*a)), float(body(a[0])), float(body(*a)), float(body(*a))])
        assert np.allclose(res[m], want, rtol=1e-12, atol=1e-12), "numba %s: %s, undecorated %s" % (m, res[m], want)
    assert COPIES["absent"]["warned"], "no warning about the missing accelerator"
    assert not COPIES["present"]["warned"]
    return [c["form"], c["body"]]


DEC = st.fixed_dictionaries(dict(form=st.sampled_from(["bare", "empty", "keyword", "nogil", "signature"]), body=st.sampled_from(["poly", "trig"]), args=st.tuples(grid(-9, 9, 4), grid(-9, 9, 4)), kinds=st.tuples(KIND, KIND)))


def undefined(x, y):
    return 1.0 if x != x else 2.0 if y != y else 3.0


def infinite(x, y):
    p = x * y
    return 1.0 if math.isinf(p) else 2.0 if math.isnan(p) else 3.0


def rounding(x, y):
    s = x + y
    b = s - x
    return (x - (s - b)) + (y - b)


def signs(x, y):
    return math.copysign(1.0, x * y) + 4.0 * math.copysign(1.0, x + y)


def order(x, y):
    r = 0.0
    for k in range(9):
        r += x
        r += y
        r -= x
    return r


BODIES = dict(undefined=undefined, infinite=infinite, rounding=rounding, signs=signs, order=order)


def test_floating(c):
    """the decorator changes nothing about floating point numbers: infinite, undefined, signed zeros, rounding errors"""
    h = BODIES[c["body"]]
    for m in MODES:
        import numba
        old = numba.config.DISABLE_JIT
        numba.config.DISABLE_JIT = int(m == "disabled")
        try:
            jit = COPIES[m]["einsteinpy.ijit"].jit
            d = jit(h) if c["form"] == "bare" else jit()(h)
        finally:
            numba.config.DISABLE_JIT = old
        for x, y in c["args"]:
            x, y = float(x), float(y)
            got, want = float(d(x, y)), h(x, y)
            assert got == want or (got != got and want != want), "numba %s: %s(%r, %r) = %r, undecorated %r" % (m, c["body"], x, y, got, want)
    return [c["body"], c["form"]]


ODD = st.one_of(st.sampled_from(["nan", "inf", "-inf", "0.0", "-0.0", "1e200", "-1e308", "1e-200", "1e16", "5e-324", "0.1", "-3.0"]), st.floats(-1e6, 1e6, allow_nan=False).map(repr))
FLT = st.fixed_dictionaries(dict(body=st.sampled_from(sorted(BODIES)), form=st.sampled_from(["bare", "empty"]), args=st.lists(st.tuples(ODD, ODD), min_size=8, max_size=24)))


def test_fractal(c):
    A = {}
    import io, contextlib
    for m in MODES:
        with contextlib.redirect_stdout(io.StringIO()):
            fig = COPIES[m]["plot"].fractal(c["angle"], c["angle"], 1, show=False)
        A[m] = np.array(fig.data[0].z, dtype=float)
    for m in MODES:
        bad = np.mean(abs(A[m] - A["absent"]) > 1e-9)
        assert A[m].shape == A["absent"].shape and bad < 0.01, "%.2f%% of the pixels differ with numba %s" % (100 * bad, m)
    return ["fractal"]


CHECK = Check("O05", [
    Sub("utils", UTILS, test_utils, quick=16000, thorough=120000, shards=8, rule="the twelve conversion functions with float, int, numpy float and numpy int arguments over 15 decades; non-trivial: all", case_timeout=120),
    Sub("v0", V0, test_v0, quick=400, thorough=8000, shards=4, rule="generated Lorentzian metrics; non-trivial: all", case_timeout=120),
    Sub("objects", OBJ, test_objects, quick=300, thorough=6000, shards=4, rule="coordinate objects and conversion classes, there and back; non-trivial: all", case_timeout=120),
    Sub("decorator", DEC, test_decorator, quick=60, thorough=600, shards=4, rule="decorator forms; non-trivial: all", case_timeout=120),
    Sub("floating", FLT, test_floating, quick=24, thorough=400, shards=4, rule="decorated functions on infinite, undefined, signed zero and rounding-sensitive arguments; non-trivial: all", case_timeout=120),
    Sub("fractal", st.fixed_dictionaries(dict(angle=grid(1, 3.14, 100))), test_fractal, quick=4, thorough=16, shards=4, rule="one image; non-trivial: all", case_timeout=300),
], setup=setup, assumptions=["'absent' is simulated by making the import of numba fail, 'disabled' by numba's own switch",
                             "where a division by zero occurs, an exception in one configuration may be a nan in another",
                             "tolerance 1e-10 of the size of the terms (the configurations use different libm implementations); integers below 2^62"], quick_scale=2)
