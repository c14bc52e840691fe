"""O02 black hole shadow: rays, turning points, intensities, symmetry, scaling, smoothing."""
import math
import numpy as np
from astropy import units as u
from scipy.integrate import quad
from scipy.interpolate import CubicSpline
from harness import Check, Sub, Skip, st, grid, logfloat, raises
from einsteinpy.rays import Shadow

MU = {"kg": u.kg, "g": u.g, "tonne": 1000 * u.kg}
FU = {"km": u.km, "m": u.m, "Mm": 1000 * u.km}


def make(c, k=1.0):
    """mass and field of view are numbers of kg and km, in the geometrised units of the class"""
    m = (c["M"] * k / (1 * MU[c["mu"]]).to(u.kg).value) * MU[c["mu"]]
    f = (c["M"] * k * c["fov"] / (1 * FU[c["fu"]]).to(u.km).value) * FU[c["fu"]]
    kw = {} if c["limit"] is None else dict(limit=c["limit"] * c["M"] * k)
    if c["limit"] is None and k != 1.0:
        kw = dict(limit=0.001 * k)
    return Shadow(mass=m, n_rays=c["n"], fov=f, **kw)


def arr(x):
    return np.array([float(u.Quantity(v).value) for v in np.ravel(x)])


def turning(M, b):
    """outermost root of r^3 - b^2 r + 2 M b^2, by bisection from above (decreasing beyond b/sqrt(3))"""
    f = lambda r: r ** 3 - b * b * (r - 2 * M)
    lo, hi = b / math.sqrt(3), b
    for _ in range(200):
        mid = (lo + hi) / 2
        if f(mid) > 0:
            hi = mid
        else:
            lo = mid
    return (lo + hi) / 2


def integrand(M, b, sg):
    """g^3/(r^2 w), g = f/(1 +- w sqrt(2M/r)): matter in free fall from rest, emissivity 1/r^2 (Bambi 2013)"""
    def h(r):
        f = 1 - 2 * M / r
        w = np.sqrt(np.maximum(1 - b * b * f / r ** 2, 0))
        return (f / (1 + sg * w * np.sqrt(2 * M / r))) ** 3 / (r * r * w)
    return h


def gauss(h, a, b, n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (b - a) / 2 * float(np.sum(w * h((b - a) / 2 * (x + 1) + a)))


ORDERS = [5] + list(range(6, 33)) + [40, 50, 64, 100]


def agrees(got, parts, exact):
    """the Gauss sum of some order >= 5, or the integral itself to 0.1 %"""
    for n in ORDERS:
        w = sum(gauss(h, a, b, n) for h, a, b in parts)
        if np.isfinite(w) and abs(got - w) <= 1e-7 * abs(w):
            return True
    t = exact()
    return t is not None and abs(got - t) <= 1e-3 * abs(t)


def test_rays(c):
    s = make(c)
    M = c["M"]
    F, bc = M * c["fov"], 3 * math.sqrt(3) * M
    limit = 0.001 if c["limit"] is None else c["limit"] * M
    assert abs(float(u.Quantity(s.b_crit).value) - bc) <= 1e-12 * bc, "critical impact parameter %s" % s.b_crit
    outer, inner = arr(s.bfin), arr(s.b2)
    if F <= bc:
        assert len(outer) == 0, "rays outside the critical impact parameter with the field of view inside it"
        want = []
    else:
        want = [x for x in np.linspace(bc, F, c["n"]) if x > bc * (1 + 1e-14)]
    assert len(outer) == len(want) and np.allclose(outer, want, rtol=1e-12), "%d rays outside the critical impact parameter, expected %d" % (len(outer), len(want))
    z = np.array(s.z, dtype=float).reshape(-1, 2)
    assert len(z) == len(outer), "%d turning points for %d rays" % (len(z), len(outer))
    inten = arr(s.intensity)
    fb1, fb2 = arr(s.fb1), arr(s.fb2)
    assert len(fb1) == len(fb2) == len(inten) == len(outer) + len(inner), "lengths: fb1 %d, fb2 %d, intensity %d, rays %d + %d" % (len(fb1), len(fb2), len(inten), len(inner), len(outer))
    assert (fb2 == -fb1).all(), "the profile is not symmetric"
    if len(outer) == 0:
        return ["trivial", "no ray outside"]
    assert np.allclose(np.concatenate([inner, outer]), fb1, rtol=1e-13), "fb1"
    assert len(inner) == len(outer) and np.allclose(inner, np.linspace(limit, bc, len(outer)), rtol=1e-12, atol=1e-12 * bc), "rays inside the critical impact parameter"
    for (b, r), b0 in zip(z, outer):
        w = turning(M, b0)
        tol = 1e-12 / math.sqrt(b0 / bc - 1) + 1e-13
        assert abs(b - b0) <= 1e-13 * b0 and abs(r - w) <= tol * w, "turning point of b = %r: %r, expected %r" % (b0, r, w)
    pick = sorted({0, len(outer) - 1, c["pick"] % len(outer), (7 * c["pick"]) % len(outer)})
    if F <= z[pick[0]][1] * (1 + 1e-9):
        raise Skip("field of view at the turning point")
    for i in pick:
        b, r = z[i]
        if b / bc - 1 < 1e-6 or F < r * (1 + 1e-6):
            continue
        hr, hb = integrand(M, b, 1), integrand(M, b, -1)

        def exact():
            g = lambda x: 2 * x * (hr(r + x * x) + hb(r + x * x))
            return quad(g, 1e-7 * math.sqrt(F - r), math.sqrt(F - r), limit=400)[0]
        got = inten[len(inner) + i]
        assert agrees(got, [(hr, r, F), (hb, r, F)], exact), "intensity of the ray b = %r: %r, integral %r" % (b, got, exact())
    for i in pick:
        b = inner[i]
        h = integrand(M, b, 1)
        exact = lambda: quad(h, 2 * M * (1 + 1e-12), F, limit=400)[0] if b < bc * (1 - 1e-6) else None
        assert agrees(inten[i], [(h, 2 * M, F)], exact), "intensity of the ray b = %r: %r, integral %r" % (b, inten[i], exact())
    return ["units %s %s" % (c["mu"], c["fu"]), "default limit" if c["limit"] is None else "limit given"]


def test_scaling(c):
    if c["fov"] <= 3 * math.sqrt(3):
        raise Skip("no ray outside")
    c = dict(c, limit=c["limit"] or 1e-3)
    a, b = make(c), make(c, c["k"])
    k = c["k"]
    tol = 1e-8 * (1 + 1 / math.sqrt(c["fov"] / (3 * math.sqrt(3)) - 1))
    assert np.allclose(arr(b.fb1), k * arr(a.fb1), rtol=1e-11), "impact parameters do not scale with the mass"
    A, B = arr(a.intensity), arr(b.intensity) * k
    # the ray at the critical impact parameter has a divergent integral: sum over nodes is scale free as well
    assert len(A) == len(B) and np.allclose(A, B, rtol=max(tol, 1e-6) * 10), "intensities do not scale with 1/mass"
    # units: the same numbers in other units
    d = make(dict(c, mu="kg", fu="km"))
    assert np.allclose(arr(d.fb1), arr(a.fb1), rtol=1e-11) and np.allclose(arr(d.intensity), A, rtol=1e-5), "the units of mass or field of view matter"
    return ["scaled"]


def test_smooth(c):
    if c["fov"] <= 5.5 or c["n"] < 5:
        raise Skip("fewer than four points")
    s = make(c)
    x, y = arr(s.fb1), arr(s.intensity)
    p = c["points"]
    if p is None:
        s.smoothen()
        p = 500
    elif c["positional"]:
        s.smoothen(p)
    else:
        s.smoothen(points=p)
    X, Y, X2 = arr(s.fb1), arr(s.intensity), arr(s.fb2)
    assert len(X) == len(Y) == len(X2) == p, "%d points, requested %d" % (len(X), p)
    assert np.allclose(X, np.linspace(x.min(), x.max(), p), rtol=1e-12), "smoothed impact parameters"
    assert (X2 == -X).all(), "not symmetric"
    W = CubicSpline(x, y)(X)
    assert np.allclose(Y, W, rtol=1e-6, atol=1e-6 * abs(y).max()), "the smoothed curve does not interpolate the profile"
    return ["points default" if c["points"] is None else "points given"]


def test_refused(c):
    good = dict(mass=1 * u.kg, fov=30 * u.km, n_rays=4)
    bad = {"mass": [1 * u.m, 1 * u.one, 1.0, 1 * u.kg / u.s], "fov": [1 * u.kg, 30.0, 30 * u.rad, 3 * u.s]}[c["what"]][c["i"]]
    raises((u.UnitsError, TypeError), Shadow, **dict(good, **{c["what"]: bad}))
    return [c["what"]]


BASE = dict(M=logfloat(-3, 6), fov=st.one_of(grid(5.3, 60, 10), grid(1, 5.1, 10), logfloat(1, 3)), n=st.integers(1, 40), limit=st.none() | st.sampled_from([1e-3, 1e-2, 0.5]),
            mu=st.sampled_from(sorted(MU)), fu=st.sampled_from(sorted(FU)), pick=st.integers(0, 39))
OUT = dict(BASE, fov=st.one_of(grid(5.5, 60, 10), logfloat(1, 3)), n=st.integers(5, 40))
CHECK = Check("O02", [
    Sub("rays", st.fixed_dictionaries(BASE), test_rays, quick=1500, thorough=20000, rule="nine decades of mass, field of view from M to 1000 M; non-trivial: at least one ray outside", nontrivial=lambda c: c["n"] > 1),
    Sub("scaling", st.fixed_dictionaries(dict(OUT, k=logfloat(-2, 3))), test_scaling, quick=300, thorough=2000, rule="mass scaled over five decades; non-trivial: all"),
    Sub("smoothen", st.fixed_dictionaries(dict(OUT, points=st.none() | st.integers(2, 300), positional=st.booleans())), test_smooth, quick=300, thorough=2000, rule="2 to 500 points; non-trivial: all"),
    Sub("refused", st.fixed_dictionaries(dict(what=st.sampled_from(["mass", "fov"]), i=st.integers(0, 3))), test_refused, quick=16, thorough=16, shards=1, rule="wrong units; non-trivial: all"),
], assumptions=["the class takes the numbers of kg and km as geometrised lengths", "intensities are accepted when they equal the Gauss sum of some order >= 5 (the code documents a quadrature) or the integral to 0.1 %",
                "the ray at the critical impact parameter itself has a divergent integral: only the quadrature sum is compared"], quick_scale=8)
