"""O01 cosmological scale factor and its derivative."""
import mpmath as mp
import numpy as np
from astropy import units as u
from harness import Check, Sub, Skip, st, grid, logfloat, raises
from einsteinpy import constant
from einsteinpy.utils.scalar_factor import scalar_factor, scalar_factor_derivative

UNITS = {"s": 1.0, "ms": 1e-3, "min": 60.0, "hour": 3600.0, "day": 86400.0, "yr": 31557600.0, "Gyr": 31557600.0e9}
H = mp.sqrt(mp.mpf(2.036e-35) / 3)


def want(era, T, p):
    T, p = mp.mpf(T), mp.mpf(p)
    if era == "md":
        return p * T ** (mp.mpf(2) / 3), p * mp.mpf(2) / 3 * T ** (-mp.mpf(1) / 3)
    if era == "rd":
        return p * mp.sqrt(T), p / (2 * mp.sqrt(T))
    return p * mp.exp(H * T), p * H * mp.exp(H * T)


def kwargs(c):
    kw = {}
    if c["era"] != "md" or c["explicit"]:
        kw["era"] = c["era"]
    if c["p"] != 1.0 or c["explicit"]:
        kw["tuning_param"] = c["p"]
    return kw


def quantity(c):
    return (c["t"] / UNITS[c["unit"]]) * getattr(u, c["unit"])


def test_value(c):
    if c["era"] == "ded" and c["t"] > 1e20:
        raise Skip("overflow of the exponential")
    q, kw = quantity(c), kwargs(c)
    a, d = (scalar_factor(q, c["era"], c["p"]), scalar_factor_derivative(q, c["era"], c["p"])) if c["positional"] else (scalar_factor(q, **kw), scalar_factor_derivative(q, **kw))
    wa, wd = want(c["era"], c["t"], c["p"])
    tol = 1e-11
    for got, w, what in ((a, wa, "a(t)"), (d, wd, "da/dt")):
        got = float(u.Quantity(got).value)
        assert got > 0 and np.isfinite(got), "%s = %r" % (what, got)
        assert abs(got - float(w)) <= tol * float(w), "%s: %r, expected %r" % (what, got, float(w))
    # increasing
    b = scalar_factor(q * c["step"], **kw)
    if c["era"] != "ded" or c["t"] > 1e10:
        assert float(u.Quantity(b).value) > float(u.Quantity(a).value), "not increasing"
    # linear in the tuning parameter
    k = scalar_factor(q, era=c["era"], tuning_param=2 * c["p"])
    assert abs(float(u.Quantity(k).value) - 2 * float(u.Quantity(a).value)) <= 1e-12 * abs(float(wa)) * 2
    return [c["era"], c["unit"]] + (["defaults"] if not kw else [])


def test_derivative(c):
    """the derivative function against a difference quotient of the scale factor itself, extrapolated"""
    if c["era"] == "ded":
        c = dict(c, t=10 ** (16 + (np.log10(c["t"]) + 30) % 4))
    T, kw = c["t"], kwargs(c)
    f = lambda x: float(u.Quantity(scalar_factor(x * u.s, **kw)).value)
    h = 1e-3 * T if c["era"] != "ded" else 1e-3 / float(H)
    if c["era"] == "ded" and T <= 2 * h:
        h = T / 4
    D = (8 * (f(T + h) - f(T - h)) - (f(T + 2 * h) - f(T - 2 * h))) / (12 * h)
    d = float(u.Quantity(scalar_factor_derivative(T * u.s, **kw)).value)
    assert abs(D - d) <= 1e-8 * abs(d) + 1e-13 * f(T) / h * 4, "derivative function %r, slope of the scale factor %r" % (d, D)
    return [c["era"]]


def test_array(c):
    ts = np.array(c["ts"])
    for f in (scalar_factor, scalar_factor_derivative):
        got = u.Quantity(f(ts * u.s, era=c["era"], tuning_param=c["p"])).value
        one = [float(u.Quantity(f(t * u.s, era=c["era"], tuning_param=c["p"])).value) for t in c["ts"]]
        assert np.shape(got) == ts.shape and np.allclose(got, one, rtol=1e-12, atol=0), "array of times: %s, one by one %s" % (got, one)
    return [c["era"], "array"]


def test_refused(c):
    f = [scalar_factor, scalar_factor_derivative][c["which"]]
    if c["kind"] == "era":
        raises(ValueError, f, c["t"] * u.s, era=c["text"])
        return ["era"]
    bad = {"none": c["t"], "m": c["t"] * u.m, "kg": c["t"] * u.kg, "1/s": c["t"] / u.s, "one": c["t"] * u.one, "rad": c["t"] * u.rad, "m/s": c["t"] * u.m / u.s}[c["unit"]]
    raises((u.UnitsError, TypeError), f, bad, era=c["era"])
    return ["unit " + c["unit"]]


ERA = st.sampled_from(["md", "rd", "ded"])
T = st.one_of(logfloat(-6, 20), grid(1, 1000, 10), st.sampled_from([1.0, 4.35e17, 8.0, 27.0, 100.0]))
P = st.one_of(st.just(1.0), logfloat(-6, 6))
COMMON = dict(era=ERA, t=T, p=P, explicit=st.booleans())
CHECK = Check("O01", [
    Sub("value", st.fixed_dictionaries(dict(COMMON, unit=st.sampled_from(sorted(UNITS)), positional=st.booleans(), step=grid(1.01, 3))), test_value, quick=1500, thorough=40000,
        rule="26 decades of time in seven units, 12 decades of the tuning parameter; non-trivial: all"),
    Sub("derivative", st.fixed_dictionaries(COMMON), test_derivative, quick=500, thorough=10000, rule="fourth-order difference quotient; non-trivial: all"),
    Sub("array", st.fixed_dictionaries(dict(era=ERA, p=P, ts=st.lists(T.filter(lambda t: t < 1e20), min_size=1, max_size=5))), test_array, quick=200, thorough=3000, rule="arrays of times; non-trivial: all"),
    Sub("refused", st.fixed_dictionaries(dict(which=st.integers(0, 1), kind=st.sampled_from(["era", "unit"]), t=T, era=ERA, unit=st.sampled_from(["none", "m", "kg", "1/s", "one", "rad", "m/s"]),
                                              text=st.one_of(st.sampled_from(["MD", "matter", "", "d", "de", "ded ", "r", "mdx", "rdd"]), st.text(max_size=4)).filter(lambda s: s not in ("md", "rd", "ded")))), test_refused,
        quick=300, thorough=3000, rule="unknown eras and times without time units; non-trivial: all"),
], assumptions=["dark-energy rate sqrt(Lambda/3) with the cosmological constant 2.036e-35 s^-2 of the package"], quick_scale=10)
