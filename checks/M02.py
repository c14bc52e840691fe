"""M02 Christoffel symbols are the Levi-Civita connection."""
import math
import numpy as np
from harness import Check, Sub, Skip, close, st, grid, logfloat
import bh, textbook as tb


def amp(c):
    kd, ks = bh.horizon_cond(c, 1e-4)
    rs, al, q2 = bh.lengths(c)
    k = kd * kd * ks * ks * (1 + c["r"] / rs)
    if k > 1e10:
        raise Skip("ill conditioned")
    return k


def tolerance(c, k, g, gi, sc):
    # rounding of each term, plus cancellations inside the closed forms of the derivatives
    kd, ks = bh.horizon_cond(c, 0)
    nat = tb.natural(g, gi, c["r"]) * (sc != 0)
    return (1e-12 + 1e-14 * k) * sc + 1e-14 * kd * ks * nat


@bh.paired
def test_textbook(c):
    k = amp(c)
    rs, al, q2 = bh.lengths(c)
    g, gi, Gm, sc = tb.connection(c["r"], c["th"], rs, al, q2)
    m = bh.metric(c)
    got = np.asarray(m.christoffels(bh.xvec(c)))
    close(got, Gm, rtol=0, atol=tolerance(c, k, g, gi, sc), what="Gamma ")
    assert np.array_equal(got, got.transpose(0, 2, 1)) or np.allclose(got, got.transpose(0, 2, 1), rtol=1e-13, atol=0)
    if c.get("near"):
        bh.walk(c, lambda: bh.metric(c), [c["t"], c["r"], c["th"], c["ph"]], lambda o, x: o.christoffels(x))
    return [c["kind"], bh.where(c)] + (["walk"] if c.get("near") else []) + bh.whole_event(c, m, ("christoffels",))


STENCIL = ((1, 45 / 60), (2, -9 / 60), (3, 1 / 60))


@bh.paired
def test_own(c):
    kd, ks = bh.horizon_cond(c, 0.05)
    rs, al, q2 = bh.lengths(c)
    m = bh.metric(c)
    x0 = np.array([c["t"], c["r"], c["th"], c["ph"]])
    ms = [1.0 if c["t"] == 0 else abs(c["t"]), c["r"], 1.0, 1.0]
    # characteristic rate of g^-1 against t-r-theta-phi: 6th order central differences
    g = np.asarray(m.metric_covariant(x0))
    gi = np.linalg.inv(g / np.outer(*(np.sqrt(abs(np.diag(g))),) * 2)) / np.outer(*(np.sqrt(abs(np.diag(g))),) * 2)
    sth = min(math.sin(c["th"]), 1.0)
    h = [1e-3 * ms[0], 1e-3 * c["r"] * min(1.0, 3 / kd), 2e-3 * sth, 1e-3]
    dg = np.zeros((4, 4, 4))
    for k in range(4):
        for n, w in STENCIL:
            e = np.zeros(4)
            e[k] = n * h[k]
            dg[k] += w * (np.asarray(m.metric_covariant(x0 + e)) - np.asarray(m.metric_covariant(x0 - e))) / h[k]
    low = 0.5 * (np.einsum("bdc->dbc", dg) + np.einsum("cdb->dbc", dg) - dg)
    want = np.einsum("ad,dbc->abc", gi, low)
    gd = np.sqrt(abs(np.diag(g)))
    # rounding of one metric component over the step, in the frame scaled by sqrt|g_aa|
    err = np.zeros((4, 4, 4))
    for k in range(4):
        err[k] = np.outer(gd, gd) / (h[k] if k in (1, 2) else np.inf)
    lerr = np.einsum("bdc->dbc", err) + np.einsum("cdb->dbc", err) + err
    sc = np.einsum("ad,dbc->abc", np.abs(gi), np.abs(lerr))
    sc2 = np.einsum("ad,dbc->abc", np.abs(gi), np.abs(low))
    got = np.asarray(m.christoffels(bh.xvec(c)))
    close(got, want, rtol=0, atol=1e-6 * sc2 + 1e-13 * kd * ks ** 2 * sc, what="Gamma against the metric's own derivatives ")
    return [c["kind"], bh.where(c)]


@st.composite
def generic(draw):
    c = draw(bh.hole_events(kinds=("Kerr", "KerrNewman"), outside=True))
    c["a"] = draw(grid(0.2, 1, 10))
    c["th"] = draw(st.one_of(grid(0.3, 1.3, 20), grid(1.8, 2.8, 20)))
    c["r"] = draw(grid(2.2, 8, 10)) * tb.G * c["M"] / tb.C ** 2
    return c


def test_list(c):
    m = bh.metric(c)
    got = np.asarray(m.christoffels(bh.xvec(c)))
    from einsteinpy.metric import Kerr
    lst = Kerr.nonzero_christoffels()
    if c["kind"] == "Kerr":
        assert sorted(map(tuple, m.nonzero_christoffels())) == sorted(map(tuple, lst))
    names = [tuple(int(v) for v in t) for t in lst]
    assert len(set(names)) == len(names), "repeated entries"
    rs, al, q2 = bh.lengths(c)
    _, _, Gm, sc = tb.connection(c["r"], c["th"], rs, al, q2)
    want = {tuple(map(int, i)) for i in np.argwhere(abs(Gm) > 1e-9 * sc)}
    zero = {tuple(map(int, i)) for i in np.argwhere(sc == 0)}
    assert want | zero == {(i, j, k) for i in range(4) for j in range(4) for k in range(4)}, "oracle"
    assert set(names) == want, (sorted(set(names) ^ want))
    code = {tuple(map(int, i)) for i in np.argwhere(got != 0)}
    assert code == want, sorted(code ^ want)
    return [c["kind"]]


nt = lambda c: c["kind"] == "Schwarzschild" or (c["a"] > 0 and (c["kind"] == "Kerr" or c["Q"] != 0))
CHECK = Check("M02", [
    Sub("textbook", bh.hole_events(), test_textbook, 4500, 90000, nontrivial=nt,
        rule="random hole and event on any side of the horizons, 45-digit differentiation of the textbook metric; non-trivial: rotating (and charged for Kerr-Newman), or Schwarzschild"),
    Sub("own_metric", bh.hole_events(), test_own, 2500, 60000, nontrivial=nt,
        rule="6th-order differences of the code's own metric_covariant; non-trivial as above"),
    Sub("nonzero_list", generic(), test_list, 400, 4000, nontrivial=nt,
        rule="generic rotating hole and event: published index list = actually non-zero components; non-trivial as above"),
], assumptions=["|Delta| >= 1e-4 of its terms; theta in [0.01, pi-0.01]"])
