"""M03 geodesic right-hand side."""
import math
import numpy as np
from harness import Check, Sub, Skip, KnownFinding, close, st, grid, logfloat
import bh, textbook as tb
from checks.M02 import amp, tolerance

C = tb.C


@st.composite
def states(draw, charged=False):
    c = draw(bh.hole_events(kinds=("KerrNewman",) if charged else bh.KINDS))
    comp = st.one_of(grid(-1, 1, 100), st.sampled_from([0.0, 1.0, -1.0]))
    n = [draw(comp) for _ in range(4)]
    b = draw(st.sampled_from([1.0, 0.1, 1e-3, 30.0]))
    # u in arbitrary direction of the tangent space: components of comparable proper size
    c["u"] = [n[0] if draw(st.booleans()) else 1.0, b * n[1] * C, b * n[2] * C / c["r"], b * n[3] * C / c["r"]]
    c["lam"] = draw(st.sampled_from([0.0, 1.0, -3.5, 1e4]))
    if charged:
        c["a"] = draw(grid(0, 1, 20))
        c["qs"] = draw(st.sampled_from([0.0, 1e-12, 1e-3, 1.0, -2.0, 1e6, 1.7e11, -3e4])) if draw(st.booleans()) else draw(grid(-5, 5, 10))
        if draw(st.integers(0, 3)) == 0:
            c["Q"] = 0.0
    return c


def geodesic(c, sc_only=False):
    rs, al, q2 = bh.lengths(c)
    g, gi, Gm, sc = tb.connection(c["r"], c["th"], rs, al, q2)
    u = np.array(c["u"], dtype=float)
    acc = -np.einsum("abc,b,c->a", Gm, u, u)
    s = np.einsum("abc,b,c->a", tolerance(c, amp(c), g, gi, sc), abs(u), abs(u))
    return g, Gm, u, acc, s


@bh.paired
def test_free(c):
    k = amp(c)
    g, Gm, u, acc, s = geodesic(c)
    m = bh.metric(c)
    vec = np.array([c["t"], c["r"], c["th"], c["ph"], *c["u"]], dtype=float)
    keep = vec.copy()
    got = np.asarray(m.f_vec(c["lam"], vec))
    assert np.array_equal(vec, keep), "state modified"
    assert got.shape == (8,)
    close(got[:4], u, rtol=0, what="velocity part ")
    close(got[4:], acc, rtol=0, atol=2 * s, what="acceleration ")
    # exactly its own connection
    own = np.asarray(m.christoffels(vec[:4]))
    close(got[4:], -np.einsum("abc,b,c->a", own, u, u), rtol=0,
          atol=1e-13 * np.einsum("abc,b,c->a", abs(own), abs(u), abs(u)), what="acceleration against own Christoffels ")
    # symmetry: affine parameter, t, phi
    v2 = vec.copy()
    v2[0] += 11.0
    v2[3] -= 2.0
    assert np.array_equal(np.asarray(m.f_vec(c["lam"] + 5.0, v2))[4:], got[4:]), "depends on lambda, t or phi"
    lab = [c["kind"], bh.where(c)]
    if c.get("near"):
        bh.walk(c, lambda: bh.metric(c), vec, lambda o, x: o.f_vec(c["lam"], x))
        lab.append("walk")
    if max(abs(vec[:4])) < 9e15 and max(abs(vec[4:])) < 2e9:
        # whole numbers are states like any other
        whole = np.ceil(np.abs(vec)) * np.where(vec < 0, -1, 1)
        whole[2] = 1 + (c["th"] > math.pi / 2)
        with np.errstate(all="ignore"):
            a, b = np.asarray(m.f_vec(c["lam"], whole.astype(np.int64))), np.asarray(m.f_vec(c["lam"], whole))
        if np.isfinite(b).all():
            size = np.concatenate([np.abs(whole[4:]), np.einsum("ijk,j,k", np.abs(np.asarray(m.christoffels(whole[:4]))), np.abs(whole[4:]), np.abs(whole[4:]))])
            assert (np.abs(a - b) <= 1e-10 * size).all(), "right-hand side of the integer state %s: %s, as floats %s" % (whole, a, b)
            lab.append("integer state")
    return lab if any(c["u"][1:]) else lab + ["at rest"]


@bh.paired
def test_charged(c):
    k = amp(c)
    g, Gm, u, acc, s = geodesic(c)
    m = bh.metric(c)
    vec = np.array([c["t"], c["r"], c["th"], c["ph"], *c["u"]], dtype=float)
    got = np.asarray(m.f_vec(c["lam"], vec))
    close(got[:4], u, rtol=0, what="velocity part ")
    q = c["qs"]
    Fc = np.asarray(m.em_tensor_contravariant(vec[:4]))
    gc = np.asarray(m.metric_covariant(vec[:4]))
    force = q * Fc @ (gc @ u)
    fs = abs(q) * abs(Fc) @ (abs(gc) @ abs(u))
    ok = np.abs(got[4:] - (acc + force)) <= 2 * s + 1e-9 * k * fs
    lab = ["q=0" if q == 0 else "Q=0" if c["Q"] == 0 else "charged", bh.where(c)]
    if ok.all() and np.isfinite(got).all():
        return lab
    if q != 0 and c["Q"] != 0:
        bad = -q * ((Fc @ u) @ gc)
        bs = abs(q) * ((abs(Fc) @ abs(u)) @ abs(gc))
        if (np.abs(got[4:] - (acc + bad)) <= 2 * s + 1e-11 * bs).all():
            raise KnownFinding("M03-lorentz-force")
    close(got[4:], acc + force, rtol=0, atol=2 * s + 1e-9 * k * fs, what="acceleration with Lorentz force ")


KF = dict(kind="KerrNewman", M=5e24, a=0.3, Q=1e15, r=10.0, th=1.1, ph=0.3, t=0.0, u=[1.1, 2e7, 1e6, 3e6], qs=1.0, lam=0.0)
KF["as"] = "array"
CHECK = Check("M03", [
    Sub("free", states(), test_free, 4000, 80000, nontrivial=lambda c: sum(1 for v in c["u"] if v) >= 3,
        rule="random hole, event and 4-velocity against the 45-digit textbook connection; non-trivial: >= 3 velocity components"),
    Sub("charged", states(charged=True), test_charged, 1800, 40000, nontrivial=lambda c: c["qs"] != 0 or c["Q"] != 0,
        known=[("M03-lorentz-force", KF)],
        rule="Kerr-Newman with charged test particle (a third with q = 0 or Q = 0, where the force must vanish); non-trivial: some charge"),
], assumptions=["|Delta| >= 1e-4 of its terms; theta in [0.01, pi-0.01]"], quick_scale=2)
