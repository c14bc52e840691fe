"""M06 electromagnetic field of Kerr-Newman."""
import math
import numpy as np
from harness import Check, Sub, Skip, KnownFinding, close, st, grid, logfloat
import bh, textbook as tb


def potential(r, th, al, rq):
    S = r * r + (al * math.cos(th)) ** 2
    return np.array([r * rq / S, 0.0, 0.0, -r * rq * al * math.sin(th) ** 2 / S])


def field(r, th, al, rq):
    """d_mu A_nu - d_nu A_mu in closed form (checked against differences of A in test_oracle)"""
    s, c = math.sin(th), math.cos(th)
    S = r * r + (al * c) ** 2
    P = S - 2 * r * r
    Sth = -2 * al * al * s * c
    F = np.zeros((4, 4))
    dA = {(1, 0): rq * P / S ** 2, (2, 0): -r * rq * Sth / S ** 2,
          (1, 3): -rq * al * s * s * P / S ** 2,
          (2, 3): -r * rq * al * (2 * s * c * S - s * s * Sth) / S ** 2}
    for (m, n), v in dA.items():
        F[m, n] += v
        F[n, m] -= v
    return F


def scales(r, th, al, rq):
    S = r * r + (al * math.cos(th)) ** 2
    s = abs(math.sin(th))
    a = abs(rq)
    F = np.zeros((4, 4))
    F[0, 1] = a * (S + 2 * r * r) / S ** 2
    F[0, 2] = a * r * al * al / S ** 2
    F[1, 3] = a * al * s * s * (S + 2 * r * r) / S ** 2
    F[2, 3] = a * al * r * 2 * s * (S + al * al) / S ** 2
    return F + F.T


@bh.paired
def test_field(c):
    kd, ks = bh.horizon_cond(c)
    rs, al, q2 = bh.lengths(c)
    rq = math.copysign(math.sqrt(q2), c["Q"])
    m = bh.metric(c)
    x = bh.xvec(c)
    A = np.asarray(m.em_potential_covariant(x))
    want = potential(c["r"], c["th"], al, rq)
    tol = 1e-13 + 2e-15 * ks
    close(A, want, rtol=tol, what="A_cov ")
    # raising with the textbook metric
    g = np.array(tb.kn_cov(c["r"], c["th"], rs, al, q2))
    ga = tb.kn_scale(c["r"], c["th"], rs, al, q2)
    gi = np.asarray(m.metric_contravariant(x))
    up = np.asarray(m.em_potential_contravariant(x))
    close(g @ up, want, rtol=0, atol=(1e-10 + 1e-12 * kd * ks) * (ga @ np.abs(gi) @ np.abs(want)), what="g A^ ")
    F = np.asarray(m.em_tensor_covariant(x))
    close(F, -F.T, rtol=1e-13, what="antisymmetry")
    Fup = np.asarray(m.em_tensor_contravariant(x))
    sc = np.abs(gi) @ np.abs(F) @ np.abs(gi)
    close(Fup, -Fup.T, rtol=0, atol=1e-12 * sc, what="antisymmetry of F^ ")
    close(g @ Fup @ g, F, rtol=0, atol=(1e-10 + 1e-12 * kd * ks) * (ga @ sc @ ga), what="g F^ g ")
    close(Fup, gi @ F @ gi, rtol=0, atol=1e-11 * sc, what="F^ ")
    y = np.array([c["t"] + 3.0, c["r"], c["th"], c["ph"] + 1.0])
    for n, v in (("em_potential_covariant", A), ("em_tensor_covariant", F), ("em_potential_contravariant", up), ("em_tensor_contravariant", Fup)):
        assert np.array_equal(np.asarray(getattr(m, n)(y)), v), n + " depends on t or phi"
    neg = bh.metric(dict(c, Q=-c["Q"]))
    for n, v in (("em_potential_covariant", A), ("em_tensor_covariant", F)):
        close(np.asarray(getattr(neg, n)(x)), -v, rtol=1e-14, what=n + " odd in Q ")
    if c["Q"] == 0:
        assert not F.any() and not A.any() and not Fup.any() and not up.any()
    want = field(c["r"], c["th"], al, rq)
    fs = scales(c["r"], c["th"], al, rq)
    t2 = (1e-12 + 1e-14 * ks) * fs
    lab = ["Q=0" if c["Q"] == 0 else bh.where(c)] + bh.whole_event(c, m, (
        "em_potential_covariant", "em_tensor_covariant", "em_potential_contravariant", "em_tensor_contravariant"))
    if (np.abs(F - want) <= t2).all():
        return lab + ["exact"]
    bad = want.copy()
    for i, j in ((1, 3), (2, 3)):
        bad[i, j], bad[j, i] = -bad[i, j], -bad[j, i]
    if (np.abs(F - bad) <= t2).all():
        raise KnownFinding("M06-magnetic-sign")
    close(F, want, rtol=0, atol=t2, what="F_cov ")


def test_oracle(c):
    """the closed-form field of the oracle is the curl of the oracle potential, and of the code's potential"""
    rs, al, q2 = bh.lengths(c)
    rq = math.copysign(math.sqrt(q2), c["Q"])
    m = bh.metric(c)
    r, th = c["r"], c["th"]
    L = math.sqrt(r * r + (al * math.cos(th)) ** 2)
    h = (0.0, 1e-3 * min(r, L), 1e-3 * min(1.0, L / max(al, 1e-300)), 0.0)
    D = np.zeros((4, 4))
    sc = np.zeros((4, 4))
    for mu in (1, 2):
        for n, w in ((1, 0.75), (2, -0.15), (3, 1 / 60)):
            x1, x2 = np.array([0.0, r, th, 0.3]), np.array([0.0, r, th, 0.3])
            x1[mu] += n * h[mu]
            x2[mu] -= n * h[mu]
            p, q = np.asarray(m.em_potential_covariant(x1)), np.asarray(m.em_potential_covariant(x2))
            D[mu] += w * (p - q) / h[mu]
            sc[mu] = np.maximum(sc[mu], np.maximum(abs(p), abs(q)) / h[mu])
    F = D - D.T
    close(field(r, th, al, rq), F, rtol=0, atol=1e-9 * scales(r, th, al, rq) + 1e-12 * (sc + sc.T), what="oracle field ")
    return []


@st.composite
def cases(draw):
    c = draw(bh.hole_events(kinds=("KerrNewman",)))
    if draw(st.integers(0, 9)) == 0:
        c["Q"] = 0.0
    elif c["Q"] == 0:
        c["Q"] = 0.3 * bh.q_extremal(c["M"])
    return c


KF = dict(kind="KerrNewman", M=5e24, a=0.3, Q=1e15, r=10.0, th=1.1, ph=0.3, t=0.0)
KF["as"] = "array"
CHECK = Check("M06", [
    Sub("field", cases(), test_field, 4000, 80000, nontrivial=lambda c: c["Q"] != 0 and c["a"] > 0, known=[("M06-magnetic-sign", KF)],
        rule="random Kerr-Newman hole (either sign of charge) and event; non-trivial: rotating and charged"),
    Sub("curl", cases(), test_oracle, 1200, 30000, nontrivial=lambda c: c["Q"] != 0 and c["a"] > 0,
        rule="6th-order differences of the code's potential against the closed-form field; non-trivial: rotating and charged"),
], assumptions=["A_t is as documented by the package, without the factor c of the time coordinate (pinned by tests); |Delta| >= 1e-5"], quick_scale=2)
