"""Oracle for the geodesic module: contravariant metrics in M = 1 units written for any scalar type
(float, complex for complex-step derivatives), reference solution of Hamilton's equations, case strategies."""
import math
import numpy as np
from hypothesis import strategies as st
from harness import grid, logfloat, Skip

BH = ("Schwarzschild", "Kerr", "KerrNewman")


def kn_contra(x, a, Q):
    """textbook inverse Kerr-Newman metric, signature -+++ (Wald / MTW), geometrized, M = 1"""
    r, th = x[1], x[2]
    s2 = np.sin(th) ** 2
    S = r * r + a * a * np.cos(th) ** 2
    D = r * r - 2 * r + a * a + Q * Q
    m = 2 * r - Q * Q
    g = np.zeros((4, 4), dtype=complex if np.iscomplexobj(np.array([r, th])) else float)
    g[0, 0] = -((r * r + a * a) ** 2 - D * a * a * s2) / (S * D)
    g[0, 3] = g[3, 0] = -a * m / (S * D)
    g[1, 1] = D / S
    g[2, 2] = 1 / S
    g[3, 3] = (D - a * a * s2) / (S * D * s2)
    return g


def bh_args(c):
    a = 0.0 if c["metric"] == "Schwarzschild" else c["a"]
    Q = c["Q"] if c["metric"] == "KerrNewman" else 0.0
    return a, Q


def params(c):
    return {"Schwarzschild": (), "Kerr": (c.get("a"),), "KerrNewman": (c.get("a"), c.get("Q"))}.get(c["metric"], tuple(c.get("uprm", ())))


# --- user metrics: smooth, positive definite spatial part, dependence on every coordinate ------------
def user_matrix(x, prm, dtype, scale=1.0, shift=0.0):
    """prm: list of 10 blocks [amp, k0, k1, k2, k3, phase] for g^00,g^11,g^22,g^33,g^01,...,g^23"""
    g = np.zeros((4, 4), dtype=dtype)
    idx = [(0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
    for (i, j), (amp, k0, k1, k2, k3, ph) in zip(idx, prm):
        base = 0.0 if i != j else (-1.0 if i == 0 else 1.0)
        if amp == 0:
            v = base
        else:
            v = (amp * scale) * np.sin(k0 * x[0] + k1 * x[1] + k2 * x[2] + k3 * x[3] + (ph + shift)) + base
        g[i, j] = v
        g[j, i] = v
    return g


def user_metric(prm):
    def random_metric(x, *p):
        return user_matrix(x, prm, object, *p)
    return random_metric


def contra(c):
    """x -> 4x4 contravariant matrix (float or complex) of the case, the oracle's own"""
    if c["metric"] == "user":
        return lambda x: user_matrix(x, c["prm"], complex if np.iscomplexobj(np.asarray(x)) else float, *c.get("uprm", ()))
    a, Q = bh_args(c)
    return lambda x: kn_contra(x, a, Q)


def code_metric(c):
    """what is passed to the code under test"""
    return user_metric(c["prm"]) if c["metric"] == "user" else c["metric"]


def mass_shell(G, q, p, tl):
    """oracle p_t: root of g^ab p_a p_b = -1/0 with dt/dlambda > 0"""
    g = np.asarray(G(np.array(q, dtype=float)), dtype=float)
    p3 = np.array(p, dtype=float)
    A, B = g[0, 0], g[0, 1:] @ p3
    C = p3 @ g[1:, 1:] @ p3 + (1.0 if tl else 0.0)
    D = B * B - A * C
    return g, A, B, C, D


def rhs(G):
    h = 1e-40

    def f(lam, y):
        q, p = y[:4], y[4:]
        g = G(q)
        dp = np.empty(4)
        for k in range(4):
            z = q.astype(complex)
            z[k] += 1j * h
            dp[k] = -0.5 * float(p @ (np.imag(G(z)) / h) @ p)
        return np.concatenate([g @ p, dp])
    return f


def reference(G, q, p, T):
    from scipy.integrate import solve_ivp
    r = solve_ivp(rhs(G), (0.0, T), np.concatenate([q, p]), method="DOP853", rtol=3e-14, atol=1e-14)
    if r.status != 0:
        raise Skip("reference integration failed")
    return r.y[:, -1]


# --- strategies --------------------------------------------------------------------------------------
@st.composite
def bh_cases(draw, near=False, kinds=BH):
    m = draw(st.sampled_from(kinds))
    a = draw(st.one_of(grid(0, 1, 100), st.sampled_from([0.9, 0.5, 0.99, 1e-3, -1e-4]), grid(-1, 1, 100)))
    Q = draw(grid(-1, 1, 100)) * math.sqrt(max(0.0, 1 - a * a))
    c = dict(metric=m, a=a, Q=float("%.6g" % Q))
    r = draw(st.one_of(grid(2.2, 12, 10), grid(4, 60, 2)))
    c["pos"] = [r, draw(st.one_of(grid(0.4, 2.7, 100), st.just(math.pi / 2))), draw(grid(-3, 3, 10))]
    comp = st.one_of(grid(-1, 1, 100), st.sampled_from([0.0, 0.5, -0.5]))
    c["mom"] = [draw(comp), draw(comp) * r * 0.5, draw(comp) * r * 0.7]
    c["tl"] = draw(st.sampled_from([True, False]))
    return c


@st.composite
def user_cases(draw, amp=0.25, dense=True):
    prm = []
    for n in range(10):
        on = draw(st.integers(0, 2)) > 0 if dense else draw(st.integers(0, 2)) == 0
        lim = amp if n < 4 else amp * 0.5
        A = draw(grid(-lim, lim, 100)) if on else 0.0
        k = [draw(st.sampled_from([0.0, 0.5, 1.0, -0.7, 0.3])) for _ in range(4)] if on and A else [0.0] * 4
        prm.append([A] + k + [draw(grid(0, 3, 10)) if A else 0.0])
    comp = grid(-1, 1, 100)
    if draw(st.integers(0, 3)) == 0:
        # components that vanish exactly at the start, but not nearby
        comp_x = st.just(0.0)
        for b in prm[draw(st.sampled_from([0, 4])):]:
            b[5] = 0.0
    else:
        comp_x = comp
    return dict(metric="user", prm=prm, pos=[draw(comp_x) for _ in range(3)], mom=[draw(comp) for _ in range(3)],
                tl=draw(st.sampled_from([True, False])), uprm=draw(st.sampled_from([[], [], [0.5], [0.8, 0.7]])))


def usable(c):
    """outside the horizon / ergosphere and momentum real"""
    G = contra(c)
    q = [0.0] + list(c["pos"])
    if c["metric"] != "user":
        a, Q = bh_args(c)
        r, th = c["pos"][0], c["pos"][1]
        if r * r - 2 * r + a * a * math.cos(th) ** 2 + Q * Q < 0.05 * r * r:
            raise Skip("inside or at the ergosphere")
    g, A, B, C, D = mass_shell(G, q, c["mom"], c["tl"])
    if not (A < -0.05 and D > 1e-6):
        raise Skip("no real momentum")
    return G, np.array(q), g, A, B, C, D
