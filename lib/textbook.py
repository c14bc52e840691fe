"""Textbook metrics (Misner/Thorne/Wheeler, Wald), written independently of the repository.

SI form, coordinates (t [s], r, theta, phi), signature (+,-,-,-)."""
import math
import mpmath as mp
import numpy as np

G = 6.6743e-11
C = 299792458.0
EPS0 = 8.8541878188e-12
KC = 1 / (4 * math.pi * EPS0)


def geom(M, a, Q):
    """(r_s, alpha, r_Q^2) in metres"""
    return 2 * G * M / C ** 2, a * G * M / C ** 2, Q * Q * G * KC / C ** 4


def kn_cov(r, th, rs, al, q2, c=C, fn=math):
    """Kerr-Newman, Boyer-Lindquist; r_s, alpha, r_Q^2 as lengths"""
    s2 = fn.sin(th) ** 2
    Sig = r * r + al * al * fn.cos(th) ** 2
    # (1-s2) is avoided; Delta in factored form is not needed at the tolerances used
    Dl = r * r - rs * r + al * al + q2
    m = rs * r - q2
    z = 0 * r
    return [[c * c * (1 - m / Sig), z, z, c * m * al * s2 / Sig],
            [z, -Sig / Dl, z, z],
            [z, z, -Sig, z],
            [c * m * al * s2 / Sig, z, z, -(r * r + al * al + m * al * al * s2 / Sig) * s2]]


def kn_mp(r, th, rs, al, q2, c=C):
    return kn_cov(mp.mpf(r), mp.mpf(th), mp.mpf(rs), mp.mpf(al), mp.mpf(q2), mp.mpf(c), fn=mp)


def block_inverse(g):
    """inverse of a stationary axisymmetric metric (t-phi block, diagonal r, theta), mpmath"""
    det = g[0, 0] * g[3, 3] - g[0, 3] ** 2
    m = mp.zeros(4, 4)
    m[0, 0], m[3, 3], m[0, 3] = g[3, 3] / det, g[0, 0] / det, -g[0, 3] / det
    m[3, 0] = m[0, 3]
    m[1, 1], m[2, 2] = 1 / g[1, 1], 1 / g[2, 2]
    return m


def connection(r, th, rs, al, q2, c=C, dps=30, h=None):
    """Christoffel symbols (and g, g^-1) by 75-digit central differences of the textbook metric
    (4th order, relative step 1e-15: truncation ~1e-60), and the sum of the absolute terms of each."""
    with mp.workdps(dps + 45):
        r, th = mp.mpf(r), mp.mpf(th)
        f = lambda rr, tt: mp.matrix(kn_mp(rr, tt, rs, al, q2, c))
        hr, ht = r * mp.mpf(10) ** -15, mp.mpf(10) ** -15
        # 4th order central differences
        def d(fun, h):
            return (8 * (fun(h) - fun(-h)) - (fun(2 * h) - fun(-2 * h))) / (12 * h)
        dr = d(lambda e: f(r + e, th), hr)
        dt = d(lambda e: f(r, th + e), ht)
        g = f(r, th)
        gi = block_inverse(g)
        D = {1: dr, 2: dt}
        z = mp.mpf(0)
        dg = lambda k, i, j: D[k][i, j] if k in D else z
        Gm = np.zeros((4, 4, 4))
        sc = np.zeros((4, 4, 4))
        for a in range(4):
            for b in range(4):
                for cc in range(b, 4):
                    terms = [gi[a, e] * t for e in range(4)
                             for t in (dg(b, e, cc), dg(cc, e, b), -dg(e, b, cc)) if gi[a, e] != 0]
                    Gm[a, b, cc] = Gm[a, cc, b] = float(sum(terms) / 2)
                    sc[a, b, cc] = sc[a, cc, b] = float(sum(abs(t) for t in terms) / 2)
        gn = np.array([[float(g[i, j]) for j in range(4)] for i in range(4)])
        gin = np.array([[float(gi[i, j]) for j in range(4)] for i in range(4)])
    return gn, gin, Gm, sc


def natural(g, gi, r):
    """scale of Gamma if every derivative had the size sqrt|g_aa g_bb| per r (or per radian)"""
    gd = np.sqrt(abs(np.diag(g)))
    gd[0] = max(gd[0], abs(g[0, 3]) / gd[3])
    e = np.zeros((4, 4, 4))
    e[1], e[2] = np.outer(gd, gd) / r, np.outer(gd, gd)
    low = 0.5 * (np.einsum("bdc->dbc", e) + np.einsum("cdb->dbc", e) + e)
    return np.einsum("ad,dbc->abc", np.abs(gi), low)


def kn_scale(r, th, rs, al, q2, c=C):
    """sum of the absolute terms of each component (the size of its rounding error / eps)"""
    s2 = math.sin(th) ** 2
    Sig = r * r + (al * math.cos(th)) ** 2
    m = rs * r + q2
    sc = np.zeros((4, 4))
    sc[0, 0] = c * c * (1 + m / Sig)
    sc[1, 1] = Sig / abs(r * r - rs * r + al * al + q2)
    sc[2, 2] = Sig
    sc[3, 3] = (r ** 2 + al ** 2 + m * al * al * s2 / Sig) * s2
    sc[0, 3] = sc[3, 0] = c * (m + r * r + al * al) * al * s2 / Sig
    return sc
