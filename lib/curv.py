"""Independent numeric curvature oracle.

Given a covariant metric as a nested list of sympy expressions, the first and
second partial derivatives of the components are taken with sympy.diff and
evaluated numerically (mpmath, 30 digits by default) at one point; everything
after that (inverse, Christoffels, Riemann, ...) is explicit index summation
on numbers.  Nothing of einsteinpy is used.
"""
import itertools
import mpmath as mp
import numpy as np
import sympy


class Geometry:
    def __init__(self, g, syms, point, third=False, dps=30):
        """g: n x n nested list of sympy expressions; point: {sym: number} for
        *every* free symbol (coordinates and parameters)."""
        self.n = n = len(syms)
        self.syms = syms
        self.point = point
        self.dps = dps
        with mp.workdps(dps):
            keys = list(point)
            vals = [mp.mpf(point[k]) if not isinstance(point[k], sympy.Basic)
                    else mp.mpf(str(sympy.N(point[k], dps))) for k in keys]
            exprs, index = [], {}

            def reg(e):
                e = sympy.sympify(e)
                if e not in index:
                    index[e] = len(exprs)
                    exprs.append(e)
                return index[e]
            G = np.empty((n, n), dtype=int)
            D = np.empty((n, n, n), dtype=int)       # D[k,i,j]
            DD = np.empty((n, n, n, n), dtype=int)   # DD[l,k,i,j]
            D3 = np.empty((n,) * 5, dtype=int) if third else None
            for i in range(n):
                for j in range(n):
                    e = sympy.sympify(g[i][j])
                    G[i, j] = reg(e)
                    for k in range(n):
                        dk = sympy.diff(e, syms[k])
                        D[k, i, j] = reg(dk)
                        for l in range(k, n):
                            dl = sympy.diff(dk, syms[l])
                            DD[l, k, i, j] = DD[k, l, i, j] = reg(dl)
                            if third:
                                for m in range(l, n):
                                    d3 = reg(sympy.diff(dl, syms[m]))
                                    for p in itertools.permutations((k, l, m)):
                                        D3[p[0], p[1], p[2], i, j] = d3
            f = sympy.lambdify(keys, exprs, modules="mpmath")
            num = np.array([mp.mpf(v) if not isinstance(v, mp.mpc) else v
                            for v in f(*vals)], dtype=object)
            self.g = num[G]
            self.dg = num[D]
            self.ddg = num[DD]
            self.d3g = num[D3] if third else None
            self.ginv = _inv(self.g)
            self._compute(third)

    def _compute(self, third):
        n, gi, dg, ddg = self.n, self.ginv, self.dg, self.ddg
        R = range(n)
        # Gamma_{a bc}, lower first index, and its derivative
        Gl = np.empty((n, n, n), dtype=object)
        dGl = np.empty((n, n, n, n), dtype=object)
        for a in R:
            for b in R:
                for c in R:
                    Gl[a, b, c] = (dg[c, a, b] + dg[b, a, c] - dg[a, b, c]) / 2
                    for d in R:
                        dGl[d, a, b, c] = (ddg[d, c, a, b] + ddg[d, b, a, c]
                                           - ddg[d, a, b, c]) / 2
        self.chris_l = Gl
        es = np.einsum
        G = _dot(gi, Gl)                       # G[a,b,c] = g^{ad} Gl[d,b,c]
        self.chris = G
        # d_k g^{ab} = - g^{ac} dg_{k,cd} g^{db}
        dgi = np.empty((n, n, n), dtype=object)
        for k in R:
            dgi[k] = -_dot(_dot(gi, dg[k]), gi)
        self.dginv = dgi
        dG = np.empty((n, n, n, n), dtype=object)   # dG[k,a,b,c]
        for k in R:
            dG[k] = _dot(dgi[k], Gl) + _dot(gi, dGl[k])
        self.dchris = dG
        # R^a_{bcd} = d_c G^a_{bd} - d_d G^a_{bc} + G^a_{ec}G^e_{bd} - G^a_{ed}G^e_{bc}
        GG = np.tensordot(G, G, axes=(2, 0))   # GG[a,c,b,d] = G^a_{ce} G^e_{bd}
        Rm = np.empty((n,) * 4, dtype=object)
        for a in R:
            for b in R:
                for c in R:
                    for d in R:
                        Rm[a, b, c, d] = (dG[c, a, b, d] - dG[d, a, b, c]
                                          + GG[a, c, b, d] - GG[a, d, b, c])
        self.riemann = Rm
        self.riemann_l = _dot(self.g, Rm)
        self.ricci = np.array([[sum(Rm[a, b, a, d] for a in R) for d in R] for b in R],
                              dtype=object)
        self.scalar = sum(gi[i, j] * self.ricci[i, j] for i in R for j in R)
        self.einstein = self.ricci - self.g * (self.scalar / 2)
        if n >= 3:
            self.schouten = (self.ricci - self.g * (self.scalar / (2 * (n - 1)))) / (n - 2)
            g, Rc, S, P = self.g, self.ricci, self.scalar, self.schouten
            W = np.empty((n,) * 4, dtype=object)
            for a in R:
                for b in R:
                    for c in R:
                        for d in R:
                            W[a, b, c, d] = self.riemann_l[a, b, c, d] - (
                                g[a, c] * P[b, d] - g[a, d] * P[b, c]
                                - g[b, c] * P[a, d] + g[b, d] * P[a, c])
            self.weyl_l = W


def _inv(m):
    try:
        r = mp.matrix(m.tolist()) ** -1
    except TypeError:           # mpmath finds no pivot
        raise ZeroDivisionError("singular matrix")
    return np.array(r.tolist(), dtype=object).reshape(m.shape)


def _dot(a, b):
    return np.tensordot(a, b, axes=(a.ndim - 1, 0))


def num(arr, shape=None):
    """object array of mpf -> float array (complex parts must vanish)"""
    def conv(x):
        if isinstance(x, mp.mpc):
            if abs(x.imag) > 1e-12 * (1 + abs(x.real)):
                raise ValueError("complex value in oracle: %s" % x)
            x = x.real
        return float(x)
    a = np.asarray(arr, dtype=object)
    return np.array([conv(x) for x in a.ravel()], dtype=float).reshape(a.shape)
