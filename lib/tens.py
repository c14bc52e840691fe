"""Generated tensor objects of every class over generated constant or polynomial components, and explicit index algebra."""
import itertools
import numpy as np
import sympy
from hypothesis import strategies as st
from einsteinpy.symbolic import (ChristoffelSymbols, EinsteinTensor, GenericVector, MetricTensor, RicciTensor, RiemannCurvatureTensor,
                                 SchoutenTensor, StressEnergyMomentumTensor, WeylTensor)
from einsteinpy.symbolic.tensor import BaseRelativityTensor
from harness import Skip

CLASSES = {"vector": (GenericVector, 1, "u"), "christoffel": (ChristoffelSymbols, 3, "lll"), "riemann": (RiemannCurvatureTensor, 4, "llll"), "ricci": (RicciTensor, 2, "ul"),
           "einstein": (EinsteinTensor, 2, "ul"), "stress": (StressEnergyMomentumTensor, 2, "ul"), "weyl": (WeylTensor, 4, "llll"), "schouten": (SchoutenTensor, 2, "ul")}
NAMES = [("t", "x", "y", "z"), ("t", "r", "theta", "phi"), ("u", "v", "w", "s")]
PAR = sympy.symbols("a b q")


def syms(c):
    return tuple(sympy.Symbol(s) for s in NAMES[c["names"]][:c["n"]])


def entry(e, X):
    """[num, den] rational | ["x", i, k] k*x_i | ["p", i, k] | ["xx", i, j] | ["f", i] | ["abs", i, k] |x_i|^k | ["acos", i] |x_i|/2 (for |x_i| < 2 pi)"""
    if not isinstance(e[0], str):
        return sympy.Rational(e[0], e[1])
    if e[0] == "x":
        return e[2] * X[e[1] % len(X)]
    if e[0] == "p":
        return e[2] * PAR[e[1] % 3]
    if e[0] == "xx":
        return X[e[1] % len(X)] * X[e[2] % len(X)]
    if e[0] == "abs":
        return (X[e[1] % len(X)] ** 2) ** sympy.Rational(e[2], 2)
    if e[0] == "acos":
        return sympy.acos(sympy.cos(X[e[1] % len(X)] / 2))
    return sympy.Function("f")(X[e[1] % len(X)])


rational = st.tuples(st.integers(-5, 5), st.sampled_from([1, 2, 3])).map(list)
poly = st.one_of(rational, st.tuples(st.just("x"), st.integers(0, 3), st.sampled_from([1, -1, 2])).map(list), st.tuples(st.just("p"), st.integers(0, 2), st.sampled_from([1, -2])).map(list),
                 st.tuples(st.just("xx"), st.integers(0, 3), st.integers(0, 3)).map(list),
                 st.one_of(st.tuples(st.just("abs"), st.integers(0, 3), st.sampled_from([1, 3, 3])), st.tuples(st.just("acos"), st.integers(0, 3))).map(list))


def array(vals, n, rank, X, salt=0):
    """components filled from the generated values in a scrambled order, no symmetry"""
    A = np.empty((n,) * rank, dtype=object)
    for k, idx in enumerate(itertools.product(range(n), repeat=rank)):
        A[idx] = entry(vals[(k * 5 + salt + k // len(vals)) % len(vals)], X)
    return A


def sarr(A):
    return sympy.Array(A.tolist()) if A.ndim else sympy.Array(A[()])


def metric(c, X):
    """covariant matrix: diagonal [2 + entry] plus off-diagonal entries; sympy.Matrix"""
    n = c["n"]
    g = sympy.zeros(n, n)
    for i in range(n):
        e = c["gd"][i % len(c["gd"])]
        g[i, i] = [sympy.Rational(1), -1, sympy.Rational(2), 1 + X[i % n] ** 2, X[(i + 1) % n] ** 2, -(1 + PAR[0] ** 2), sympy.Rational(1, 3)][e]
    for (i, j, e) in c["go"]:
        i, j = i % n, j % n
        if i != j:
            g[i, j] = g[j, i] = [sympy.Rational(1, 2), sympy.Rational(-1, 3), X[0], PAR[1], sympy.Rational(3, 2)][e]
    return g


@st.composite
def metrics(draw, n, off=1):
    return dict(gd=draw(st.lists(st.integers(0, 6), min_size=n, max_size=n)), go=[list(t) for t in draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(0, 4)), max_size=off))])


def values(c, X):
    v = {x: sympy.Rational(*p) for x, p in zip(X, c["at"])}
    v.update({p: sympy.Rational(*q) for p, q in zip(PAR, c["pv"])})
    return v


def num(A, vals):
    """object array of exact rationals (functions f(x) -> x^2/3 + 2)"""
    A = np.asarray(A, dtype=object)
    out = np.empty(A.shape, dtype=object)
    F = sympy.Function("f")
    z = sympy.Dummy("z")
    for idx in np.ndindex(*A.shape):
        e = sympy.sympify(A[idx])
        if e.has(F):
            e = e.subs(F, sympy.Lambda(z, z ** 2 / 3 + 2))
        e = e.subs(vals)
        if not e.is_Rational:
            e = sympy.nsimplify(e) if e.is_number else e
        if not e.is_number or e.has(sympy.zoo, sympy.nan):
            raise (Skip("singular") if e.has(sympy.zoo, sympy.nan) else AssertionError("component %s is not a number: %s" % (idx, e)))
        out[idx] = e
    return out


def nparr(t):
    """components of an einsteinpy tensor (or sympy array) as an object array"""
    t = t.tensor() if hasattr(t, "tensor") else t
    if t.rank() == 0:
        a = np.empty((), dtype=object)
        a[()] = sum(t) if not hasattr(t, "__getitem__") else t[()]
        return a
    return np.array(t.tolist(), dtype=object).reshape(t.shape)


def apply_on(M, A, k):
    """contract the second index of M with index k of A, result index in place k"""
    return np.moveaxis(np.tensordot(M, A, axes=(1, k)), 0, k)


def configured(A, cfg, new, lo, up):
    for k, (a, b) in enumerate(zip(cfg, new)):
        if a != b:
            A = apply_on(up if b == "u" else lo, A, k)
    return A


def equal(got, want, what):
    assert got.shape == want.shape, "%s: shape %s, expected %s" % (what, got.shape, want.shape)
    for idx in np.ndindex(*got.shape):
        if sympy.simplify(got[idx] - want[idx]) != 0:
            raise AssertionError("%s%s: %s, expected %s" % (what, list(idx), got[idx], want[idx]))
