"""S02 symbolic Christoffel symbols."""
import numpy as np
import mpmath as mp
import sympy
from harness import Check, Sub, Skip, st
import symgen as sg
from einsteinpy.symbolic import ChristoffelSymbols, MetricTensor


@sg.paired
def test(c):
    G = sg.geometry(c)
    m = sg.metric_tensor(c, c["config"])
    before = m.tensor()
    ch = ChristoffelSymbols.from_metric(m)
    assert isinstance(ch, ChristoffelSymbols) and ch.config == "ull" and ch.order == 3
    assert list(ch.symbols()) == sg.symbols(c) and ch.dims == c["n"]
    assert ch.parent_metric is m or ch.parent_metric == m
    cond = sg.amax(G.g) * sg.amax(G.ginv)
    scale = 1 + sg.amax(G.ginv) * sg.amax(G.chris_l)
    got = sg.evaluate(ch.tensor(), c)
    sg.same(got, G.chris, tol=mp.mpf(10) ** -16 * cond, scale=scale, what="Gamma ")
    n = c["n"]
    for a in range(n):
        for b in range(n):
            for d in range(n):
                assert abs(got[a, b, d] - got[a, d, b]) <= mp.mpf(10) ** -16 * scale * cond, "not symmetric in the lower indices"
    if c["config"] == "ll":
        assert m.tensor() == before and m.config == "ll"
    flat = sg.amax(G.chris) < mp.mpf(10) ** -20
    if not sg.curved(c):
        assert sg.amax(got) == 0, "constant metric has non-zero symbols"
    return sg.labels(c) + [c["config"]] + (["trivial"] if flat else [])


@sg.paired
def test_perm(c):
    """renaming / reordering the coordinates permutes the symbols"""
    g, X = sg.build(c)
    n = c["n"]
    p = [k for k in c["perm"] if k < n]
    Xp = [X[k] for k in p]
    gp = [[g[p[i]][p[j]] for j in range(n)] for i in range(n)]
    sg.geometry(c)
    a = ChristoffelSymbols.from_metric(MetricTensor(g, X)).tensor()
    b = ChristoffelSymbols.from_metric(MetricTensor(gp, Xp if c["tuple"] == 0 else tuple(Xp))).tensor()
    A, B = sg.evaluate(a, c), sg.evaluate(b, c)
    W = np.empty_like(A)
    for i in range(n):
        for j in range(n):
            for k in range(n):
                W[i, j, k] = A[p[i], p[j], p[k]]
    sg.same(B, W, tol=mp.mpf(10) ** -14, scale=1 + sg.amax(W), what="permuted coordinates ")
    return sg.labels(c) + (["trivial"] if p == sorted(p) or sg.amax(A) == 0 else [])


@st.composite
def cases(draw):
    c = draw(sg.metrics(off=4, rich=2, cap4=False))
    c["config"] = draw(st.sampled_from(["ll", "ll", "uu"])) if c["n"] < 4 else "ll"
    if c["n"] == 4 and draw(st.integers(0, 3)) == 0 and c["kind"] == "mixed":
        c["config"], c["off"] = "uu", c["off"][:1]
    return c


@st.composite
def perm_cases(draw):
    c = draw(sg.metrics(off=2, rich=1, kinds=("mixed",)))
    c["perm"], c["tuple"] = draw(st.permutations(range(4))), draw(st.integers(0, 1))
    return c


CHECK = Check("S02", [
    Sub("from_metric", cases(), test, 360, 16000, nontrivial=sg.curved, **sg.SYM, rule="generated metric (2-4 dimensions, full off-diagonal, functions, parameters, pull-backs of flat space), covariant or contravariant, all n^3 components against the numeric oracle; non-trivial: some symbol is non-zero"),
    Sub("permutation", perm_cases(), test_perm, 96, 4000, **sg.SYM, nontrivial=sg.curved, rule="reordered coordinates permute the symbols; non-trivial: genuine permutation, non-zero symbols"),
], assumptions=["components are compared numerically (30 digits) at one generated rational point per case, undefined functions replaced by concrete ones"], quick_budget=200)
