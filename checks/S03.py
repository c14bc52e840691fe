"""S03 symbolic Riemann tensor."""
import itertools
import numpy as np
import mpmath as mp
import sympy
from harness import Check, Sub, Skip, st
import symgen as sg
from einsteinpy.symbolic import ChristoffelSymbols, RiemannCurvatureTensor

TOL = mp.mpf(10) ** -15


def identities(R, tol):
    """R with all indices lowered"""
    n = R.shape[0]
    T = lambda p: np.transpose(R, p)
    zero = lambda X, what: (_ for _ in ()).throw(AssertionError(what)) if sg.amax(X) > tol else None
    zero(R + T((1, 0, 2, 3)), "not antisymmetric in the first pair")
    zero(R + T((0, 1, 3, 2)), "not antisymmetric in the second pair")
    zero(R - T((2, 3, 0, 1)), "not symmetric under exchange of the pairs")
    zero(R + T((0, 3, 1, 2)) + T((0, 2, 3, 1)), "first Bianchi identity fails")


@sg.paired
def test_metric(c):
    G = sg.geometry(c)
    m = sg.metric_tensor(c, c["config"])
    if c["route"] == "metric":
        r = RiemannCurvatureTensor.from_metric(m)
    else:
        ch = ChristoffelSymbols.from_metric(m)
        if c["route"] != "christoffels":
            ch = ch.change_config(c["route"])
        if c["orphan"]:             # no parent metric of its own: taken from the argument
            ch = ChristoffelSymbols(ch.tensor(), ch.symbols(), config=ch.config)
        r = RiemannCurvatureTensor.from_christoffels(ch, **(dict(parent_metric=m) if c["pass_metric"] or c["orphan"] else {}))
    assert isinstance(r, RiemannCurvatureTensor) and r.config == "ulll" and r.order == 4 and r.dims == c["n"]
    assert list(r.symbols()) == sg.symbols(c) and r.parent_metric is not None
    got = sg.evaluate(r.tensor(), c)
    cond = sg.amax(G.g) * sg.amax(G.ginv)
    scale = 1 + sg.amax(G.dchris) + sg.amax(G.chris) ** 2
    sg.same(got, G.riemann, tol=sg.tol(TOL) * cond, scale=scale, what="Riemann ")
    low = np.tensordot(G.g, got, axes=(1, 0))
    identities(low, sg.tol(TOL) * cond * scale * (1 + sg.amax(G.g)) * 10)
    if c["kind"] == "pullback" and not c.get("conf"):
        assert sg.amax(got) <= sg.tol(TOL) * cond * scale, "flat space in curvilinear coordinates has curvature"
    return sg.labels(c) + [c["route"], c["config"]] + (["orphan"] if c["orphan"] and c["route"] != "metric" else []) + (["flat"] if sg.amax(G.riemann) < TOL else []) + (["trivial"] if sg.amax(G.chris) < TOL else [])


@sg.paired
def test_lowered(c):
    """the 'llll' form the code itself produces has the symmetries"""
    G = sg.geometry(c)
    r = RiemannCurvatureTensor.from_metric(sg.metric_tensor(c))
    low = sg.evaluate(r.change_config("llll").tensor(), c)
    cond = sg.amax(G.g) * sg.amax(G.ginv)
    scale = (1 + sg.amax(G.dchris) + sg.amax(G.chris) ** 2) * (1 + sg.amax(G.g))
    sg.same(low, G.riemann_l, tol=sg.tol(TOL) * cond, scale=scale, what="lowered Riemann ")
    identities(low, sg.tol(TOL) * cond * scale)
    return sg.labels(c) + (["trivial"] if sg.amax(G.riemann) < TOL else [])


def test_connection(c):
    """arbitrary symmetric connection, not necessarily of a metric"""
    X, P = sg.symbols(c), sg.params(c)
    n = c["n"]
    arr = [[[sympy.Integer(0)] * n for _ in range(n)] for _ in range(n)]
    for (a, b, d, e) in c["terms"]:
        a, b, d = a % n, b % n, d % n
        arr[a][b][d] = arr[a][d][b] = sg.expr(e, X, P, False)
    conc = [[[sg.expr_concrete(v) for v in r] for r in q] for q in arr]
    pt = sg.point(c)
    val = np.empty((n, n, n), dtype=object)
    der = np.empty((n, n, n, n), dtype=object)
    with mp.workdps(sg.DPS):
        N = lambda e: mp.mpmathify(sympy.N(sympy.sympify(e).subs(pt), sg.DPS))
        for a, b, d in itertools.product(range(n), repeat=3):
            val[a, b, d] = N(conc[a][b][d])
            for k in range(n):
                der[k, a, b, d] = N(sympy.diff(conc[a][b][d], X[k]))
        want = np.empty((n,) * 4, dtype=object)
        for a, b, k, d in itertools.product(range(n), repeat=4):
            want[a, b, k, d] = der[k, a, d, b] - der[d, a, k, b] + sum(val[a, k, e] * val[e, d, b] - val[a, d, e] * val[e, k, b] for e in range(n))
    ch = ChristoffelSymbols(arr if c["aslist"] else sympy.Array(arr), X if c["aslist"] else tuple(X))
    r = RiemannCurvatureTensor.from_christoffels(ch)
    assert r.config == "ulll" and r.parent_metric is None
    sg.same(sg.evaluate(r.tensor(), c), want, tol=sg.tol(TOL), scale=1 + sg.amax(der) + sg.amax(val) ** 2, what="Riemann of a connection ")
    return ["n=%d" % n, "terms %d" % min(len(c["terms"]), 6)] + (["trivial"] if sg.amax(want) < TOL else [])


@st.composite
def cases(draw, dims=(2, 2, 3, 3, 3, 4), kinds=("mixed", "pullback", "mixed", "mixed"), rich=2):
    n = draw(st.sampled_from(dims))
    c = draw(sg.metrics(dims=(n,), off=3 if n < 4 else 1, rich=rich, kinds=kinds))
    sg.tame(c)
    c["config"] = draw(st.sampled_from(["ll", "ll", "ll", "uu"])) if n < 4 else "ll"
    c["route"] = draw(st.sampled_from(["metric", "christoffels"] + (["lll", "luu", "uul"] if n < 3 else ["lll"] if n < 4 and len(c.get("off", [1] * 9)) < 2 else [])))
    c["pass_metric"], c["orphan"] = draw(st.integers(0, 1)), draw(st.sampled_from([0, 1, 0]))
    return c


@st.composite
def connections(draw):
    n = draw(st.sampled_from((2, 3, 4)))
    c = dict(n=n, names=list(draw(st.sampled_from(sg.NAMES))), kind="connection", assume=draw(st.sampled_from(["", "real", "positive"])))
    e = st.one_of(st.sampled_from([["x", 0], ["x", 1], ["x", 2], ["x", 3], [1, 2], [-2, 1], ["p", 0], ["*", ["x", 0], ["x", 1]], ["*", ["p", 1], ["x", 2], ["x", 3]]]), sg.factor())
    c["terms"] = [list(t) for t in draw(st.lists(st.tuples(*[st.integers(0, 3)] * 3, e), min_size=1, max_size=9))]
    c["at"] = [draw(st.sampled_from([[1, 1], [1, 2], [3, 2], [2, 3], [-1, 3]])) for _ in range(n)]
    if c["assume"] == "positive":
        c["at"] = [[abs(a), b] for a, b in c["at"]]
    c["pv"] = [draw(st.sampled_from([[1, 2], [1, 3], [2, 3], [-3, 4]])) for _ in sg.PARAMS]
    c["aslist"] = draw(st.integers(0, 1))
    return c


nonflat = lambda c: sg.curved(c)
CHECK = Check("S03", [
    Sub("from_metric", cases(), test_metric, 120, 8000, nontrivial=nonflat, **sg.SYM, rule="generated metric (2-4 dimensions, off-diagonal terms, undefined functions, parameters, covariant or contravariant, pull-backs of flat space), through the metric or Christoffel symbols in any configuration; all n^4 components against the numeric oracle, and the identities; non-trivial: non-zero connection"),
    Sub("lowered", cases(dims=(2, 3, 3), kinds=("mixed",), rich=1), test_lowered, 48, 3000, nontrivial=nonflat, **sg.SYM, rule="same with the code's own fully lowered form; non-trivial: curved"),
    Sub("connections", connections(), test_connection, 168, 8000, **sg.SYM, rule="arbitrary symmetric connection of up to nine generated components; non-trivial: some component of the curvature is non-zero"),
], assumptions=["components are compared numerically (30 digits) at one generated rational point per case, undefined functions replaced by concrete ones"], quick_budget=200)
