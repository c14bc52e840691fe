"""S04 Ricci tensor and scalar on every construction path."""
import itertools
import numpy as np
import mpmath as mp
import sympy
from harness import Check, Sub, Skip, st
import symgen as sg
from einsteinpy.symbolic import ChristoffelSymbols, MetricTensor, RicciScalar, RicciTensor, RiemannCurvatureTensor

TOL = mp.mpf(10) ** -15
CFG2 = ["ll", "ul", "lu", "uu"]
CFG3 = ["".join(p) for p in itertools.product("ul", repeat=3)]
CFG4 = ["".join(p) for p in itertools.product("ul", repeat=4)]


def ricci_ok(r, c, G, what, scale):
    assert isinstance(r, RicciTensor) and r.config == "ll" and r.order == 2 and r.dims == c["n"]
    assert list(r.symbols()) == sg.symbols(c)
    sg.same(sg.evaluate(r.tensor(), c), G.ricci, tol=sg.tol(TOL), scale=scale, what="Ricci %s " % what)


def scalar_ok(s, c, G, what, scale):
    assert isinstance(s, RicciScalar) and s.order == 0 and s.config == ""
    v = sg.evaluate([s.expr], c)[0]
    if not abs(v - G.scalar) <= sg.tol(TOL) * scale:
        raise AssertionError("Ricci scalar %s: %s, expected %s" % (what, mp.nstr(v, 15), mp.nstr(G.scalar, 15)))
    w = sg.evaluate(s.tensor(), c)
    assert abs(w.ravel()[0] - G.scalar) <= sg.tol(TOL) * scale, "scalar array differs from the expression"


@sg.paired
def test_paths(c):
    G = sg.geometry(c)
    m = sg.metric_tensor(c, c["config"])
    cond = (sg.amax(G.g) * sg.amax(G.ginv)) ** 2
    scale = cond * (1 + sg.amax(G.dchris) + sg.amax(G.chris) ** 2)
    sscale = scale * (1 + sg.amax(G.ginv))
    path, pm = c["path"], (dict(parent_metric=m) if c["pass_metric"] else {})
    if path == "metric":
        ricci_ok(RicciTensor.from_metric(m), c, G, "from the metric", scale)
        scalar_ok(RicciScalar.from_metric(m), c, G, "from the metric", sscale)
        return fin(c, G)
    ch = ChristoffelSymbols.from_metric(m)
    if path == "christoffels":
        if c["c3"] != "ull":
            ch = ch.change_config(c["c3"])
        if c["orphan"]:             # no parent metric of its own: taken from the argument
            ch, pm = ChristoffelSymbols(ch.tensor(), ch.symbols(), config=ch.config), dict(parent_metric=m)
        r = RicciTensor.from_christoffels(ch, **pm)
        ricci_ok(r, c, G, "from %s Christoffel symbols" % c["c3"], scale)
        assert r.parent_metric is not None
        scalar_ok(RicciScalar.from_christoffels(ch, **pm), c, G, "from %s Christoffel symbols" % c["c3"], sscale)
        return fin(c, G)
    rm = RiemannCurvatureTensor.from_christoffels(ch)
    if path == "riemann":
        if c["c4"] != "ulll":
            rm = rm.change_config(c["c4"])
        if c["orphan"]:
            rm, pm = RiemannCurvatureTensor(rm.tensor(), rm.symbols(), config=rm.config), dict(parent_metric=m)
        r = RicciTensor.from_riemann(rm, **pm)
        ricci_ok(r, c, G, "from %s Riemann" % c["c4"], scale)
        scalar_ok(RicciScalar.from_riemann(rm, **pm), c, G, "from %s Riemann" % c["c4"], sscale)
        return fin(c, G)
    r = RicciTensor.from_riemann(rm)
    r2 = r.change_config(c["c2"]) if c["c2"] != "ll" else r
    if c["orphan"]:
        r2, pm = RicciTensor(r2.tensor(), r2.symbols(), config=r2.config), dict(parent_metric=m)
    scalar_ok(RicciScalar.from_riccitensor(r2, **pm), c, G, "from %s Ricci" % c["c2"], sscale)
    return fin(c, G)


def fin(c, G):
    return sg.labels(c) + [c["path"]] + ([c["c3"]] if c["path"] == "christoffels" else []) + ([c["c4"]] if c["path"] == "riemann" else []) \
        + ([c["c2"]] if c["path"] == "ricci" else []) + (["orphan"] if c["orphan"] else []) + (["trivial"] if sg.amax(G.ricci) < TOL else [])


@st.composite
def paths(draw):
    n = draw(st.sampled_from((2, 3, 3, 4)))
    c = sg.tame(draw(sg.metrics(dims=(n,), off=2 if n < 4 else 1, rich=2 if n < 4 else 1, kinds=("mixed",))))
    off = len(c["off"])
    c["config"] = draw(st.sampled_from(["ll", "ll", "ll", "uu"])) if n < 4 else "ll"
    c["path"] = draw(st.sampled_from(["metric", "christoffels", "riemann", "ricci"]))
    heavy = n == 4 or (n == 3 and off > 0)
    c["c3"] = draw(st.sampled_from(["ull", "lll"] if heavy else CFG3))
    c["c4"] = draw(st.sampled_from(["ulll", "llll"] if heavy else CFG4))
    c["c2"] = draw(st.sampled_from(CFG2))
    c["pass_metric"], c["orphan"] = draw(st.integers(0, 1)), draw(st.sampled_from([0, 0, 1]))
    return c


# ---- synthetic Riemann/Ricci arrays: pure index algebra in any configuration
def test_algebra(c):
    n = c["n"]
    X = sympy.symbols("x0:%d" % n)
    q = lambda v: sympy.Rational(v[0], v[1])
    g = sympy.Matrix(n, n, lambda i, j: q(c["g"][(min(i, j) * n + max(i, j)) % len(c["g"])]) * (1 if i == j else sympy.Rational(1, 4)) + (3 if i == j else 0))
    for i, j in itertools.combinations(range(n), 2):
        if c["zero"][(i * 2 + j) % len(c["zero"])]:
            g[i, j] = g[j, i] = 0
    if g.det() == 0:
        raise Skip("singular metric")
    gi = g.inv()
    m = MetricTensor(g.tolist() if c["config"] == "ll" else gi.tolist(), X, config=c["config"])
    N = lambda M: np.array(M.tolist(), dtype=object)
    up, lo = N(gi), N(g)
    vals = [q(v) for v in c["vals"]]
    rank = 4 if c["what"] == "riemann" else 2
    cfg = c["c4"] if rank == 4 else c["c2"]
    A = np.empty((n,) * rank, dtype=object)
    for k, idx in enumerate(itertools.product(range(n), repeat=rank)):
        A[idx] = vals[(k * 7 + k // len(vals)) % len(vals)]
    if rank == 4:
        B = A
        for k, ch in enumerate(cfg):
            if ch != "ulll"[k]:
                B = np.moveaxis(np.tensordot(up if k == 0 else lo, B, axes=(1, k)), 0, k)
        want = np.trace(B, axis1=0, axis2=2)
        kw = {} if c["own"] else dict(parent_metric=m)
        r = RiemannCurvatureTensor(sympy.Array(A.tolist()), X, config=cfg, parent_metric=m if c["own"] else None)
        ric = RicciTensor.from_riemann(r, **kw)
        assert ric.config == "ll"
        got = np.array(ric.tensor().tolist(), dtype=object).reshape(n, n)
        assert (got - want == 0).all(), "contraction of a %s Riemann tensor: %s, expected %s" % (cfg, got.tolist(), want.tolist())
        s = RicciScalar.from_riemann(r, **kw)
        wants = sum(up[i, j] * want[i, j] for i in range(n) for j in range(n))
    else:
        B = A
        for k, ch in enumerate(cfg):
            if ch != "ul"[k]:
                B = np.moveaxis(np.tensordot(up if k == 0 else lo, B, axes=(1, k)), 0, k)
        wants = np.trace(B)
        r = RicciTensor(sympy.Array(A.tolist()), X, config=cfg, parent_metric=m if c["own"] else None)
        s = RicciScalar.from_riccitensor(r, *([] if c["own"] else [m]))
    assert sympy.simplify(s.expr - wants) == 0, "scalar of a %s tensor: %s, expected %s" % (cfg, s.expr, wants)
    assert s.parent_metric is m
    return [c["what"], cfg, "n=%d" % n, c["config"]]


@st.composite
def arrays(draw):
    r = st.tuples(st.integers(-4, 4), st.sampled_from([1, 2, 3])).map(list)
    what = draw(st.sampled_from(["riemann", "ricci"]))
    return dict(n=draw(st.sampled_from([2, 2, 3] if what == "riemann" else [2, 3, 4, 4, 5])), what=what, zero=draw(st.lists(st.integers(0, 1), min_size=1, max_size=6)), c4=draw(st.sampled_from(CFG4)), c2=draw(st.sampled_from(CFG2)), own=draw(st.integers(0, 1)),
                config=draw(st.sampled_from(["ll", "uu"])), g=draw(st.lists(r, min_size=3, max_size=9)), vals=draw(st.lists(r, min_size=5, max_size=11)))


@sg.paired
def test_scaling(c):
    """g -> k g: Ricci unchanged, scalar divided by k"""
    g, X = sg.build(c)
    k = sympy.Rational(*c["k"]) * (sympy.Symbol("a") ** 2 if c["sym"] else 1)
    sg.geometry(c)
    A, B = MetricTensor(g, X), MetricTensor([[k * v for v in r] for r in g], X)
    ra, rb = RicciTensor.from_metric(A), RicciTensor.from_metric(B)
    va, vb = sg.evaluate(ra.tensor(), c), sg.evaluate(rb.tensor(), c)
    sc = 1 + sg.amax(va)
    sg.same(vb, va, tol=mp.mpf(10) ** -14 * 1000, scale=sc, what="Ricci of %s g " % k)
    sg.same(va, va.T, tol=sg.tol(TOL) * 100, scale=sc, what="symmetry ")
    sa, sb = RicciScalar.from_riccitensor(ra), RicciScalar.from_riccitensor(rb)
    kv = sg.evaluate([k], c)[0]
    x, y = sg.evaluate([sa.expr], c)[0], sg.evaluate([sb.expr], c)[0]
    assert abs(y * kv - x) <= mp.mpf(10) ** -12 * (1 + abs(x) + sc), "scalar of %s g: %s times that, expected %s" % (k, y, x)
    return sg.labels(c) + (["trivial"] if sg.amax(va) < TOL else [])


@st.composite
def scalings(draw):
    n = draw(st.sampled_from((2, 2, 3)))
    c = sg.tame(draw(sg.metrics(dims=(n,), off=1, rich=1, kinds=("mixed",))))
    c["k"], c["sym"] = draw(st.sampled_from([[2, 1], [-1, 1], [1, 3], [-5, 2]])), draw(st.integers(0, 1))
    return c


CHECK = Check("S04", [
    Sub("paths", paths(), test_paths, 120, 8000, nontrivial=sg.curved, **sg.SYM, rule="generated metric in 2-4 dimensions; Ricci tensor and scalar from the metric, Christoffel symbols, Riemann or Ricci tensor in a generated index configuration, with the parent metric of the input or passed as argument, against the numeric oracle; non-trivial: Ricci tensor not zero"),
    Sub("index_algebra", arrays(), test_algebra, 480, 16000, case_timeout=20, shards=16, rule="arbitrary rational component arrays as Riemann/Ricci tensors in all 16/4 configurations with a generated full metric; exact contraction"),
    Sub("scaling", scalings(), test_scaling, 48, 2000, nontrivial=sg.curved, **sg.SYM, rule="constant (numeric or symbolic) multiple of a generated metric; non-trivial: Ricci tensor not zero"),
], assumptions=["components are compared numerically (30 digits) at one generated rational point per case, undefined functions replaced by concrete ones"], quick_budget=200)
