"""S06 Schouten and Weyl tensors."""
import numpy as np
import mpmath as mp
import sympy
from harness import Check, Sub, Skip, st, raises
import symgen as sg
from checks.S03 import identities
from einsteinpy.symbolic import MetricTensor, SchoutenTensor, WeylTensor

TOL = mp.mpf(10) ** -14


@sg.paired
def test_schouten(c):
    G = sg.geometry(c)
    m = sg.metric_tensor(c, c["config"])
    s = SchoutenTensor.from_metric(m)
    assert isinstance(s, SchoutenTensor) and s.config == "ll" and s.order == 2 and list(s.symbols()) == sg.symbols(c)
    assert s.parent_metric is m
    cond = (sg.amax(G.g) * sg.amax(G.ginv)) ** 2
    scale = cond * (1 + sg.amax(G.dchris) + sg.amax(G.chris) ** 2)
    sg.same(sg.evaluate(s.tensor(), c), G.schouten, tol=sg.tol(TOL), scale=scale, what="Schouten ")
    return sg.labels(c) + [c["config"]] + ([] if sg.amax(G.schouten) > TOL else ["trivial"])


@sg.paired
def test_weyl(c):
    G = sg.geometry(c)
    n = c["n"]
    m = sg.metric_tensor(c, c["config"])
    w = WeylTensor.from_metric(m)
    assert isinstance(w, WeylTensor) and w.config == "llll" and w.order == 4 and list(w.symbols()) == sg.symbols(c)
    assert w.parent_metric is m
    got = sg.evaluate(w.tensor(), c)
    cond = (sg.amax(G.g) * sg.amax(G.ginv)) ** 2
    scale = cond * (1 + sg.amax(G.dchris) + sg.amax(G.chris) ** 2) * (1 + sg.amax(G.g))
    if n == 3:
        assert sg.amax(got) == 0, "Weyl tensor in three dimensions is not zero"
        return ["n=3", "trivial"]
    sg.same(got, G.weyl_l, tol=sg.tol(TOL), scale=scale, what="Weyl ")
    identities(got, sg.tol(TOL) * scale * 10)
    for (a, b) in ((0, 2), (1, 3), (0, 3), (1, 2)):
        t = np.tensordot(G.ginv, got, axes=((0, 1), (a, b)))
        assert sg.amax(t) <= sg.tol(TOL) * scale * (1 + sg.amax(G.ginv)) * 10, "trace over %s of the Weyl tensor is not zero" % ((a, b),)
    return sg.labels(c) + (["trivial"] if sg.amax(G.weyl_l) < TOL else [])


@sg.paired
def test_conformal(c):
    """C^a_bcd of f g equals that of g; conformally flat metrics have none"""
    G = sg.geometry(c)
    base = dict(c)
    base.pop("conf")
    G0 = sg.geometry(base)
    w = sg.evaluate(WeylTensor.from_metric(sg.metric_tensor(c)).tensor(), c)
    up = np.tensordot(G.ginv, w, axes=(1, 0))
    cond = (sg.amax(G.g) * sg.amax(G.ginv)) ** 2
    scale = cond * (1 + sg.amax(G.dchris) + sg.amax(G.chris) ** 2) * (1 + sg.amax(G.g)) * (1 + sg.amax(G.ginv))
    want = np.tensordot(G0.ginv, G0.weyl_l, axes=(1, 0))
    sg.same(up, want, tol=sg.tol(TOL), scale=scale, what="conformal invariance: C^a_bcd ")
    if c["kind"] == "pullback":
        assert sg.amax(up) <= sg.tol(TOL) * scale, "a conformally flat metric has a Weyl tensor"
    return sg.labels(c) + (["conformally flat"] if c["kind"] == "pullback" else []) + (["trivial"] if sg.amax(G.riemann) < TOL else [])


def test_dims(c):
    """dimensions where they are undefined are refused; 5 dimensions work"""
    n = c["n"]
    X = sympy.symbols("x0:%d" % n)
    g = [[0] * n for _ in range(n)]
    for i in range(n):
        g[i][i] = (X[(i + c["k"]) % n] ** 2 + 1) if i in c["dep"] else (-1) ** (i + c["k"])
    m = MetricTensor(g, X, config=c["config"])
    if n < 3:
        raises(ValueError, SchoutenTensor.from_metric, m)
        raises(ValueError, WeylTensor.from_metric, m)
        return ["n=%d" % n]
    import curv
    gl = g if c["config"] == "ll" else sympy.diag(*[g[i][i] for i in range(n)]).inv().tolist()
    pt = {x: sympy.Rational(1 + i, 2) for i, x in enumerate(X)}
    G = curv.Geometry(gl, X, pt)
    ev = lambda t, sh: np.array([mp.mpmathify(sympy.N(sympy.sympify(v).subs(pt), 25)) for v in sympy.flatten(t.tolist())], dtype=object).reshape(sh)
    s = SchoutenTensor.from_metric(m)
    sg.same(ev(s.tensor(), (n, n)), G.schouten, tol=1e-15, scale=100, what="Schouten n=%d " % n)
    if n != 5 or len(c["dep"]) < 3:
        w = WeylTensor.from_metric(m)
        sg.same(ev(w.tensor(), (n,) * 4), G.weyl_l, tol=1e-15, scale=100, what="Weyl n=%d " % n)
    return ["n=%d" % n] + (["trivial"] if sg.amax(G.schouten) < TOL else [])


@st.composite
def cases(draw, dims=(3, 3, 4), conf=False, kinds=("mixed",)):
    n = draw(st.sampled_from(dims))
    c = sg.tame(draw(sg.metrics(dims=(n,), off=2 if n < 4 else 1, rich=1, kinds=kinds, conf=conf)))
    if conf:            # cheap conformal factors only
        c["off"] = c.get("off", [])[:0] if draw(st.integers(0, 2)) else c.get("off", [])[:1]
        i = draw(st.integers(0, n - 1))
        c["conf"] = draw(st.sampled_from([["exp", ["*", [2, 1], ["x", i]]], ["^", ["+", [2, 1], ["x", i]], 2], ["^", ["+", [2, 1], ["x", i]], -2], ["^", ["x", i], -2], ["+", [1, 1], ["^", ["x", i], 2]]]))
        if c["kind"] == "mixed":
            k = 0
            for q, d in enumerate(c["diag"]):
                if d[0] == "*":
                    k += 1
                    if k > 2:
                        c["diag"][q] = [1, 1]
    c["config"] = draw(st.sampled_from(["ll", "ll", "uu"])) if n == 3 else "ll"
    return c


@st.composite
def dim_cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 3, 4, 5]))
    return dict(n=n, k=draw(st.integers(0, 3)), dep=sorted(draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=min(n, 3)))), config=draw(st.sampled_from(["ll", "uu"])))


CHECK = Check("S06", [
    Sub("schouten", cases(), test_schouten, 56, 4000, nontrivial=sg.curved, **sg.SYM, rule="generated metric in 3-4 dimensions, covariant or contravariant; non-trivial: Schouten tensor not zero"),
    Sub("weyl", cases((4, 4, 4, 4, 3)), test_weyl, 72, 4000, nontrivial=sg.curved, **dict(sg.SYM, case_timeout=8), rule="generated metric in 4 (and 3) dimensions; all components against the numeric oracle, symmetries and traces; non-trivial: Weyl tensor not zero"),
    Sub("conformal", cases((4,), True, ("mixed", "mixed", "pullback")), test_conformal, 32, 3000, **dict(sg.SYM, case_timeout=8), rule="generated metric times a generated conformal factor: C^a_bcd unchanged, zero for conformally flat ones; non-trivial: curved"),
    Sub("dimensions", dim_cases(), test_dims, 32, 400, case_timeout=30, shards=16, rule="1 to 5 dimensions: refused below 3, compared with the oracle from 3 on; non-trivial: Schouten tensor not zero"),
], assumptions=["components are compared numerically (30 digits) at one generated rational point per case, undefined functions replaced by concrete ones"], quick_budget=200)
