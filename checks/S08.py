"""S08 tensor products and contractions."""
import itertools
import numpy as np
import sympy
from harness import Check, Sub, Skip, st, raises
import tens
from tens import CLASSES, BaseRelativityTensor
from einsteinpy.symbolic import MetricTensor
from einsteinpy.symbolic.tensor import tensor_product


def make(c, which, X):
    d = c[which]
    n = c["n"]
    A = tens.array(d["vals"], n, d["rank"], X, salt=d["salt"])
    cfg = d["cfg"][:d["rank"]]
    cl = d["cls"]
    kw = dict(parent_metric=c["_m"]) if d["own"] else {}
    if cl == "generic" or CLASSES[cl][1] != d["rank"]:
        t = BaseRelativityTensor(tens.sarr(A), X, config=cfg, **kw)
    else:
        t = CLASSES[cl][0](tens.sarr(A), X, config=cfg, **kw)
    return t, A, cfg


def test(c):
    c = dict(c)
    n = c["n"]
    X = tens.syms(c)
    vals = tens.values(c, X)
    c["_m"] = MetricTensor(sympy.diag(*[1 + k for k in range(n)]).tolist(), X)
    t1, A, c1 = make(c, "first", X)
    t2, B, c2 = make(c, "second", X)
    i, j = c["i"], c["j"]
    r1, r2 = len(c1), len(c2)
    A0, B0 = tens.num(A, vals), tens.num(B, vals)
    P = np.multiply.outer(A0, B0)
    P = np.array(P, dtype=object).reshape(A0.shape + B0.shape)
    if c["contract"] and r1 and r2:
        i, j = i % r1, j % r2
        if c1[i] == c2[j]:
            raises(ValueError, tensor_product, t1, t2, i, j)
            lab = ["same kind refused"]
            r, want, cfg = None, None, None
        else:
            r = tensor_product(t1, t2, i, j) if c["kw"] else tensor_product(t1, t2, i=i, j=j)
            want = np.array(np.trace(P, axis1=i, axis2=r1 + j), dtype=object).reshape((n,) * (r1 + r2 - 2))
            cfg = c1[:i] + c1[i + 1:] + c2[:j] + c2[j + 1:]
            lab = ["contracted", "contract (%s,%s)" % (("first" if i == 0 else "later"), ("first" if j == 0 else "later"))]
    else:
        r, want, cfg, lab = tensor_product(t1, t2), P, c1 + c2, ["product"]
    if r is not None:
        assert isinstance(r, BaseRelativityTensor)
        assert r.config == cfg, "configuration %r, expected %r" % (r.config, cfg)
        assert r.order == len(cfg), "order %d" % r.order
        assert tuple(r.symbols()) == X
        assert r.parent_metric is t1.parent_metric
        got = tens.num(tens.nparr(r), vals)
        tens.equal(got, want, "product of %s and %s%s" % (c1, c2, " over (%d,%d)" % (i, j) if lab[0] == "contracted" else ""))
        # what the product says about itself: a numeric function of it needs no further input
        if not r.functions and r.order:
            args, f = r.tensor_lambdify()
            v = np.array(f(*[float(vals[a]) for a in args]), dtype=object)
            assert v.shape == want.shape, "numeric function: shape %s" % (v.shape,)
            for idx in np.ndindex(*want.shape):
                try:
                    x = float(v[idx])
                except TypeError:
                    raise AssertionError("numeric function of the product returns %s (arguments %s)" % (v[idx], args))
                w = float(want[idx])
                assert abs(x - w) <= 1e-9 * (1 + abs(w) + float(max(abs(q) for q in P.ravel()) if P.size else 0)), "numeric function: %s, expected %s" % (x, w)
    # the factors are untouched
    assert t1.config == c1 and t2.config == c2
    assert (tens.num(tens.nparr(t1), vals) == A0).all() and (tens.num(tens.nparr(t2), vals) == B0).all()
    lab += ["ranks %d,%d" % (r1, r2), "n=%d" % n]
    return lab + (["trivial"] if r is not None and all(v == 0 for v in want.ravel()) else [])


def test_metric(c):
    """lowering by a product with the metric equals change_config; g times its inverse is the identity"""
    n = c["n"]
    X = tens.syms(c)
    vals = tens.values(c, X)
    g = tens.metric(dict(c["m"], n=n), X)
    if sympy.simplify(g.det()) == 0 or g.subs(vals).det() == 0:
        raise Skip("singular metric")
    m = MetricTensor(g.tolist(), X)
    A = tens.array(c["vals"], n, 1, X)
    v = tens.GenericVector(tens.sarr(A), X, config="u", parent_metric=m)
    low = tensor_product(m, v, c["i"], 0)
    want = v.change_config("l")
    assert low.config == "l"
    tens.equal(tens.num(tens.nparr(low), vals), tens.num(tens.nparr(want), vals), "g_ab v^b ")
    one = tensor_product(m, m.inv(), c["i"], c["j"])
    assert one.config == "lu"
    tens.equal(tens.num(tens.nparr(one), vals), np.array(sympy.eye(n).tolist(), dtype=object), "g_ab g^bc ")
    return ["n=%d" % n]


@st.composite
def one(draw):
    cl = draw(st.sampled_from(["generic", "generic"] + list(CLASSES)))
    rank = draw(st.sampled_from([0, 1, 2, 3])) if cl == "generic" else min(CLASSES[cl][1], 3)
    return dict(cls=cl, rank=rank, cfg=draw(st.text(alphabet="ul", min_size=4, max_size=4)), vals=draw(st.lists(tens.poly, min_size=3, max_size=7)), salt=draw(st.integers(0, 6)), own=draw(st.integers(0, 1)))


@st.composite
def cases(draw):
    rt = lambda: [draw(st.sampled_from([1, 2, 3, 5, -1, -2])), draw(st.sampled_from([1, 2, 3]))]
    a, b = draw(one()), draw(one())
    n = draw(st.sampled_from([2, 2, 3])) if a["rank"] + b["rank"] < 5 else 2
    if a["rank"] + b["rank"] == 2:
        n = draw(st.sampled_from([2, 3, 4]))
    return dict(n=n, names=draw(st.integers(0, 2)), first=a, second=b, contract=draw(st.sampled_from([0, 1, 1])), i=draw(st.integers(0, 2)), j=draw(st.integers(0, 2)), kw=draw(st.integers(0, 1)),
                at=[rt() for _ in range(n)], pv=[rt() for _ in range(3)])


@st.composite
def metric_cases(draw):
    rt = lambda: [draw(st.sampled_from([1, 2, 3, 5, -1, -2])), draw(st.sampled_from([1, 2, 3]))]
    n = draw(st.sampled_from([2, 3, 3, 4]))
    return dict(n=n, names=draw(st.integers(0, 2)), m=draw(tens.metrics(n, 2)), vals=draw(st.lists(tens.poly, min_size=3, max_size=7)), i=draw(st.integers(0, 1)), j=draw(st.integers(0, 1)), at=[rt() for _ in range(n)], pv=[rt() for _ in range(3)])


CHECK = Check("S08", [
    Sub("products", cases(), test, 1200, 30000, case_timeout=10, max_timeouts=6, shards=24, rule="two tensors of generated class, rank 0-3, configuration and components (rationals, coordinates, parameters), plain product or contraction over generated index positions, exact comparison with explicit sums; numeric function of the product; non-trivial: result not zero or refused"),
    Sub("with_metric", metric_cases(), test_metric, 96, 4000, case_timeout=10, max_timeouts=6, shards=16, rule="contraction with a generated full metric: lowering and inverse"),
], assumptions=["components are compared exactly at one generated rational point per case"], quick_budget=200, quick_scale=4)
