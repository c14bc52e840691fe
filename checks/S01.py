"""S01 metric tensor and inverse over sequences of conversions (stateful)."""
import numpy as np
import mpmath as mp
import sympy
from harness import Check, Sub, Skip, st, raises
import symgen as sg
from einsteinpy.symbolic import MetricTensor


@sg.paired
def test(c):
    G = sg.geometry(c)
    want = {"ll": G.g, "uu": G.ginv}
    scale = {k: 1 + sg.amax(v) for k, v in want.items()}
    cond = sg.amax(G.g) * sg.amax(G.ginv)
    X = sg.symbols(c)
    m = sg.metric_tensor(c, c["config"], **({"name": c["name"]} if c["name"] is not None else {}))
    objs, hist = [m], []
    arr0 = sympy.Array(m.tensor())

    def verify(o, what):
        assert isinstance(o, MetricTensor), "%s: %s" % (what, type(o))
        assert o.config in ("ll", "uu"), o.config
        assert list(o.symbols()) == X and o.dims == c["n"] and o.order == 2
        assert o.parent_metric is not None
        sg.same(sg.evaluate(o.tensor(), c), want[o.config], tol=mp.mpf(10) ** -15 * cond, scale=scale[o.config], what="%s (%s) " % (what, o.config))

    verify(m, "given")
    for (k, op) in c["ops"]:
        o = objs[k % len(objs)]
        hist.append("%s of #%d" % (op, k % len(objs)))
        what = "after " + ", ".join(hist) + ":"
        cfg = o.config
        if op == "inv":
            r = o.inv()
            assert r.config == ("uu" if cfg == "ll" else "ll"), "%s inv of %s is %s" % (what, cfg, r.config)
        elif op in ("uu", "ll"):
            r = o.change_config(op)
            assert r.config == op, "%s change_config(%s) is %s" % (what, op, r.config)
        elif op == "default":
            r = o.change_config()
            assert r.config == "uu"
        elif op == "lower":
            r = o.lower_config()
            assert r.config == "ll"
        elif op in ("ul", "lu", "lll", "u", "xx"):
            if op != cfg:
                raises((ValueError, TypeError) if op not in ("ul", "lu") else ValueError, o.change_config, op)
            continue
        elif op == "simplify":
            o.simplify(set_self=bool(k % 2))
            verify(o, what)
            continue
        verify(r, what)
        assert o.config == cfg, "%s the original changed its configuration" % what
        objs.append(r)
    for i, o in enumerate(objs):
        verify(o, "object #%d after %s" % (i, hist))
    if not any(op == "simplify" for _, op in c["ops"]):
        assert m.tensor() == arr0, "the original components changed"
    # product of both forms
    lo, up = [x for x in objs if x.config == "ll"], [x for x in objs if x.config == "uu"]
    if lo and up:
        a, b = sg.evaluate(lo[-1].tensor(), c), sg.evaluate(up[-1].tensor(), c)
        sg.same(a @ b, np.array([[mp.mpf(i == j) for j in range(c["n"])] for i in range(c["n"])], dtype=object), tol=mp.mpf(10) ** -15 * cond, what="g_ab g^bc ")
    return sg.labels(c) + [c["config"], "ops %d" % min(len(c["ops"]), 4)]


@st.composite
def cases(draw):
    c = draw(sg.metrics(off=3, rich=2))
    c["config"] = draw(st.sampled_from(["ll", "uu"]))
    c["name"] = draw(st.sampled_from([None, "g", "Some metric"]))
    c["ops"] = [list(t) for t in draw(st.lists(st.tuples(st.integers(0, 5), st.sampled_from(["inv", "inv", "uu", "ll", "default", "lower", "ul", "lu", "lll", "u", "xx", "simplify"])), min_size=1, max_size=6))]
    return c


CHECK = Check("S01", [
    Sub("conversions", cases(), test, 320, 8000, nontrivial=lambda c: c["kind"] == "pullback" or any(i % c["n"] != j % c["n"] for i, j, _ in c["off"]), **sg.SYM,
        rule="generated metric (2-4 dimensions, functions, parameters, off-diagonal), covariant or contravariant, sequence of up to six conversions on any object obtained so far; every object checked after every step; non-trivial: non-diagonal metric"),
], assumptions=["components are compared numerically (30 digits) at one generated rational point per case, undefined functions replaced by concrete ones"], quick_budget=200)
