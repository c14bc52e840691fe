"""S07 raising and lowering indices over histories of configuration changes (stateful)."""
import itertools
import numpy as np
import sympy
from harness import Check, Sub, Skip, st, raises
import tens
from tens import CLASSES
from einsteinpy.symbolic import MetricTensor


def test(c):
    n = c["n"]
    X = tens.syms(c)
    cls, rank, default = CLASSES[c["cls"]]
    vals = tens.values(c, X)
    gs = []
    for m in c["metrics"]:
        g = tens.metric(dict(m, n=n), X)
        if g.subs(vals).det() == 0 or sympy.simplify(g.det()) == 0:
            raise Skip("singular metric")
        gs.append((g, tens.num(g.tolist(), vals), tens.num(g.subs(vals).inv().tolist(), {})))
    mets = [MetricTensor(g.tolist(), X) if m["form"] == "ll" else MetricTensor(sympy.simplify(g.inv()).tolist(), X, config="uu") for m, (g, _, _) in zip(c["metrics"], gs)]
    cfg0 = c["cfg"][:rank]
    A = tens.array(c["vals"], n, rank, X)
    kw = {} if c["name"] == "-" else dict(name=c["name"])
    parent = mets[0] if c["own"] else None
    t = cls(tens.sarr(A), X, config=cfg0, parent_metric=parent, **kw)
    name0 = t.name
    A0 = tens.num(A, vals)
    objs = [(t, A0, cfg0, parent, name0)]
    hist = []
    for (k, op, arg, mi) in c["ops"]:
        o, B, cfg, par, nm = objs[k % len(objs)]
        m = mets[mi % len(mets)] if mi >= 0 else None
        eff = m if m is not None else par
        new = default if op == "default" else arg[:rank]
        hist.append("#%d.change_config(%s)" % (k % len(objs), new))
        if op == "bad":
            bad = [arg[:rank - 1], arg[:rank] + "u", "x" * rank, (arg[:rank - 1] + "U"), ""][len(hist) % 5]
            if eff is not None:
                raises(ValueError, o.change_config, bad, eff)
            continue
        if eff is None:
            try:
                o.change_config(new)
            except Exception:
                continue
            raise AssertionError("configuration change without a metric was not refused")
        args = ([] if op == "default" else [new])
        r = o.change_config(*args, **({} if m is None else dict(metric=m)))
        lo, up = gs[mets.index(eff)][1:] if False else [(a, b) for q, (_, a, b) in zip(mets, gs) if q is eff][0]
        want = tens.configured(B, cfg, new, lo, up)
        what = " -> ".join(hist) + ": "
        assert type(r) is cls, "%sresult is a %s" % (what, type(r).__name__)
        assert r.config == new, "%sconfiguration %s" % (what, r.config)
        assert r.parent_metric is eff, what + "parent metric"
        assert tuple(r.symbols()) == X and r.order == rank and r.dims == n
        assert r.name == (None if nm is None else nm + "__" + new), "%sname %r" % (what, r.name)
        got = tens.num(tens.nparr(r), vals)
        assert (got == want).all(), "%s%s" % (what, [(i, got[i], want[i]) for i in np.ndindex(*got.shape) if got[i] != want[i]][:3])
        assert o.config == cfg and o.name == nm and o.parent_metric is par, what + "the original changed"
        objs.append((r, want, new, eff, r.name))
    for (o, B, cfg, par, nm) in objs[:3]:
        assert (tens.num(tens.nparr(o), vals) == B).all() and o.config == cfg, "components of an earlier object changed"
    chg = sum(o[2] != objs[0][2] for o in objs[1:])
    full = any(g[i, j] != 0 for g, _, _ in gs[:1] for i in range(n) for j in range(i))
    return [c["cls"], "n=%d" % n, "objects %d" % len(objs)] + (["off-diagonal metric"] if full else []) + ([] if chg else ["trivial"])


@st.composite
def cases(draw, cls=tuple(CLASSES)):
    k = draw(st.sampled_from(cls))
    rank = CLASSES[k][1]
    n = draw(st.sampled_from((2, 2, 3) if rank > 2 else (2, 3, 4)))
    conf = st.text(alphabet="ul", min_size=4, max_size=4)
    mets = [dict(draw(tens.metrics(n, 1 if rank > 2 else 2)), form=draw(st.sampled_from(["ll", "ll", "uu"]))) for _ in range(draw(st.integers(1, 2)))]
    vals = draw(st.lists(tens.rational if rank > 2 else tens.poly, min_size=4, max_size=9))
    nops = 3 if rank > 2 else 5
    ops = [list(o) for o in draw(st.lists(st.tuples(st.integers(0, 5), st.sampled_from(["cfg", "cfg", "cfg", "cfg", "default", "bad"]), conf, st.sampled_from([-1, -1, 0, 1])), min_size=1, max_size=nops))]
    rt = lambda: [draw(st.sampled_from([1, 2, 3, 5, -1, -2])), draw(st.sampled_from([1, 2, 3]))]
    return dict(cls=k, n=n, names=draw(st.integers(0, 2)), cfg=draw(conf), metrics=mets, vals=vals, ops=ops, own=draw(st.sampled_from([1, 1, 1, 0])), name=draw(st.sampled_from(["-", None, "T", "my tensor"])),
                at=[rt() for _ in range(n)], pv=[rt() for _ in range(3)])


CHECK = Check("S07", [
    Sub("low_rank", cases(("vector", "ricci", "einstein", "stress", "schouten")), test, 400, 12000, case_timeout=10, max_timeouts=6, shards=24, rule="vector or second-rank tensor class with generated components (rationals, coordinates, parameters), one or two full metrics (covariant or contravariant), history of up to five configuration changes on any object so far, also with another metric, missing metric or malformed configuration; exact comparison with explicit contraction; non-trivial: a changed configuration"),
    Sub("high_rank", cases(("christoffel", "riemann", "weyl")), test, 160, 6000, case_timeout=12, max_timeouts=6, shards=24, rule="same for third- and fourth-rank classes"),
], assumptions=["components are compared exactly at one generated rational point per case"], quick_budget=60)
