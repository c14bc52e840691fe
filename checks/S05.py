"""S05 Einstein and stress-energy-momentum tensors."""
import itertools
import numpy as np
import mpmath as mp
import sympy
from harness import Check, Sub, Skip, st
import symgen as sg
from einsteinpy.symbolic import EinsteinTensor, MetricTensor, StressEnergyMomentumTensor, get_constant

TOL = mp.mpf(10) ** -13             # the code uses a floating point 1/2 and pi


@sg.paired
def test_einstein(c):
    G = sg.geometry(c)
    m = sg.metric_tensor(c, c["config"])
    e = EinsteinTensor.from_metric(m)
    assert isinstance(e, EinsteinTensor) and e.config == "ll" and e.order == 2 and list(e.symbols()) == sg.symbols(c)
    assert e.parent_metric is not None
    cond = (sg.amax(G.g) * sg.amax(G.ginv)) ** 2
    scale = cond * (1 + sg.amax(G.dchris) + sg.amax(G.chris) ** 2)
    v = sg.evaluate(e.tensor(), c)
    sg.same(v, G.einstein, tol=sg.tol(TOL), scale=scale, what="Einstein ")
    sg.same(v, v.T, tol=sg.tol(TOL), scale=scale, what="Einstein symmetry ")
    if c["n"] == 2:
        sg.same(v, 0 * v, tol=sg.tol(TOL), scale=scale, what="Einstein tensor in two dimensions ")
    nz = sg.amax(G.einstein) > TOL
    if c["up"]:
        u = e.change_config(c["up"])
        U = sg.evaluate(u.tensor(), c)
        W = G.einstein
        for k, ch in enumerate(c["up"]):
            if ch == "u":
                W = np.moveaxis(np.tensordot(G.ginv, W, axes=(1, k)), 0, k)
        sg.same(U, W, tol=sg.tol(TOL), scale=scale * (1 + sg.amax(G.ginv)) ** 2, what="Einstein %s " % c["up"])
    return sg.labels(c) + [c["config"]] + ([] if nz else ["trivial"])


@sg.paired
def test_divergence(c):
    """nabla^a G_ab = 0 for the expressions the code returns"""
    G = sg.geometry(c)
    n, X = c["n"], sg.symbols(c)
    e = EinsteinTensor.from_metric(sg.metric_tensor(c)).tensor()
    conc = [[sg.expr_concrete(sympy.sympify(e[i, j])) for j in range(n)] for i in range(n)]
    E = sg.evaluate(conc, c)
    dE = sg.evaluate([[[sympy.diff(conc[i][j], X[k]) for j in range(n)] for i in range(n)] for k in range(n)], c)
    div = []
    for b in range(n):
        s = mp.mpf(0)
        for a, k in itertools.product(range(n), repeat=2):
            cov = dE[k, a, b] - sum(G.chris[p, k, a] * E[p, b] + G.chris[p, k, b] * E[a, p] for p in range(n))
            s += G.ginv[k, a] * cov
        div.append(s)
    scale = (1 + sg.amax(dE) + sg.amax(G.chris) * sg.amax(E)) * (1 + sg.amax(G.ginv))
    for b in range(n):
        assert abs(div[b]) <= mp.mpf(10) ** -11 * scale, "divergence of the Einstein tensor, component %d: %s" % (b, mp.nstr(div[b], 10))
    return sg.labels(c) + (["trivial"] if sg.amax(dE) < TOL else [])


@sg.paired
def test_stress(c):
    G = sg.geometry(c)
    m = sg.metric_tensor(c, c["config"])
    t = StressEnergyMomentumTensor.from_metric(m)
    assert isinstance(t, StressEnergyMomentumTensor) and t.config == "ll" and t.order == 2 and list(t.symbols()) == sg.symbols(c)
    cs, Gs, L = get_constant("c"), get_constant("G"), get_constant("Cosmo_Const")
    free = sympy.Array(t.tensor()).free_symbols
    vals = {cs: sympy.Rational(*c["c"]), Gs: sympy.Rational(*c["G"]), L: sympy.Rational(*c["L"])}
    with mp.workdps(sg.DPS):
        f = lambda q: mp.mpf(q.p) / q.q
        k = f(vals[cs]) ** 4 / (8 * mp.pi * f(vals[Gs]))
        want = (G.einstein + f(vals[L]) * G.g) * k
    got = sg.evaluate(t.tensor(), c, extra=vals)
    cond = (sg.amax(G.g) * sg.amax(G.ginv)) ** 2
    scale = cond * (1 + sg.amax(G.dchris) + sg.amax(G.chris) ** 2 + abs(f(vals[L])) * sg.amax(G.g)) * k
    sg.same(got, want, tol=sg.tol(TOL), scale=scale, what="T ")
    if c["up"]:
        u = t.change_config(c["up"])
        assert isinstance(u, StressEnergyMomentumTensor)
        U = sg.evaluate(u.tensor(), c, extra=vals)
        W = want
        for q, ch in enumerate(c["up"]):
            if ch == "u":
                W = np.moveaxis(np.tensordot(G.ginv, W, axes=(1, q)), 0, q)
        sg.same(U, W, tol=sg.tol(TOL), scale=scale * (1 + sg.amax(G.ginv)) ** 2, what="T %s " % c["up"])
    return sg.labels(c) + [c["config"], "T " + (c["up"] or "ll")] + ([] if sg.amax(G.einstein) > TOL else ["trivial"])


def test_vacuum(c):
    """maximally symmetric spaces: R_ab = Lambda g_ab has T = 0, G = -Lambda g (4 dimensions)"""
    t, x, y, z = X = sympy.symbols("t x y z")
    H = sympy.Rational(*c["H"])
    if c["form"] == "flat":          # de Sitter, flat slicing; sgn = -1: anti-de Sitter (Poincare form)
        f = sympy.exp(2 * H * (t if c["sgn"] > 0 else x))
        g = sympy.diag(-1, f, f, f) if c["sgn"] > 0 else sympy.diag(-f, 1, f, f)
    elif c["form"] == "conformal":
        g = sympy.diag(-1, 1, 1, 1) / (H * (t if c["sgn"] > 0 else y)) ** 2
    else:                            # static
        f = 1 - c["sgn"] * H ** 2 * x ** 2
        g = sympy.diag(-f, 1 / f, x ** 2, x ** 2 * sympy.sin(y) ** 2)
    g = c["scale"] * g
    L = 3 * c["sgn"] * H ** 2 / c["scale"]
    T = StressEnergyMomentumTensor.from_metric(MetricTensor(g.tolist(), X)).tensor()
    E = EinsteinTensor.from_metric(MetricTensor(g.tolist(), X)).tensor()
    pt = dict(zip(X, [sympy.Rational(*v) for v in c["at"]]))
    for i, j in itertools.product(range(4), repeat=2):
        v = sympy.N(sympy.sympify(T[i, j]).subs(get_constant("Cosmo_Const"), L).subs(pt).subs({get_constant("c"): 1, get_constant("G"): 1}), 20)
        assert abs(v) <= 1e-11 * (1 + 10 * abs(float(g[i, j].subs(pt)))), "T[%d,%d] of a cosmological vacuum is %s" % (i, j, v)
        e = sympy.N(sympy.sympify(E[i, j]).subs(pt) + L * g[i, j].subs(pt), 20)
        assert abs(e) <= 1e-11 * (1 + 10 * abs(float(g[i, j].subs(pt)))), "G + Lambda g is %s" % e
    return [c["form"], "sign %d" % c["sgn"]]


@st.composite
def cases(draw, dims=(2, 3, 3, 3, 4, 4), rich=2):
    n = draw(st.sampled_from(dims))
    c = sg.tame(draw(sg.metrics(dims=(n,), off=2 if n < 4 else 1, rich=rich if n < 4 else 1, kinds=("mixed",))))
    c["config"] = draw(st.sampled_from(["ll", "ll", "ll", "uu"])) if n < 4 else "ll"
    c["up"] = draw(st.sampled_from([None, "ul", "uu", "lu"])) if n == 2 or not c["off"] and "'f'" not in str(c["diag"]) and n == 3 else None
    for k in "cGL":
        c[k] = draw(st.sampled_from([[1, 1], [2, 1], [1, 3], [3, 2]]))
    return c


@st.composite
def spaces(draw):
    return dict(form=draw(st.sampled_from(["flat", "conformal", "static"])), sgn=draw(st.sampled_from([1, -1])), H=draw(st.sampled_from([[1, 1], [1, 2], [2, 3]])), scale=draw(st.sampled_from([1, 2, 3])),
                at=[draw(st.sampled_from([[1, 2], [1, 3], [2, 3], [1, 4]])) for _ in range(4)])


CHECK = Check("S05", [
    Sub("einstein", cases(), test_einstein, 72, 6000, nontrivial=sg.curved, **sg.SYM, rule="generated metric in 2-4 dimensions, covariant or contravariant; all components against the numeric oracle, also with raised indices; non-trivial: Einstein tensor not zero"),
    Sub("divergence", cases((3, 3, 4), 1), test_divergence, 32, 3000, nontrivial=sg.curved, **sg.SYM, rule="covariant divergence of the returned expressions; non-trivial: derivatives of the tensor not zero"),
    Sub("stress_energy", cases(), test_stress, 64, 6000, nontrivial=sg.curved, **sg.SYM, rule="same with generated values of c, G and Lambda; non-trivial: Einstein tensor not zero"),
    Sub("cosmological_vacuum", spaces(), test_vacuum, 24, 800, case_timeout=12, max_timeouts=4, shards=16, rule="de Sitter / anti-de Sitter space in three forms with constant factors: T = 0 for the right Lambda"),
], assumptions=["components are compared numerically (30 digits) at one generated rational point per case, undefined functions replaced by concrete ones"], quick_budget=200)
