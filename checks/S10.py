"""S10 tensor objects keep their data and reject malformed input."""
import copy
import itertools
import numpy as np
import sympy
from harness import Check, Sub, Skip, st, raises
import tens
from tens import CLASSES, BaseRelativityTensor
from einsteinpy.symbolic import MetricTensor, RicciScalar, Tensor, get_constant, simplify_sympy_array
from einsteinpy.symbolic.constants import SymbolicConstant
from einsteinpy.symbolic import constants

FORMS = ["list", "tuple", "array", "mutable", "numpy", "numpy_float"]


def deep(A, f):
    return f(A) if isinstance(A, list) else A


def give(A, form):
    """the same components in different containers"""
    if A.ndim == 0:
        return A[()]
    if form == "list":
        return A.tolist()
    if form == "tuple":
        t = lambda v: tuple(t(x) for x in v) if isinstance(v, list) else v
        return t(A.tolist())
    if form == "array":
        return sympy.Array(A.tolist())
    if form == "mutable":
        return sympy.Array(A.tolist()).as_immutable()
    if form == "numpy":
        return A
    return A.astype(float)


def build(c, X, A, cfg, form):
    cl = c["cls"]
    kw = {}
    if c["name"] != "-":
        kw["name"] = c["name"]
    m = MetricTensor(sympy.diag(*[1 + k for k in range(c["n"])]).tolist(), X) if c["own"] else None
    syms = list(X) if c["aslist"] else X
    if cl == "tensor":
        return Tensor(give(A, form), config=cfg, **kw), None, Tensor
    if cl == "generic":
        if c["own"]:
            kw["parent_metric"] = m
        return BaseRelativityTensor(give(A, form), syms, config=cfg, **kw), m, BaseRelativityTensor
    if cl == "metric":
        t = MetricTensor(give(A, form), syms, config=cfg, **kw)
        return t, t, MetricTensor
    K = CLASSES[cl][0]
    if c["own"]:
        kw["parent_metric"] = m
    return K(give(A, form), syms, config=cfg, **kw), m, K


DEFNAME = {"tensor": None, "generic": "GenericTensor", "metric": "GenericMetricTensor", "vector": "GenericVector", "christoffel": "ChristoffelSymbols", "riemann": "RiemannCurvatureTensor", "ricci": "RicciTensor",
           "einstein": "EinsteinTensor", "stress": "StressEnergyMomentumTensor", "weyl": "WeylTensor", "schouten": "SchoutenTensor"}


def rank_of(c):
    return c["rank"] if c["cls"] in ("tensor", "generic") else 2 if c["cls"] == "metric" else CLASSES[c["cls"]][1]


def test_data(c):
    n, X = c["n"], tens.syms(c)
    rank = rank_of(c)
    cfg = c["cfg"][:rank]
    A = tens.array(c["vals"], n, rank, X)
    form = c["form"]
    if form == "numpy_float":
        try:
            A.astype(float)
        except TypeError:
            form = "numpy"
    t, m, K = build(c, X, A, cfg, form)
    assert type(t) is K
    assert t.config == cfg and t.order == rank
    assert t.name == (c["name"] if c["name"] != "-" else DEFNAME[c["cls"]]), "name %r" % t.name
    got = tens.nparr(t)
    assert got.shape == A.shape, "shape %s" % (got.shape,)
    for idx in np.ndindex(*A.shape):
        d = sympy.sympify(got[idx]) - A[idx]
        assert d == 0 or (form == "numpy_float" and abs(d) < 1e-12), "component %s: %s, given %s" % (list(idx), got[idx], A[idx])
        if rank:
            assert t[idx] == got[idx] and t[idx if len(idx) > 1 else idx[0]] == got[idx], "indexing"
    if rank > 1:
        sub = t[n - 1]
        assert tens.nparr(sympy.Array(sub)).shape == A.shape[1:] and (tens.nparr(sympy.Array(sub)) == got[n - 1]).all(), "row indexing"
    if c["cls"] != "tensor":
        assert list(t.symbols()) == list(X) and t.dims == n
        assert t.parent_metric is m
        fs = set().union(*[sympy.sympify(v).free_symbols for v in A.ravel()]) - set(X)
        assert set(t.variables) == fs and len(t.variables) == len(fs), "variables %s" % (t.variables,)
        assert [v.name for v in t.variables] == sorted(v.name for v in fs), "variables not in order: %s" % t.variables
        af = set().union(*[sympy.sympify(v).atoms(sympy.core.function.AppliedUndef) for v in A.ravel()])
        assert af <= set(t.functions), "functions %s" % (t.functions,)
    s = str(t)
    assert s.startswith("Tensor") and (t.name is None or t.name in s), "str"
    assert type(t).__name__ in repr(t) and "object at 0x" not in repr(t)
    return [c["cls"], form, "rank %d" % rank] + (["named"] if c["name"] not in ("-",) else []) + (["trivial"] if rank == 0 else [])


def test_history(c):
    """substitution, simplification and copies: same components, configuration and name; the original untouched"""
    n, X = c["n"], tens.syms(c)
    rank = rank_of(c)
    cfg = c["cfg"][:rank]
    A = tens.array(c["vals"], n, rank, X)
    if c["trig"]:
        A = np.array([v + (sympy.sin(2 * X[0]) - 2 * sympy.sin(X[0]) * sympy.cos(X[0])) * (k % 2) for k, v in enumerate(A.ravel())], dtype=object).reshape(A.shape)
    t, m, K = build(c, X, A, cfg, "array")
    name = t.name
    cur, want = t, A
    vals = tens.values(c, X)
    ev = lambda B: np.array([sympy.sympify(v).subs({sympy.Function("f"): sympy.Lambda(X[0], X[0] ** 2 + 1)}).subs(vals) for v in np.asarray(B, dtype=object).ravel()], dtype=object).reshape(np.shape(B))
    close = lambda a, b: all(sympy.simplify(x - y) == 0 for x, y in zip(np.ravel(ev(a)), np.ravel(ev(b))))
    hist = []
    for (op, k, e) in c["ops"]:
        if op == "subs":
            old = list(X) + list(tens.PAR)
            o = old[k % len(old)]
            v = tens.entry(e, X)
            new = cur.subs(o, v)
            w = np.array([sympy.sympify(q).subs(o, v) for q in want.ravel()], dtype=object).reshape(want.shape)
        elif op == "subs2":
            pairs = [(X[0], tens.PAR[0]), (tens.PAR[0], X[-1]), (tens.PAR[1], sympy.Integer(2))][:1 + k % 3]
            new = cur.subs(pairs)
            w = np.array([sympy.sympify(q).subs(pairs) for q in want.ravel()], dtype=object).reshape(want.shape)
        elif op == "subsd":
            pairs = {X[0]: sympy.Rational(1, 3), tens.PAR[1]: X[-1]}
            new = cur.subs(pairs)
            w = np.array([sympy.sympify(q).subs(pairs) for q in want.ravel()], dtype=object).reshape(want.shape)
        elif op == "simplify":
            before = tens.nparr(cur)
            r = cur.simplify(set_self=False)
            assert close(tens.nparr(r), want), "simplify changes components"
            assert (tens.nparr(cur) == before).all(), "simplify(set_self=False) modified the tensor"
            continue
        elif op == "simplify_self":
            r = cur.simplify() if k % 2 else cur.simplify(set_self=True)
            assert close(tens.nparr(r), want) and close(tens.nparr(cur), want), "simplify changes components"
            if c["trig"]:
                assert all(sympy.sympify(v).has(sympy.sin(2 * X[0])) is False for v in tens.nparr(cur).ravel()), "simplify() did not set the simplified components"
            assert cur.config == cfg and cur.name == name
            continue
        else:
            new = {"copy": copy.copy, "deepcopy": copy.deepcopy}[op](cur)
            w = want
            assert type(new) is type(cur)
        hist.append(op)
        assert isinstance(new, Tensor)
        assert new.config == cfg and new.name == name and new.order == rank, "%s: configuration %r, name %r" % (hist, new.config, new.name)
        got = tens.nparr(new)
        assert got.shape == w.shape and close(got, w), "after %s: %s, expected %s" % (hist, got.tolist(), w.tolist())
        assert close(tens.nparr(cur), want), "the original changed by " + op
        cur, want = new, w
    assert t.config == cfg and t.name == name and close(tens.nparr(t), A), "the first object changed"
    return [c["cls"], "steps %d" % len(hist)] + (["trivial"] if not hist else [])


def test_lambdify(c):
    n, X = c["n"], tens.syms(c)
    rank = rank_of(c)
    cfg = c["cfg"][:rank]
    A = tens.array(c["vals"], n, rank, X)
    if any(sympy.sympify(v).has(sympy.Function("f")) for v in A.ravel()):
        raise Skip("undefined function")
    A = np.array([v if k % 3 else sympy.sin(X[0]) + sympy.sqrt(1 + tens.PAR[k % 3] ** 2) * v for k, v in enumerate(A.ravel())], dtype=object).reshape(A.shape)
    c = dict(c, cls="generic" if c["cls"] == "tensor" else c["cls"])
    t, m, K = build(c, X, A, cfg, "list" if rank else "numpy") if rank else (BaseRelativityTensor(A[()], X, config=""), None, None)
    fs = set().union(*[sympy.sympify(v).free_symbols for v in A.ravel()]) - set(X)
    natural = list(X) + sorted(fs, key=lambda s: s.name)
    vals = tens.values(c, X)
    if c["given"] and type(t) is BaseRelativityTensor:
        # the variables are given by the user, in an order of the user's own, possibly with further ones
        own = sorted(fs, key=lambda s: (c["perm"][ord(s.name[0]) % len(c["perm"])], s.name)) + ([sympy.Symbol("spare")] if c["given"] > 1 else [])
        own = own if c["perm"][0] % 2 else own[::-1]
        t = BaseRelativityTensor(give(A, "list") if rank else A[()], X, config=cfg, variables=tuple(own) if c["perm"][1] % 2 else own)
        assert list(t.variables) == own, "variables %s, given %s" % (t.variables, own)
        natural = list(X) + own
        vals[sympy.Symbol("spare")] = sympy.Integer(7)
    if c["explicit"]:
        order = [natural[k] for k in sorted(range(len(natural)), key=lambda k: c["perm"][k % len(c["perm"])] * 10 + k)]
        args, f = t.tensor_lambdify(*order)
    else:
        order = natural
        args, f = t.tensor_lambdify()
    assert list(args) == order, "arguments %s, expected %s" % (args, order)
    v = f(*[float(vals[a]) for a in args])
    v = np.array(v, dtype=float)
    assert v.shape == A.shape, "shape %s" % (v.shape,)
    for idx in np.ndindex(*A.shape):
        w = float(sympy.sympify(A[idx]).subs(vals))
        assert abs(v[idx] - w) <= 1e-12 * (1 + abs(w)) * 10, "numeric value %s, symbolic %s" % (v[idx], w)
    return [c["cls"], "rank %d" % rank, "explicit" if c["explicit"] else "default order"] + (["given variables"] if c["given"] and type(t) is BaseRelativityTensor else [])


def test_malformed(c):
    n, X = c["n"], tens.syms(c)
    rank = rank_of(c)
    cfg = c["cfg"][:rank]
    A = tens.array(c["vals"], n, rank, X)
    K = {"tensor": Tensor, "generic": BaseRelativityTensor, "metric": MetricTensor}.get(c["cls"]) or CLASSES[c["cls"]][0]
    args = lambda arr, x=X: (arr,) if c["cls"] == "tensor" else (arr, x)
    k = c["kind"]
    arr = A.tolist() if rank else A[()]
    if k == "config letters":
        bad = [cfg[:-1] + "x", cfg[:-1] + "U", cfg[:-1] + " ", "ab", cfg[:-1] + "_"][c["pick"] % 5] if rank else "x"
        raises(TypeError, K, *args(arr), config=bad)
    elif k == "config type":
        bad = [0, 3, list(cfg) or [1], 1.5, ("u", "l")][c["pick"] % 5]
        raises(TypeError, K, *args(arr), config=bad)
    elif k == "config length":
        bad = [cfg + "u", cfg + "ll", cfg[:-1] if rank else "u", "" if rank else "ul"][c["pick"] % 4]
        raises(ValueError, K, *args(arr), config=bad)
    elif k == "array type":
        bad = ["value", None, {"a": 1}, {1, 2}, b"xy", object()][c["pick"] % 6]
        raises(TypeError, K, *args(bad), config=cfg)
    elif k == "shape":
        if rank == 0 or c["cls"] == "tensor":
            raise Skip("no shape to check")
        ax = c["pick"] % rank
        sh = [n] * rank
        sh[ax] += 1 if c["pick"] % 2 else -1
        B = np.empty(sh, dtype=object)
        B.fill(sympy.Integer(1))
        raises(ValueError, K, B.tolist(), X, config=cfg)
        return [c["cls"], k, "axis %d" % ax]
    elif k == "number of symbols":
        if rank == 0 or c["cls"] == "tensor":
            raise Skip("no shape to check")
        raises(ValueError, K, arr, X + (sympy.Symbol("extra"),) if c["pick"] % 2 else X[:-1], config=cfg)
    elif k == "symbols type":
        if c["cls"] == "tensor":
            raise Skip("no symbols")
        bad = [set(X), {x: 1 for x in X}, "".join("x" for _ in X), frozenset(X), iter(X), 3, None][c["pick"] % 7]
        raises(TypeError, K, arr, bad, config=cfg)
    elif k == "class rank":
        if c["cls"] not in CLASSES and c["cls"] != "metric":
            raise Skip("any rank")
        r2 = [r for r in (1, 2, 3, 4) if r != rank][c["pick"] % 3]
        B = tens.array(c["vals"], n, r2, X)
        raises(ValueError, K, B.tolist(), X, config="l" * r2)
        return [c["cls"], k]
    elif k == "variables type":
        if c["cls"] != "generic":
            raise Skip("no such argument")
        raises(TypeError, K, arr, X, config=cfg, **{["variables", "functions"][c["pick"] % 2]: ["value", 3, {"a": 1}, None][c["pick"] % 4]})
    return [c["cls"], k]


def test_scalar(c):
    """scalars: numbers and expressions, Ricci scalar objects"""
    x, y = X = sympy.symbols("x y")
    v = [c["i"], c["f"], sympy.Rational(c["i"], 3), x * c["i"] + y, np.float64(c["f"]), np.int64(c["i"]), sympy.Float(c["f"])][c["k"]]
    t = Tensor(v, config="")
    s = RicciScalar(v, X)
    for o in (t, s):
        assert o.order == 0 and o.config == "" and o.tensor().rank() == 0
        assert sympy.simplify(sum(o.tensor()) - v) == 0, "scalar %s holds %s" % (v, o.tensor())
    assert sympy.simplify(s.expr - v) == 0 and s.name == "RicciScalar"
    raises(ValueError, Tensor, v, config="u")
    r = simplify_sympy_array(sympy.Array(v))
    assert sympy.simplify(sum(r) - v) == 0
    return [type(v).__name__]


def test_simplify(c):
    X = sympy.symbols("x y z")
    A = tens.array(c["vals"], c["n"], c["rank"], X)
    A = np.array([v + (sympy.sin(X[0]) ** 2 + sympy.cos(X[0]) ** 2 - 1) * (1 + k) if c["trig"] else v for k, v in enumerate(A.ravel())], dtype=object).reshape(A.shape)
    r = simplify_sympy_array(sympy.Array(A.tolist()) if c["rank"] else A[()])
    if not c["rank"]:
        assert sympy.simplify(r - A[()]) == 0
        return ["rank 0"]
    assert r.shape == A.shape
    got = np.array(r.tolist(), dtype=object)
    for idx in np.ndindex(*A.shape):
        assert sympy.simplify(got[idx] - A[idx]) == 0, "component %s" % (idx,)
        assert not sympy.sympify(got[idx]).has(sympy.sin), "component %s not simplified: %s" % (idx, got[idx])
    return ["rank %d" % c["rank"]]


def test_constants(c):
    known = {"c": (constants.c, "c", "Speed Of Light"), "G": (constants.G, "G", "Gravitational Constant"), "Cosmo_Const": (constants.Cosmo_Const, "Lambda", "Cosmological Constant"), "eps_0": (constants.eps_0, "eps_0", "Permittivity of free space")}
    o, nm, d = known[c["k"]]
    s = get_constant(c["k"])
    assert s is o and isinstance(s, sympy.Symbol) and s.name == nm and s.descriptive_name == d
    q = SymbolicConstant(c["n"], c["d"])
    assert q.name == c["n"] and q.descriptive_name == c["d"] and q in (q + 1).free_symbols
    assert SymbolicConstant(c["n"]).descriptive_name is None
    assert sympy.simplify((s ** 2 - 1) / (s - 1) - s - 1) == 0
    return [c["k"]]


rts = lambda draw: [draw(st.sampled_from([1, 2, 3, 5, -1, -2])), draw(st.sampled_from([1, 2, 3]))]


@st.composite
def cases(draw, maxrank=3, kinds=None):
    cl = draw(st.sampled_from(["tensor", "generic", "generic", "metric"] + list(CLASSES)))
    rank = draw(st.integers(0, maxrank))
    r = rank if cl in ("tensor", "generic") else 2 if cl == "metric" else CLASSES[cl][1]
    n = draw(st.sampled_from([2, 3, 4] if r < 3 else [2, 3] if r == 3 else [2]))
    e = st.one_of(tens.poly, st.tuples(st.just("f"), st.integers(0, 3)).map(list)) if r < 4 else tens.poly
    c = dict(cls=cl, rank=rank, n=n, names=draw(st.integers(0, 2)), cfg=draw(st.text(alphabet="ul", min_size=4, max_size=4)), vals=draw(st.lists(e, min_size=3, max_size=8)), form=draw(st.sampled_from(FORMS)) if r else "numpy",
             name=draw(st.sampled_from(["-", "-", None, "T", "my tensor"])), own=draw(st.integers(0, 1)), aslist=draw(st.integers(0, 1)), at=[rts(draw) for _ in range(n)], pv=[rts(draw) for _ in range(3)])
    if r == 0:
        c["vals"][0] = draw(tens.rational) if draw(st.booleans()) else c["vals"][0]
    return c


@st.composite
def histories(draw):
    c = draw(cases(2))
    while rank_of(c) == 0:
        c["cls"], c["rank"] = "generic", 1
        c["form"] = "array"
    c["trig"] = draw(st.integers(0, 1))
    c["ops"] = [list(o) for o in draw(st.lists(st.tuples(st.sampled_from(["subs", "subs2", "subsd", "simplify", "simplify_self", "copy", "deepcopy"]), st.integers(0, 7), tens.poly), min_size=1, max_size=5))]
    return c


@st.composite
def lams(draw):
    c = draw(cases(2))
    c["vals"] = draw(st.lists(tens.poly, min_size=3, max_size=7))
    c["given"] = draw(st.sampled_from([0, 1, 2, 0]))
    c["cls"] = draw(st.sampled_from(["generic", c["cls"]]))
    c["explicit"], c["perm"] = draw(st.integers(0, 1)), draw(st.permutations(range(8)))
    return c


@st.composite
def malformed(draw):
    c = draw(cases(3))
    c["kind"] = draw(st.sampled_from(["config letters", "config type", "config length", "array type", "shape", "number of symbols", "symbols type", "class rank", "variables type"]))
    c["pick"] = draw(st.integers(0, 11))
    return c


@st.composite
def simps(draw):
    return dict(n=draw(st.integers(1, 3)), rank=draw(st.integers(0, 4)) if draw(st.booleans()) else 2, vals=draw(st.lists(tens.poly, min_size=3, max_size=7)), trig=draw(st.integers(0, 1)))


scal = st.fixed_dictionaries(dict(k=st.integers(0, 6), i=st.integers(-5, 5), f=st.floats(-4, 4, allow_nan=False, allow_subnormal=False)))
T = dict(case_timeout=12, max_timeouts=6, shards=16)
CHECK = Check("S10", [
    Sub("data", cases(), test_data, 960, 20000, **T, rule="every tensor class, ranks 0-4, components given as list, tuple, sympy array, object or float numpy array, names and parents; components, attributes, indexing, representations; non-trivial: rank > 0"),
    Sub("histories", histories(), test_history, 320, 8000, **T, rule="sequences of substitutions, simplifications and copies: configuration, name, components, originals untouched; non-trivial: at least one new object"),
    Sub("lambdify", lams(), test_lambdify, 240, 8000, **T, rule="numeric function in default and generated argument order against symbolic evaluation"),
    Sub("malformed", malformed(), test_malformed, 960, 12000, **T, rule="one malformed argument of a generated kind: the documented error type"),
    Sub("scalars", scal, test_scalar, 64, 2000, **T, rule="numbers and expressions as scalars"),
    Sub("simplify_array", simps(), test_simplify, 64, 2000, **T, rule="helper for arrays of rank 0-4: same values, simplified"),
    Sub("constants", st.fixed_dictionaries(dict(k=st.sampled_from(["c", "G", "Cosmo_Const", "eps_0"]), n=st.sampled_from(["k", "alpha", "h_bar"]), d=st.sampled_from(["one", "Something"]))), test_constants, 16, 60, shards=2, rule="symbolic constants by name"),
], quick_budget=200, quick_scale=2)
