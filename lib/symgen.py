"""Generated symbolic metrics (as JSON), their concrete instances and numeric evaluation of symbolic arrays."""
import copy
import itertools
import mpmath as mp
import numpy as np
import sympy
from hypothesis import strategies as st
import harness
from harness import Skip
import curv

NAMES = [["t", "x", "y", "z"], ["t", "r", "theta", "phi"], ["x0", "x1", "x2", "x3"], ["u", "v", "w", "s"], ["z", "y", "x", "t"],
         ["chi", "psi", "xi", "eta"], ["E", "I", "N", "S"], ["lambda_", "rho", "x", "phi"]]
PARAMS = ["a", "M", "Q2"]
DPS = 30


def symbols(c):
    n = c["n"]
    kind = c.get("assume", "")
    kw = {"": {}, "real": dict(real=True), "positive": dict(positive=True)}[kind]
    return [sympy.Symbol(s, **kw) for s in c["names"][:n]]


def params(c):
    return [sympy.Symbol(p) for p in PARAMS]


FUNS = ["f", "H"]


def fun_concrete(name, arg):
    """the concrete function an undefined one stands for"""
    return {"f": 2 + arg ** 2 / 3, "H": sympy.exp(arg / 2) + 1}[name]


def expr(e, X, P, concrete):
    """JSON expression -> sympy. Terms:
    [num, den] rational | ["x", i] | ["p", i] | ["f", name, i] undefined function of coordinate i |
    ["+", ...] | ["*", ...] | ["^", e, k] | ["sin"|"cos"|"exp", e] """
    t = e[0]
    if not isinstance(t, str):
        return sympy.Rational(e[0], e[1])
    if t == "F":            # a floating point number that is no short fraction
        return sympy.Rational(e[1], e[2]) if concrete else sympy.Float(e[1] / e[2])
    if t == "x":
        return X[e[1] % len(X)]
    if t == "p":
        return P[e[1] % len(P)]
    if t == "f":
        x = X[e[2] % len(X)]
        return fun_concrete(e[1], x) if concrete else sympy.Function(e[1])(x)
    if t == "^":
        return expr(e[1], X, P, concrete) ** e[2]
    if t == "abs^":         # |x|^k as (x^2)^(k/2); x^2 where sympy would write it with Abs, whose derivatives are distributions
        b = expr(e[1], X, P, concrete)
        return b ** 2 if b.is_extended_real and not b.is_positive else (b ** 2) ** sympy.Rational(e[2], 2)
    if t in ("sin", "cos", "exp"):
        return getattr(sympy, t)(expr(e[1], X, P, concrete))
    args = [expr(a, X, P, concrete) for a in e[1:]]
    return sympy.Add(*args) if t == "+" else sympy.Mul(*args)


def expr_concrete(e):
    """replace the undefined functions of an expression by their concrete ones"""
    for name in FUNS:
        F = sympy.Function(name)
        if e.has(F):
            z = sympy.Dummy("z")
            e = e.subs(F, sympy.Lambda(z, fun_concrete(name, z)))
    return e.doit() if e.has(sympy.Derivative, sympy.Subs, sympy.Integral) else e


def build(c, concrete=False):
    """-> covariant matrix (nested list), coordinate symbols"""
    X, P = symbols(c), params(c)
    n = c["n"]
    if c["kind"] == "pullback":
        m = [expr(e, X, P, concrete) for e in c["maps"]]
        J = [[sympy.diff(mi, x) for x in X] for mi in m]
        g = [[sum(c["sig"][k] * J[k][i] * J[k][j] for k in range(len(m))) for j in range(n)] for i in range(n)]
    else:
        g = [[sympy.Integer(0)] * n for _ in range(n)]
        for i in range(n):
            g[i][i] = c["sig"][i] * expr(c["diag"][i], X, P, concrete)
        for (i, j, e) in c["off"]:
            i, j = i % n, j % n
            if i != j:
                g[i][j] = g[j][i] = expr(e, X, P, concrete)
    if c.get("conf"):
        f = expr(c["conf"], X, P, concrete)
        g = [[f * v for v in row] for row in g]
    return g, X


def point(c):
    X, P = symbols(c), params(c)
    p = {x: sympy.Rational(v[0], v[1]) for x, v in zip(X, c["at"])}
    p.update({q: sympy.Rational(v[0], v[1]) for q, v in zip(P, c["pv"])})
    return p


FLOOR = [0]      # relative error floor of the case at hand: 0, unless its metric has floating point components


def tol(t):
    return max(t, FLOOR[0])


def floats(c):
    return "'F'" in str(c)


def geometry(c, third=False):
    FLOOR[0] = 0
    g, X = build(c, concrete=True)
    try:
        G = curv.Geometry(g, X, point(c), third=third, dps=DPS)
    except ZeroDivisionError:
        raise Skip("singular metric")
    with mp.workdps(DPS):
        A = np.abs(np.array(G.g, dtype=object)).max() * np.abs(np.array(G.ginv, dtype=object)).max()
        if not A < 1e6:
            raise Skip("singular metric")
        if floats(c):
            FLOOR[0] = mp.mpf(10) ** -11 * A ** 2
            if FLOOR[0] > 1e-5:
                raise Skip("ill conditioned for floating point components")
    return G


def evaluate(arr, c, extra=None):
    """symbolic array of the code -> object array of mpf at the case's point"""
    p = point(c)
    if extra:
        p.update(extra)
    arr = sympy.Array(arr)
    flat = [sympy.sympify(v) for v in (sympy.flatten(arr.tolist()) if arr.rank() else [arr[()]])]
    out, cache = [], {}
    with mp.workdps(DPS):
        keys = list(p)
        vals = [mp.mpf(sympy.Rational(v).p) / sympy.Rational(v).q if isinstance(v, (int, sympy.Rational)) else mp.mpf(v) for v in p.values()]
        ex = []
        for v in flat:
            if v not in cache:
                w = expr_concrete(v)
                cache[v] = len(ex)
                ex.append(w)
            out.append(cache[v])
        left = set().union(*[w.free_symbols for w in ex]) - set(keys) if ex else set()
        if left:
            raise AssertionError("unknown symbols %s in a computed tensor" % left)
        try:
            f = sympy.lambdify(keys, ex, modules="mpmath")
            num = [mp.mpmathify(v) for v in f(*vals)]
        except ZeroDivisionError:
            raise Skip("the expression is singular at the point")
        num = [v.real if isinstance(v, mp.mpc) and abs(v.imag) < mp.mpf(10) ** -20 * (1 + abs(v.real)) else v for v in num]
    return np.array([num[i] for i in out], dtype=object).reshape(arr.shape)


def same(got, want, tol=1e-15, scale=None, what=""):
    g, w = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
    tol = max(tol, FLOOR[0])
    assert g.shape == w.shape, "%s: shape %s, expected %s" % (what, g.shape, w.shape)
    if g.size == 0:
        return
    s = max([abs(v) for v in w.ravel()] + [mp.mpf(10) ** -20]) if scale is None else scale
    for idx in itertools.product(*[range(k) for k in g.shape]):
        a, b = g[idx], w[idx]
        if not abs(a - b) <= tol * s:
            raise AssertionError("%s%s: got %s, expected %s (scale %s)" % (what, list(idx), mp.nstr(a, 15), mp.nstr(b, 15), mp.nstr(s, 3)))


def amax(a):
    a = np.asarray(a, dtype=object)
    return max([abs(v) for v in a.ravel()] + [mp.mpf(0)])


# ------------------------------------------------------------------ strategies
def rat(lo=-3, hi=3, den=(1, 2, 3)):
    return st.tuples(st.integers(lo, hi), st.sampled_from(den)).map(list)


@st.composite
def factor(draw, i=None, funs=True, params_=True):
    """positive-ish factor 1 + ... of one coordinate"""
    i = draw(st.integers(0, 3)) if i is None else i
    k = draw(st.integers(0, 15))
    k = k if k < 9 else k - 8
    one = [1, 1]
    x = ["x", i]
    if k == 8:
        return ["+", draw(st.sampled_from([one, [2, 1]])), ["abs^", draw(st.sampled_from([x, x, ["+", x, [-1, 2]]])), draw(st.sampled_from([1, 3]))]]
    if k == 0:
        return ["+", [2, 1], x]
    if k == 1:
        return ["+", one, ["^", x, 2]]
    if k == 2:
        return ["exp", ["*", draw(st.sampled_from([[1, 1], [1, 2], [-1, 1], [2, 1]])), x]]
    if k == 3:
        return ["^", ["+", [2, 1], x], draw(st.sampled_from([2, -1, 3]))]
    if k == 4 and params_:
        return ["+", [1, 1], ["*", ["p", draw(st.integers(0, 2))], ["^", x, draw(st.sampled_from([1, 2]))]]]
    if k == 5 and funs:
        return ["f", draw(st.sampled_from(FUNS)), i]
    if k == 6:
        return ["+", [2, 1], ["sin", x]]
    return ["^", ["+", [3, 2], x], 2]


@st.composite
def metrics(draw, dims=(2, 3, 4), off=2, funs=True, kinds=("mixed", "pullback", "mixed"), rich=1, conf=False, pars=True, assume=("", "", "real", "positive"), cap4=True):
    n = draw(st.sampled_from(dims))
    names = list(draw(st.sampled_from(NAMES)))
    kind = draw(st.sampled_from(kinds))
    sig = draw(st.sampled_from([[1] * n, [-1] + [1] * (n - 1), [1] + [-1] * (n - 1)]))
    c = dict(n=n, names=names, kind=kind, sig=sig, assume=draw(st.sampled_from(assume)))
    fac = lambda i=None: factor(i, funs, pars)
    if kind == "pullback":
        maps = []
        for i in range(n):
            x = ["x", i]
            k = draw(st.integers(0, 3))
            j = draw(st.integers(0, n - 1))
            y = ["x", j]
            if n == 4 and cap4 and sum(len(m) > 2 for m in maps) >= 2:
                k = 0
            if k == 0:
                m = x
            elif k == 1:
                m = ["+", x, ["*", draw(rat(-2, 2, (1, 2, 3))), ["^", y, 2]]]
            elif k == 2:
                m = ["*", ["+", x, [2, 1]], ["+", [2, 1], y]] if j != i else ["+", x, ["*", [1, 3], ["^", x, 2]]]
            else:
                m = ["+", x, ["*", draw(rat(-1, 1, (2, 3))), y]]
            maps.append(m)
        c["maps"] = maps
    else:
        diag = []
        for i in range(n):
            t = []
            for _ in range(draw(st.integers(0, rich if n < 4 or not cap4 else 1))):
                t.append(draw(fac()))
            diag.append((["*"] + t) if t else [draw(st.integers(1, 3)), 1])
        c["diag"] = diag
        offs = []
        for _ in range(draw(st.integers(0, off if n < 4 or not cap4 else min(off, 2)))):
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if i == j:
                j = (i + 1) % n
            e = draw(st.sampled_from([[1, 2], [-1, 3], ["x", 0], ["x", 1], ["*", [1, 2], ["x", 2]], ["*", ["p", 0], [1, 2]], ["*", ["x", 0], ["x", 1], [1, 2]], [1, 3]]))
            offs.append([i, j, e])
        if off and draw(st.integers(0, 4)) == 0:        # null coordinates: zeros on the diagonal, paired off the diagonal
            i = draw(st.integers(0, n - 1))
            j = (i + draw(st.integers(1, n - 1))) % n
            diag[i] = [0, 1]
            if draw(st.booleans()):
                diag[j] = [0, 1]
            e = draw(st.sampled_from([[1, 1], [-1, 1], [1, 2], ["^", ["+", [2, 1], ["x", 0]], 2], ["exp", ["x", 1]], ["*", [-1, 2], ["+", [1, 1], ["^", ["x", i], 2]]]]))
            offs = [[i, j, e]] + [o for o in offs if {o[0] % n, o[1] % n} != {i, j}]
            if n == 4 and cap4:
                offs = offs[:2]
        c["off"] = offs
        if draw(st.integers(0, 7)) == 0:
            i = draw(st.integers(0, n - 1))
            k = ["F", draw(st.sampled_from([12345, 8191, 31337, 10007])), draw(st.sampled_from([9973, 7919, 6007]))]
            d = diag[i]
            if d != [0, 1]:
                diag[i] = ["*", k] + (d[1:] if d[0] == "*" and len(d) < 3 else [])
    if conf:
        c["conf"] = draw(fac().filter(lambda e: "abs^" not in str(e)))
    c["twin"] = draw(st.sampled_from([None, None] + TWINS[:draw(st.sampled_from([2, 5]))]))
    c["at"] = [draw(st.sampled_from([[1, 1], [1, 2], [3, 2], [2, 3], [5, 4], [1, 3]])) for _ in range(n)]
    if c["assume"] != "positive" and not floats(c):
        c["at"] = [[-a, b] if draw(st.integers(0, 2)) == 0 else [a, b] for a, b in c["at"]]
    c["pv"] = [draw(st.sampled_from([[1, 2], [1, 3], [2, 3], [3, 4], [-1, 4]])) for _ in PARAMS]
    return c


TWINS = ["off", "diag", "sig", "names", "assume", "point"]


def twin(c):
    """a metric that shares most of its components, names or symbols with that of c"""
    d, k, n = copy.deepcopy(c), c["twin"], c["n"]
    if k == "off":
        if c["kind"] == "pullback":
            d["maps"][0] = ["+", d["maps"][0], ["*", [1, 2], ["x", n - 1]]]
        elif d["off"]:
            for o in d["off"]:
                o[2] = ["*", [1, 2], o[2]]
        else:
            d["off"] = [[0, n - 1, [1, 3]]]
    elif k == "diag":
        if c["kind"] == "pullback":
            d["maps"][-1] = ["*", [2, 1], d["maps"][-1]]
        else:
            d["diag"][-1] = ["*", [2, 1], d["diag"][-1]]
    elif k == "sig":
        d["sig"][-1] *= -1
    elif k == "names":
        d["names"] = NAMES[(NAMES.index(c["names"]) + 1) % len(NAMES)] if c["names"] in NAMES else c["names"][::-1]
    elif k == "assume":
        d["assume"] = {"": "real", "real": "positive", "positive": ""}[c.get("assume", "")]
        if d["assume"] == "positive":
            d["at"] = [[abs(a), b] for a, b in c["at"]]
    elif k == "point":
        d["at"] = [[a + b, b] for a, b in c["at"]]
    return d


paired = harness.paired(twin)


def labels(c):
    k = [c["kind"], "n=%d" % c["n"]]
    if c["kind"] == "mixed" and any(i % c["n"] != j % c["n"] for i, j, _ in c["off"]):
        k.append("off-diagonal")
    if c["kind"] == "mixed" and [0, 1] in c["diag"]:
        k.append("null coordinate")
    if floats(c):
        k.append("floats")
    if '"f"' in str(c).replace("'", '"'):
        k.append("functions")
    return k


def curved(c):
    """depends on a coordinate in a way that makes the connection non-zero"""
    s = str(c)
    return "'x'" in s or "'f'" in s


def metric_tensor(c, config="ll", **kw):
    """einsteinpy MetricTensor of the case, with undefined functions and parameters"""
    from einsteinpy.symbolic import MetricTensor
    g, X = build(c)
    if config == "uu":
        g = sympy.simplify(sympy.Matrix(g).inv()).tolist()
    return MetricTensor(g, X, config=config, **kw)


SYM = dict(case_timeout=10, max_timeouts=6, shards=24)      # sympy.simplify can take arbitrarily long on single cases


def tame(c):
    """bound the symbolic cost of fourth-rank tensors: fewer factors the more off-diagonal terms"""
    n = c["n"]
    if c["kind"] == "mixed" and n > 2:
        offs = len({(min(i % n, j % n), max(i % n, j % n)) for i, j, _ in c["off"]})
        if n == 4 and offs > 1:
            c["off"] = c["off"][:1]
            offs = 1
        room = {3: (6, 3, 2, 1), 4: (4, 2)}[n][min(offs, 3 if n == 3 else 1)]
        for i, d in enumerate(c["diag"]):
            if d[0] == "*":
                rest = [t for t in d[1:] if offs < 2 or not any(k in str(t) for k in ("sin", "exp", "'f'"))]
                keep = [d[0]] + rest[:min(room, 2)]
                room -= len(keep) - 1
                c["diag"][i] = keep if len(keep) > 1 else [1 + i % 2, 1]
    elif c["kind"] == "pullback" and n > 2:
        k = 0
        for i, m in enumerate(c["maps"]):
            if len(m) > 2:
                k += 1
                if k > 2:
                    c["maps"][i] = ["x", i]
    return c
