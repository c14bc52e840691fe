"""S12 predefined metrics: published line elements, parameters, reductions, agreement with the numeric classes, search."""
import math
import mpmath as mp
import numpy as np
import sympy
from harness import Check, Sub, Skip, st
from einsteinpy import symbolic
from einsteinpy.symbolic import MetricTensor, predefined
import bh
import predef
import textbook as tb

DPS = 30


def num_metric(g, ev, rest, conv=None):
    X = list(g.symbols())
    pt = {x: ev[x.name] for x in X}
    pt.update(rest)
    A = predef.components(g)
    n = len(X)
    if conv:
        A = [[conv(v) for v in row] for row in A]
    A = [[sympy.sympify(v) for v in row] for row in A]
    free = set().union(*[v.free_symbols for row in A for v in row])
    assert free <= set(pt), "unexpected symbols %s" % sorted(map(str, free - set(pt)))
    keys = list(pt)
    f = sympy.lambdify(keys, [v for row in A for v in row], modules="mpmath")
    return mp.matrix(n, n) + mp.matrix([[v for v in f(*[pt[k] for k in keys])][i * n:(i + 1) * n] for i in range(n)])


def same(A, B, what, rtol=1e-13):
    n = A.rows
    d = [mp.sqrt(max(abs(B[i, i]), abs(A[i, i]))) for i in range(n)]
    for i in range(n):
        for j in range(n):
            assert abs(A[i, j] - B[i, j]) <= rtol * max(abs(B[i, j]), d[i] * d[j]), "%s: g[%d,%d] = %s, expected %s" % (
                what, i, j, mp.nstr(A[i, j], 12), mp.nstr(B[i, j], 12))


# ------------------------------------------------------------- published line elements
def test_published(c):
    name = c["name"]
    with mp.workdps(DPS):
        e, p = predef.event(c), predef.params(c)
        g, rest = predef.build(c, [x for x in predef.PAR[name] if x in c["given"]])
        conv = None
        if name == "CMetric":
            z = sympy.Symbol("zz")
            F, H = [sum(predef.rat(v) * z ** i for i, v in enumerate(c[k])) for k in ("f", "h")]
            conv = lambda v: sympy.sympify(v).subs({sympy.Function("f"): sympy.Lambda(z, F), sympy.Function("h"): sympy.Lambda(z, H)}).doit()
            ev = lambda co: (lambda x: sum(predef.num(v) * x ** i for i, v in enumerate(co)))
            p["f"], p["h"] = ev(c["f"]), ev(c["h"])
            if abs(p["f"](e["x"])) < 0.05 or abs(p["h"](e["y"])) < 0.05 or abs(e["x"] + e["y"]) < 0.05:
                raise Skip("singular event")
        assert isinstance(g, MetricTensor) and g.config == "ll" and g.dims == 4 and g.order == 2
        assert [x.name for x in g.symbols()] == predef.COORDS[name], "coordinates %s" % (g.symbols(),)
        assert g.name == predef.TITLE.get(name, name + "Metric"), "name %s" % g.name
        same(num_metric(g, e, rest, conv), predef.published(name, e, p), "published line element of " + name)
        A = predef.components(g)
        assert all(sympy.sympify(A[i][j]) == sympy.sympify(A[j][i]) for i in range(4) for j in range(i)), "not symmetric"
    return [name]


def published_cases():
    def one(name):
        P = predef.PAR[name]
        s = predef.case(name)
        given = st.sets(st.sampled_from(P)).map(sorted) if P else st.just([])
        extra = dict(f=st.lists(predef.q(-2, 2, 4), min_size=1, max_size=4), h=st.lists(predef.q(-2, 2, 4), min_size=1, max_size=4)) if name == "CMetric" else {}
        return st.tuples(s, given, st.fixed_dictionaries(extra)).map(lambda t: dict(t[0], given=t[1], **t[2]))
    return st.sampled_from(sorted(predef.PAR)).flatmap(one)


# ------------------------------------------------------------- passing = substituting
def test_passing(c):
    name = c["name"]
    P = predef.PAR[name]
    ctor = getattr(predefined, name)
    w = sympy.Symbol("w_1")
    given, subs = {}, {}
    for p in P:
        if p not in c["how"]:
            continue
        how, v = c["how"][p], c["par"][p]
        if c["zero"] and p in ("a", "Q", "sch", "B", "C", "v", "x_s"):
            v = [0, 1]
        s = predef.default_symbol(name, p)
        if how == "rational":
            val = predef.rat(v)
        elif how == "float":
            val = v[0] / v[1]
        elif how == "int":
            val = v[0] if v[0] or p in ("a", "Q", "sch", "B", "C", "v", "x_s") else 1
        elif how == "symbol":
            val = w
        elif how == "same":
            val = s
        else:
            val = predef.rat(v) * w + 1
        given[p] = val
        subs[s] = sympy.sympify(val)
    npos = 0
    while npos < len(P) and P[npos] in given and npos < c["positional"]:
        npos += 1
    g = ctor(*[given[p] for p in P[:npos]], **{p: given[p] for p in P[npos:] if p in given})
    d = ctor()
    A, D = predef.components(g), predef.components(d)
    assert list(g.symbols()) == list(d.symbols()) and g.name == d.name and g.config == d.config
    left = set(d.symbols()) | {w} | {predef.default_symbol(name, p) for p in P if p not in given or given[p] == predef.default_symbol(name, p)} | {sympy.Symbol(x) for x in predef.FIXED.get(name, [])}
    with mp.workdps(DPS):
        e = predef.event(c)
        pt = {x: e[x.name] for x in d.symbols()}
        pt.update({predef.default_symbol(name, p): predef.num(c["par"][p]) for p in P})
        pt.update({sympy.Symbol(x): predef.num(c["par"][x]) for x in predef.FIXED.get(name, [])})
        pt[w] = mp.mpf(c["w"][0]) / c["w"][1]
        z = sympy.Symbol("zz")
        fn = {sympy.Function("f"): sympy.Lambda(z, 2 + z ** 3), sympy.Function("h"): sympy.Lambda(z, 3 - z)}
        keys = list(pt)
        for i in range(4):
            for j in range(4):
                got, want = sympy.sympify(A[i][j]), sympy.sympify(D[i][j]).subs(subs, simultaneous=True)
                assert got.free_symbols <= left, "g[%d,%d] still depends on %s" % (i, j, sorted(map(str, got.free_symbols - left)))
                if got == want:
                    continue
                if name == "CMetric":
                    got, want = got.subs(fn).doit(), want.subs(fn).doit()
                vals = []
                for x in (got, want):
                    try:
                        vals.append(sympy.lambdify(keys, x, modules="mpmath")(*[pt[k] for k in keys]))
                    except ZeroDivisionError:
                        vals.append(None)
                a, b = vals
                if a is None and b is None:
                    continue
                assert a is not None and b is not None and abs(a - b) <= 1e-12 * (1 + abs(b)), "g[%d,%d] with %s passed: %s; by substitution: %s" % (i, j, given, a, b)
    return [name] + (["zero"] if c["zero"] else []) + sorted({"as " + h for p, h in c["how"].items()}) + ([] if c["how"] else ["trivial"])


def passing_cases():
    def one(name):
        P = predef.PAR[name]
        hows = st.sampled_from(["rational", "float", "int", "symbol", "same", "expr"])
        return st.tuples(predef.case(name), st.dictionaries(st.sampled_from(P), hows, min_size=1, max_size=len(P)) if P else st.just({}), st.booleans(), st.integers(0, 6), predef.q(0.5, 2)).map(
            lambda t: dict(t[0], how=t[1], zero=t[2], positional=t[3], w=t[4]))
    return st.sampled_from(sorted(n for n in predef.PAR if predef.PAR[n])).flatmap(one)


# ------------------------------------------------------------- reductions
S = sympy.Rational


def reduce_case(name):
    return predef.case(name)


def red(c):
    k = c["red"]
    p = {x: predef.rat(v) for x, v in c["par"].items()}
    G = predefined
    one, zero = sympy.Integer(1), sympy.Integer(0)
    v = lambda *names: {x: p[x] for x in names}
    rs = lambda: 2 * p["G"] * p["M"] / p["c"] ** 2
    return {
        "KN(Q=0)=Kerr": lambda: (G.KerrNewman(Q=zero, **v("c", "G", "eps_0", "sch", "a")), G.Kerr(**v("c", "sch", "a")), 1),
        "KN(a=0)=RN": lambda: (G.KerrNewman(a=zero, **v("c", "G", "eps_0", "sch", "Q")), G.ReissnerNordstorm(**v("c", "G", "eps_0", "sch", "Q")), 1),
        "KN(a=0,Q=0)=Schwarzschild": lambda: (G.KerrNewman(a=zero, Q=zero, **v("c", "G", "eps_0", "sch")), G.Schwarzschild(**v("c", "sch")), 1),
        "Kerr(a=0)=Schwarzschild": lambda: (G.Kerr(a=zero, **v("c", "sch")), G.Schwarzschild(**v("c", "sch")), 1),
        "RN(Q=0)=Schwarzschild": lambda: (G.ReissnerNordstorm(Q=zero, **v("c", "G", "eps_0", "sch")), G.Schwarzschild(**v("c", "sch")), 1),
        "JNW(gam=1)=-Schwarzschild": lambda: (G.JanisNewmanWinicour(gam=one, **v("c", "G", "M")), G.Schwarzschild(c=p["c"], sch=rs()), -1),
        "Ernst(B=0)=-Schwarzschild": lambda: (G.Ernst(B=zero, M=p["M"]), G.Schwarzschild(c=one, sch=2 * p["M"]), -1),
        "Schwarzschild(r_s=0)=-MinkowskiPolar": lambda: (G.Schwarzschild(c=p["c"], sch=zero), G.MinkowskiPolar(c=p["c"]), -1),
        "RN(r_s=0,Q=0)=-MinkowskiPolar": lambda: (G.ReissnerNordstorm(sch=zero, Q=zero, **v("c", "G", "eps_0")), G.MinkowskiPolar(c=p["c"]), -1),
        "Barriola(k=1)=MinkowskiPolar": lambda: (G.BarriolaVilekin(c=p["c"], k=one), G.MinkowskiPolar(c=p["c"]), 1),
        "JNW(M=0)=MinkowskiPolar": lambda: (G.JanisNewmanWinicour(M=zero, **v("c", "G", "gam")), G.MinkowskiPolar(c=p["c"]), 1),
        "Alcubierre(v=0)=Minkowski": lambda: (G.AlcubierreWarp(v=zero, **v("x_s", "sigma", "R")), G.MinkowskiCartesian(c=one), 1),
    }[k]()


REDS = {"KN(Q=0)=Kerr": "KerrNewman", "KN(a=0)=RN": "KerrNewman", "KN(a=0,Q=0)=Schwarzschild": "KerrNewman", "Kerr(a=0)=Schwarzschild": "Kerr",
        "RN(Q=0)=Schwarzschild": "ReissnerNordstorm", "JNW(gam=1)=-Schwarzschild": "JanisNewmanWinicour", "Ernst(B=0)=-Schwarzschild": "Ernst",
        "Schwarzschild(r_s=0)=-MinkowskiPolar": "Schwarzschild", "RN(r_s=0,Q=0)=-MinkowskiPolar": "ReissnerNordstorm", "Barriola(k=1)=MinkowskiPolar": "BarriolaVilekin",
        "JNW(M=0)=MinkowskiPolar": "JanisNewmanWinicour", "Alcubierre(v=0)=Minkowski": "AlcubierreWarp"}


def test_reduction(c):
    A, B, sign = red(c)
    with mp.workdps(DPS):
        e = {x: predef.num(v) for x, v in c["ev"].items()}
        if "r" in e:
            e["r"] += 20                    # outside every horizon of the ranges used
        a, b = num_metric(A, e, {}), num_metric(B, e, {})
        same(a, sign * b, c["red"])
    return [c["red"]]


def test_kerr_flat(c):
    """Kerr without mass is flat space in oblate spheroidal coordinates; Bessel without amplitude in cylindrical ones"""
    p = {x: predef.rat(v) for x, v in c["par"].items()}
    with mp.workdps(DPS):
        e = {x: predef.num(v) for x, v in c["ev"].items()}
        if c["name"] == "Bessel":
            m = num_metric(predefined.BesselGravitationalWave(C=0), dict(e, rho=e["r"], z=mp.mpf(1)), {})
            w = mp.zeros(4, 4)
            w[0, 0], w[1, 1], w[2, 2], w[3, 3] = -1, 1, e["r"] ** 2, 1
            same(m, w, "Bessel wave without amplitude")
            return ["Bessel"]
        g = predefined.Kerr(c=p["c"], sch=0, a=p["a"]) if c["name"] == "Kerr" else predefined.KerrNewman(c=p["c"], G=1, eps_0=1, sch=0, a=p["a"], Q=0)
        m = num_metric(g, e, {})
        # pull back c^2 dt^2 - dx^2 - dy^2 - dz^2 with x = sqrt(r^2+a^2) sin th cos ph ...
        r, th, ph, a, cc = e["r"], e["theta"], e["phi"], predef.num(c["par"]["a"]), predef.num(c["par"]["c"])
        R = mp.sqrt(r * r + a * a)
        J = mp.matrix([[1, 0, 0, 0],
                       [0, r / R * mp.sin(th) * mp.cos(ph), R * mp.cos(th) * mp.cos(ph), -R * mp.sin(th) * mp.sin(ph)],
                       [0, r / R * mp.sin(th) * mp.sin(ph), R * mp.cos(th) * mp.sin(ph), R * mp.sin(th) * mp.cos(ph)],
                       [0, mp.cos(th), -r * mp.sin(th), 0]])
        eta = mp.diag([1, -1 / cc ** 2, -1 / cc ** 2, -1 / cc ** 2])
        same(m, J.T * eta * J, "massless " + c["name"])
    return [c["name"]]


def red_cases():
    return st.sampled_from(sorted(REDS)).flatmap(lambda k: predef.case(REDS[k]).map(lambda c: dict(c, red=k)))


FLAT = st.fixed_dictionaries(dict(name=st.sampled_from(["Kerr", "KerrNewman", "Bessel"]), par=st.fixed_dictionaries({x: predef.RANGES[x] for x in ("c", "a")}),
                                  ev=st.fixed_dictionaries({x: predef.EVENT[x] for x in predef.SPH})))


# ------------------------------------------------------------- symbolic and numeric classes
def test_numeric(c):
    """g_numeric [c dt convention: SI, signature (+,-,-,-)] = c^2 g_symbolic, with r_s = 2GM/c^2, a -> a GM/c^2"""
    kind = c["kind"]
    rs, al, q2 = bh.lengths(c)
    r, th = c["r"], c["th"]
    # events where Delta or g_tt cancel to less than 1e-6 of their terms are ill-conditioned
    big = r * r + rs * r + al * al + q2
    if abs(r * r - rs * r + al * al + q2) < 1e-6 * big or abs(r * r + (al * math.cos(th)) ** 2 - rs * r + q2) < 1e-6 * big:
        raise Skip("on a horizon or ergosphere")
    m = bh.metric(c, bh.coords(bh.CHART[kind], (r, th, 1.0)))
    got = np.array(m.metric_covariant(np.array([0.0, r, th, 1.0])), dtype=float)
    kw = dict(c=tb.C, sch=rs)
    if kind == "Schwarzschild":
        g = predefined.ReissnerNordstorm(G=tb.G, eps_0=tb.EPS0, Q=0, **kw) if c["alt"] else predefined.Schwarzschild(**kw)
    elif kind == "Kerr":
        g = predefined.KerrNewman(G=tb.G, eps_0=tb.EPS0, Q=0, a=al, **kw) if c["alt"] else predefined.Kerr(a=al, **kw)
    else:
        g = predefined.KerrNewman(G=tb.G, eps_0=tb.EPS0, Q=c["Q"], a=al, **kw)
    with mp.workdps(DPS):
        t0, r0, th0, ph0 = g.symbols()
        if c["lambdify"]:
            args, f = g.tensor_lambdify()
            vals = {"t": 0.0, "r": r, "theta": th, "phi": 1.0}
            sym = np.array(f(*[vals[a.name] for a in args]), dtype=float)
        else:
            sym = np.array([[float(x) for x in row] for row in num_metric(g, {"t": mp.mpf(0), "r": mp.mpf(r), "theta": mp.mpf(th), "phi": mp.mpf(1)}, {}).tolist()])
    want = tb.C ** 2 * sym
    d = np.sqrt(abs(np.diag(want)))
    # the smallest of the terms of g_tt, g_rr: conditioning of 1 - r_s/r
    cond = 1 + (rs * r + al * al + q2 + r * r) / abs(r * r - rs * r + al * al + q2) + (rs * r + q2 + r * r) / max(abs(want[0, 0]) / tb.C ** 2 * (r * r + al * al * math.cos(th) ** 2), 1e-300)
    for i in range(4):
        for j in range(4):
            tol = 1e-9 * cond * max(abs(want[i, j]), d[i] * d[j])
            assert abs(got[i, j] - want[i, j]) <= tol, "%s: numeric g[%d,%d] = %r, symbolic %r" % (kind, i, j, got[i, j], want[i, j])
    return [kind, "lambdified" if c["lambdify"] else "evaluated"] + (["cross-class"] if c["alt"] and kind != "KerrNewman" else [])


NUMERIC = st.tuples(st.one_of(bh.hole_events(), bh.hole_events(outside=True)), st.booleans(), st.booleans()).map(lambda t: dict(t[0], alt=t[1], lambdify=t[2]))


# ------------------------------------------------------------- find
NAMES = sorted(predef.PAR)


def test_find(c):
    text = c["text"]
    want = sorted(n for n in NAMES if text.lower() in n.lower())
    got = predefined.find(text)
    assert isinstance(got, list) and sorted(got) == want and len(set(got)) == len(got), "find(%r) = %s, expected %s" % (text, got, want)
    assert symbolic.find(text) == got
    for n in got:
        assert isinstance(getattr(predefined, n)(), MetricTensor)
        assert getattr(symbolic, n) is getattr(predefined, n)
    return ["hits" if got else "no hits", "mixed case" if text not in (text.lower(),) else "lower case"]


@st.composite
def texts(draw):
    if draw(st.integers(0, 4)) == 0:
        return dict(text=draw(st.text(alphabet="abcdefghijklmnopqrstuvwxyz_ABKMS ", max_size=3)))
    if draw(st.integers(0, 4)) == 0:        # text is text: no pattern of any kind
        n = list(draw(st.sampled_from(NAMES)))
        n[draw(st.integers(0, len(n) - 1))] = draw(st.sampled_from([".", ".*", "?", "*", "[a-z]", "%", "_", "|", " "]))
        s = draw(st.sampled_from(["", "", "^", "(", "["])) + "".join(n) + draw(st.sampled_from(["", "", "$", ")", "|Kerr", ",Kerr"]))
        return dict(text=s[draw(st.integers(0, 3)):])
    n = draw(st.sampled_from(NAMES))
    i = draw(st.integers(0, len(n)))
    j = draw(st.integers(i, len(n)))
    s = n[i:j]
    flip = draw(st.lists(st.booleans(), min_size=len(s), max_size=len(s)))
    return dict(text="".join(x.swapcase() if f else x for x, f in zip(s, flip)))


CHECK = Check("S12", [
    Sub("published", published_cases(), test_published, quick=700, thorough=20000, shards=12, rule="one event, one set of parameters, any subset of them passed as values; non-trivial: all"),
    Sub("passing", passing_cases(), test_passing, quick=500, thorough=15000, shards=12, rule="any subset of the parameters passed (numbers, symbols, expressions, zeros; by position or keyword); non-trivial: at least one"),
    Sub("reductions", red_cases(), test_reduction, quick=300, thorough=6000, shards=8, rule="special parameter values; non-trivial: all"),
    Sub("massless", FLAT, test_kerr_flat, quick=100, thorough=2000, shards=4, rule="oblate spheroidal coordinates of flat space; non-trivial: all"),
    Sub("numeric", NUMERIC, test_numeric, quick=300, thorough=6000, shards=8, rule="SI black holes outside the horizon; non-trivial: all"),
    Sub("find", texts(), test_find, quick=300, thorough=3000, shards=4, rule="substrings of the names with random case, random text and texts with pattern characters; non-trivial: all"),
], assumptions=["line elements from the literature cited in the docstrings (lib/predef.py)", "numeric metrics are SI with t in seconds: g_numeric = c^2 g_symbolic"], quick_scale=2)
