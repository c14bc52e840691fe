"""S11 predefined spacetimes solve the field equations they are named for."""
import mpmath as mp
import numpy as np
import sympy
from harness import Check, Sub, Skip, st
from einsteinpy.symbolic import predefined
import curv
import predef

DPS = 40
RTOL = mp.mpf(10) ** -12


def small(v, scale, what):
    v = np.ravel(np.asarray(v, dtype=object))
    m = max(abs(x) for x in v)
    assert m <= RTOL * (1 + scale), "%s: %s, should vanish (terms of size %s)" % (what, mp.nstr(m, 6), mp.nstr(scale, 6))


def frame(G):
    """sqrt|g_aa| scales: size of tensor components in units of the coordinate basis"""
    return [mp.sqrt(max(abs(G.g[i, i]), 1 / max(abs(G.ginv[i, i]), mp.mpf(10) ** -40))) for i in range(G.n)]


def scale2(G):
    """size of the terms of the Ricci tensor: the largest component of Riemann/products of Christoffels, in mixed form"""
    s = frame(G)
    m = mp.mpf(0)
    for a in range(G.n):
        for b in range(G.n):
            for c in range(G.n):
                m = max(m, abs(G.chris[a, b, c]) * s[a] / s[b] / s[c])
    r = mp.mpf(0)
    for idx in np.ndindex(*G.riemann.shape):
        a, b, c, d = idx
        r = max(r, abs(G.riemann[idx]) * s[a] / s[b] / s[c] / s[d])
    return m * m + r


def mixed(G, T):
    return np.tensordot(G.ginv, T, axes=(1, 0))


def ortho(G, T):
    """components relative to the scales of the coordinate basis"""
    s = frame(G)
    return np.array([[T[i, j] / s[i] / s[j] for j in range(G.n)] for i in range(G.n)], dtype=object)


def kretschmann(G):
    gi, Rl = G.ginv, G.riemann_l
    up = Rl
    for k in range(4):
        up = np.moveaxis(np.tensordot(gi, up, axes=(1, k)), 0, k)
    return sum(x * y for x, y in zip(up.ravel(), Rl.ravel()))


def lorentzian(G):
    e = mp.eigsy(mp.matrix(ortho(G, G.g).tolist()), eigvals_only=True)
    pos, neg = sum(1 for x in e if x > 0), sum(1 for x in e if x < 0)
    return {pos, neg} == {1, 3}


def geometry(c, sub=None):
    given = [p for p in predef.PAR[c["name"]] if p in c["given"]]
    g, rest = predef.build(c, given)
    X = list(g.symbols())
    assert [x.name for x in X] == predef.COORDS[c["name"]], "coordinates %s" % X
    ev = predef.event(c)
    pt = {x: ev[x.name] for x in X}
    pt.update(rest)
    A = predef.components(g)
    if sub:
        A = [[sub(v) for v in row] for row in A]
    free = set().union(*[sympy.sympify(v).free_symbols for row in A for v in row])
    assert free <= set(pt), "unknown symbols %s" % (free - set(pt))
    G = curv.Geometry(A, X, pt, dps=DPS)
    if not c.get("any_signature"):
        assert lorentzian(G), "signature is not Lorentzian"
    return G, ev, predef.params(c)


# ------------------------------------------------------------- per-spacetime oracles
def flat(G, e, p, c):
    s = scale2(G)
    f = frame(G)
    small([G.riemann[i] * f[i[0]] / f[i[1]] / f[i[2]] / f[i[3]] for i in np.ndindex(4, 4, 4, 4)], s, "Riemann tensor of flat spacetime")
    return []


def vacuum(G, e, p, c):
    small(ortho(G, G.ricci), scale2(G), "Ricci tensor of a vacuum spacetime")
    k = kretschmann(G)
    name = c["name"]
    if name == "Schwarzschild":
        want = 12 * p["sch"] ** 2 * p["c"] ** 4 / e["r"] ** 6
    elif name == "Kerr":
        r, a = e["r"], p["a"] * mp.cos(e["theta"])
        # Re 48 M^2/(r - i a cos)^6
        want = 12 * p["sch"] ** 2 * p["c"] ** 4 * mp.re(1 / mp.mpc(r, a) ** 6)
    else:
        want = None
    if want is not None:
        small([k - want], scale2(G) ** 2, "Kretschmann scalar minus its published value")
    return []


def electrovac(G, e, p, c):
    s = scale2(G)
    small([G.scalar], s, "Ricci scalar of an electro-vacuum")
    M = mixed(G, G.ricci)
    M2 = M.dot(M)
    t = sum(M2[i, i] for i in range(4)) / 4
    f = frame(G)
    D = M2 - np.diag([t] * 4)
    small([D[i, j] * f[i] / f[j] for i in range(4) for j in range(4)], s * s, "Rainich condition R_a^c R_c^b - delta R^2/4")
    # the energy density of the field is positive: R(u,u) >= 0 (metric signature (-,+,+,+)) for the timelike eigen-direction
    sig = -1 if G.g[1, 1] < 0 else 1
    u = timelike(G)
    E = sum(u[i] * u[j] * G.ricci[i, j] for i in range(4) for j in range(4))
    assert E >= -RTOL * s, "energy density of the electromagnetic field is negative: %s (sig %d)" % (mp.nstr(E, 6), sig)
    sq = 4 * t
    out = []
    if c["name"] in ("KerrNewman", "ReissnerNordstorm"):
        Sg = e["r"] ** 2 + (p.get("a", mp.mpf(0)) * mp.cos(e["theta"])) ** 2
        small([sq - 4 * predef.rq2(p) ** 2 * p["c"] ** 4 / Sg ** 4], s * s, "R_ab R^ab minus 4 r_Q^4 c^4/Sigma^4")
    elif c["name"] == "Ernst":
        assert sq > 0, "no field"
        if p["B"] == 0:
            small(ortho(G, G.ricci), s, "Ricci tensor for B = 0")
    return out


def timelike(G):
    """a vector that is timelike for the metric (either signature), normalised"""
    m = mp.matrix(ortho(G, G.g).tolist())
    e, V = mp.eigsy(m)
    e = list(e)
    neg = [i for i in range(4) if e[i] < 0]
    k = neg[0] if len(neg) == 1 else [i for i in range(4) if e[i] > 0][0]
    f = frame(G)
    u = [V[i, k] / f[i] for i in range(4)]
    n = abs(sum(u[i] * u[j] * G.g[i, j] for i in range(4) for j in range(4)))
    return [x / mp.sqrt(n) for x in u]


def constant_curvature(K):
    def test(G, e, p, c):
        k = K(p)
        g, f, s = G.g, frame(G), scale2(G)
        small([(G.riemann_l[i] - k * (g[i[0], i[2]] * g[i[1], i[3]] - g[i[0], i[3]] * g[i[1], i[2]])) / f[i[0]] / f[i[1]] / f[i[2]] / f[i[3]]
               for i in np.ndindex(4, 4, 4, 4)], s, "Riemann tensor minus that of constant curvature %s" % mp.nstr(k, 6))
        return []
    return test


def einstein_space(lam):
    def test(G, e, p, c):
        small(ortho(G, G.ricci - lam(p) * G.g), scale2(G), "R_ab - Lambda g_ab")
        return []
    return test


def davidson(G, e, p, c):
    s = scale2(G)
    small([G.scalar], s, "trace of the stress of radiation")
    M = mixed(G, G.einstein)
    small([M[i, j] * frame(G)[i] / frame(G)[j] for i in range(4) for j in range(4) if i != j], s, "heat flux/shear stress")
    rho = -M[0, 0]
    assert rho > 0, "energy density %s" % rho
    small([M[i, i] - rho / 3 for i in (1, 2, 3)], s, "pressures minus a third of the density")
    return []


def godel(G, e, p, c):
    om = p["omega"]
    u = [G.g[0, a] / mp.sqrt(-G.g[0, 0]) for a in range(4)]
    W = np.array([[2 * om ** 2 * u[a] * u[b] for b in range(4)] for a in range(4)], dtype=object)
    small(ortho(G, G.ricci - W), scale2(G), "R_ab - 2 omega^2 u_a u_b")
    return []


def jnw(G, e, p, c):
    rs = 2 * p["G"] * p["M"] / p["c"] ** 2
    b = rs / p["gam"]
    dln = b / (e["r"] * (e["r"] - b))
    W = np.full((4, 4), mp.mpf(0), dtype=object)
    W[1, 1] = (1 - p["gam"] ** 2) / 2 * dln ** 2
    small(ortho(G, G.ricci - W), scale2(G), "R_ab minus the stress of the massless scalar field")
    return ["scalar field"] if p["gam"] != 1 else ["gamma = 1"]


def monopole(G, e, p, c):
    s = scale2(G)
    x = p["c"] ** 2 * (1 - p["k"] ** 2) / (p["k"] * e["r"]) ** 2
    M = mixed(G, G.ricci) - np.diag([mp.mpf(0), mp.mpf(0), x, x])
    small([M[i, j] * frame(G)[i] / frame(G)[j] for i in range(4) for j in range(4)], s, "mixed Ricci tensor minus that of the monopole")
    return ["deficit" if p["k"] < 1 else "surplus" if p["k"] > 1 else "flat"]


def alcubierre(G, e, p, c):
    xs = p["x_s"]
    rs = mp.sqrt((e["x"] - xs) ** 2 + e["y"] ** 2 + e["z"] ** 2)
    if rs < 1e-3:
        raise Skip("event at the centre")
    f = predef.alcubierre_f(rs, p)
    df = mp.diff(lambda r: predef.alcubierre_f(r, p), rs)
    n = [1, p["v"] * f, 0, 0]
    E = sum(n[a] * n[b] * G.einstein[a, b] for a in range(4) for b in range(4))
    want = -p["v"] ** 2 * (e["y"] ** 2 + e["z"] ** 2) * df ** 2 / (4 * rs ** 2)
    small([E - want], scale2(G), "8 pi x energy density for the Eulerian observers minus its published value")
    # the slices are flat and the Eulerian observers have unit speed
    small([sum(n[a] * n[b] * G.g[a, b] for a in range(4) for b in range(4)) + 1], 1, "Eulerian observers")
    return []


ORACLE = {
    "Minkowski": flat, "MinkowskiCartesian": flat, "MinkowskiPolar": flat,
    "Schwarzschild": vacuum, "Kerr": vacuum, "BesselGravitationalWave": vacuum,
    "ReissnerNordstorm": electrovac, "KerrNewman": electrovac, "Ernst": electrovac,
    "AntiDeSitter": constant_curvature(lambda p: mp.mpf(-1)), "AntiDeSitterStatic": constant_curvature(lambda p: mp.mpf(-1)),
    "DeSitter": constant_curvature(lambda p: 1 / p["alpha"] ** 2), "BertottiKasner": einstein_space(lambda p: p["lambd"] * p["c"] ** 2),
    "Davidson": davidson, "Godel": godel, "JanisNewmanWinicour": jnw, "BarriolaVilekin": monopole, "AlcubierreWarp": alcubierre}


def test(c):
    with mp.workdps(DPS):
        G, e, p = geometry(c)
        labels = ORACLE[c["name"]](G, e, p, c)
    return [c["name"]] + labels + (["symbolic parameters"] if len(c["given"]) < len(predef.PAR[c["name"]]) else ["given parameters"])


def with_given(name):
    P = predef.PAR[name]
    return st.tuples(predef.case(name), st.sets(st.sampled_from(P)) if P else st.just(set())).map(lambda t: dict(t[0], given=sorted(t[1])))


# ------------------------------------------------------------- axis
AXIS = {n: ("theta", 2) for n in ["MinkowskiPolar", "Schwarzschild", "Kerr", "KerrNewman", "ReissnerNordstorm", "Ernst", "AntiDeSitter", "AntiDeSitterStatic",
                                  "BertottiKasner", "JanisNewmanWinicour", "BarriolaVilekin"]}
AXIS.update(BesselGravitationalWave=("rho", 1), Davidson=("r", 1))


def test_axis(c):
    """no cone on the axis of rotation: g_phiphi ~ x^2 g_xx at a distance x of the axis, on both halves of it"""
    name, i = AXIS[c["name"]]
    with mp.workdps(2 * DPS):
        g, rest = predef.build(c, [p for p in predef.PAR[c["name"]] if p in c["given"]])
        A, X = predef.components(g), list(g.symbols())
        j = predef.COORDS[c["name"]].index("phi")
        ev = predef.event(c)
        d = mp.mpf(10) ** -12
        for side in (0, 1):
            ev[name] = mp.pi - d if side else d
            if side and name != "theta":
                continue
            pt = {x: ev[x.name] for x in X}
            pt.update(rest)
            keys = list(pt)
            f = sympy.lambdify(keys, [sympy.sympify(A[i][i]), sympy.sympify(A[j][j])], modules="mpmath")
            gx, gp = f(*[pt[k] for k in keys])
            r = gp / (gx * d * d)
            assert abs(r - 1) < 1e-12, "circumference/(2 pi radius) of small circles around the axis squared is %s" % mp.nstr(r, 10)
    return [c["name"]]


def axis_cases():
    return st.sampled_from(sorted(AXIS)).flatmap(with_given)


# ------------------------------------------------------------- C-metric, moving bubbles
def test_cmetric(c):
    X = [sympy.Symbol(s) for s in ["t", "x", "y", "phi"]]
    f0, h0 = sympy.Function("f"), sympy.Function("h")
    z = sympy.Symbol("zz")
    k = [predef.rat(v) for v in c["poly"]] + ([predef.rat(c["quart"])] if c["quart"] else [])
    F = sum(a * z ** i for i, a in enumerate(k))
    H = -F.subs(z, -z)
    sub = lambda v: sympy.sympify(v).subs({f0: sympy.Lambda(z, F), h0: sympy.Lambda(z, H)}).doit()
    e = {x: predef.num(v) for x, v in c["ev"].items()}
    fx, hy = F.subs(z, predef.rat(c["ev"]["x"])), H.subs(z, predef.rat(c["ev"]["y"]))
    if abs(fx) < 0.05 or abs(hy) < 0.05 or abs(e["x"] + e["y"]) < 0.05:
        raise Skip("event on a horizon, axis or infinity")
    with mp.workdps(DPS):
        c = dict(c, name="CMetric", par={}, given=[], any_signature=True)
        G, _, _ = geometry(c, sub)
        s = scale2(G)
        if not c["quart"]:
            small(ortho(G, G.ricci), s, "Ricci tensor of the C-metric")
        else:
            small([G.scalar], s, "Ricci scalar of the charged C-metric")
            M = mixed(G, G.ricci)
            M2 = M.dot(M)
            t = sum(M2[i, i] for i in range(4)) / 4
            fr = frame(G)
            small([(M2[i, j] - (t if i == j else 0)) * fr[i] / fr[j] for i in range(4) for j in range(4)], s * s, "Rainich condition")
            # R_ab R^ab = 4 (a_4)^2 (x+y)^8 : field strength of the charge
            small([4 * t - 4 * predef.num(c["quart"]) ** 2 * (e["x"] + e["y"]) ** 8], s * s, "square of the Ricci tensor of the charged C-metric")
    return ["charged" if c["quart"] else "vacuum", "Lorentzian" if fx > 0 and hy > 0 else "other region"]


poly4 = st.lists(predef.q(-2, 2, 4), min_size=4, max_size=4)
CM = st.fixed_dictionaries(dict(poly=poly4, quart=st.none() | predef.q(-1, 1, 4), ev=st.fixed_dictionaries({x: predef.EVENT[x] for x in ["t", "x", "y", "phi"]})))


def test_bubble(c):
    """a bubble that moves: x_s a function of time, v its rate (or independent)"""
    t = sympy.Symbol("t")
    xs = sum(predef.rat(v) * t ** k for k, v in enumerate(c["path"]))
    name = "AlcubierreWarp"
    v = sympy.diff(xs, t)
    form = c["form"]
    kw = dict(sigma=predef.rat(c["par"]["sigma"]), R=predef.rat(c["par"]["R"]))
    with mp.workdps(DPS):
        ev = {x: predef.num(w) for x, w in c["ev"].items()}
        if form == "function":
            xf = sympy.Function("xs")(t)
            g = predefined.AlcubierreWarp(x_s=xf, v=sympy.diff(xf, t), **kw)
            conv = lambda w: sympy.sympify(w).subs(sympy.Function("xs"), sympy.Lambda(t, xs)).doit()
        else:
            g = predefined.AlcubierreWarp(x_s=xs, v=v, **kw)
            conv = lambda w: w
        X = list(g.symbols())
        A = [[conv(w) for w in row] for row in predef.components(g)]
        G = curv.Geometry(A, X, {x: ev[x.name] for x in X}, dps=DPS)
        at = lambda w: mp.mpf(str(sympy.N(sympy.sympify(w).subs(t, predef.rat(c["ev"]["t"])), DPS)))
        p = dict(predef.params(c), x_s=at(xs), v=at(v))
        m = predef.published(name, ev, p)
        for i in range(4):
            for j in range(4):
                small([G.g[i, j] - m[i, j]], 1, "g[%d,%d] of the moving bubble" % (i, j))
        labels = alcubierre(G, ev, p, dict(c, name=name))
        # the centre of the bubble is a geodesic with proper time t
        gc = [[sympy.sympify(w) for w in row] for row in A]
        pt = {X[0]: ev["t"], X[1]: p["x_s"] + mp.mpf(10) ** -9, X[2]: mp.mpf(10) ** -9, X[3]: mp.mpf(0)}
        Gc = curv.Geometry(gc, X, pt, dps=DPS)
        u = [1, p["v"], 0, 0]
        norm = sum(u[a] * u[b] * Gc.g[a, b] for a in range(4) for b in range(4))
        assert abs(norm + 1) < 1e-6 * (1 + p["v"] ** 2), "proper time at the centre is not t: g(u,u) = %s" % mp.nstr(norm, 8)
        acc = [0, at(sympy.diff(v, t)), 0, 0]
        for a in range(4):
            z = acc[a] + sum(Gc.chris[a, b, d] * u[b] * u[d] for b in range(4) for d in range(4))
            sz = sum(abs(Gc.chris[a, b, d] * u[b] * u[d]) for b in range(4) for d in range(4)) + abs(acc[a])
            assert abs(z) < 1e-5 * (1 + sz) * (1 + p["sigma"] ** 3), "centre of the bubble is accelerated: %s" % mp.nstr(z, 6)
    return ["moving " + form]


BUB = st.fixed_dictionaries(dict(path=st.lists(predef.q(-1, 1), min_size=2, max_size=3), form=st.sampled_from(["expression", "function"]),
                                 par=st.fixed_dictionaries({p: predef.RANGES[p] for p in ["sigma", "R"]}),
                                 ev=st.fixed_dictionaries({x: predef.EVENT[x] for x in predef.COORDS["AlcubierreWarp"]})))

NAMES = sorted(ORACLE)
COST = {"KerrNewman": 60, "Kerr": 60, "AlcubierreWarp": 48, "BesselGravitationalWave": 40}
SUBS = [Sub(n.lower(), with_given(n), test, quick=COST.get(n, 80), thorough=20 * COST.get(n, 80), shards=4, case_timeout=60,
            rule="one event and one set of parameters per case, off the axis and outside the outermost horizon; non-trivial: all",) for n in NAMES]
SUBS += [Sub("cmetric", CM, test_cmetric, quick=120, thorough=2400, shards=4, rule="cubic (vacuum) or quartic (charged) structure function; non-trivial: all"),
         Sub("moving_bubble", BUB, test_bubble, quick=32, thorough=640, shards=4, rule="polynomial path of the bubble, given as expression or as an undefined function of t; non-trivial: all")]

SUBS += [Sub("axis", axis_cases(), test_axis, quick=400, thorough=6000, shards=8, rule="spacetimes with an axis of rotation, any parameters, 1e-12 from the axis; non-trivial: all")]

CHECK = Check("S11", SUBS, assumptions=[
    "curvature from lib/curv.py: sympy.diff of the components, 40-digit evaluation, index sums; tolerance 1e-12 of the size of the terms",
    "field equations from the papers cited in the docstrings"], quick_scale=2)
