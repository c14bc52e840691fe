"""The predefined metrics: signatures, domains of events and parameters, published line elements.

Published line elements are written here from the literature (Stephani et al., Mueller & Grave's
Catalogue of Spacetimes, the papers cited in the docstrings), independently of the repository, in the
repository's documented units: coordinate time, the time component has no factor c, lengths are divided
by c (where the metric has a parameter c); signature (+,-,-,-) for the vacuum black holes, (-,+,+,+) otherwise."""
import mpmath as mp
import sympy
from harness import st
from einsteinpy.symbolic import predefined
from einsteinpy.symbolic.constants import get_constant

q = lambda lo, hi, den=16: st.integers(int(lo * den), int(hi * den)).filter(bool).map(lambda k: [k, den])
num = lambda v: mp.mpf(v[0]) / v[1]
rat = lambda v: sympy.Rational(v[0], v[1])

# name -> (coordinates, parameters in the order of the signature, default symbols)
PAR = {
    "AlcubierreWarp": ["x_s", "sigma", "R", "v"],
    "AntiDeSitter": [], "AntiDeSitterStatic": [],
    "BarriolaVilekin": ["c", "k"],
    "BertottiKasner": ["c", "k", "lambd"],
    "BesselGravitationalWave": ["C"],
    "CMetric": [], "Davidson": [], "DeSitter": [],
    "Ernst": ["B", "M"],
    "Godel": [],
    "JanisNewmanWinicour": ["c", "G", "gam", "M"],
    "Kerr": ["c", "sch", "a"],
    "KerrNewman": ["c", "G", "eps_0", "sch", "a", "Q"],
    "Minkowski": ["c"], "MinkowskiCartesian": ["c"], "MinkowskiPolar": ["c"],
    "ReissnerNordstorm": ["c", "G", "eps_0", "sch", "Q"],
    "Schwarzschild": ["c", "sch"],
}
CART, SPH = ["t", "x", "y", "z"], ["t", "r", "theta", "phi"]
COORDS = {"AlcubierreWarp": CART, "AntiDeSitter": ["t", "chi", "theta", "phi"], "AntiDeSitterStatic": SPH, "BarriolaVilekin": SPH, "BertottiKasner": SPH,
          "BesselGravitationalWave": ["t", "rho", "phi", "z"], "CMetric": ["t", "x", "y", "phi"], "Davidson": ["t", "r", "z", "phi"], "DeSitter": CART,
          "Ernst": SPH, "Godel": CART, "JanisNewmanWinicour": SPH, "Kerr": SPH, "KerrNewman": SPH, "Minkowski": CART, "MinkowskiCartesian": CART,
          "MinkowskiPolar": SPH, "ReissnerNordstorm": SPH, "Schwarzschild": SPH}
TITLE = {"Minkowski": "MinkowskiMetric", "MinkowskiCartesian": "MinkowskiMetric", "MinkowskiPolar": "MinkowskiMetricPolar", "CMetric": "CMetric"}
DEFAULT = {"sch": "r_s", "lambd": "l"}      # parameters whose default symbol has another name
FIXED = {"DeSitter": ["alpha"], "Godel": ["omega"]}    # symbols that are not parameters

R1 = q(0.25, 3)
RANGES = {  # ranges of the parameters
    "c": R1, "G": R1, "eps_0": R1, "k": q(0.25, 2), "lambd": q(0.25, 2), "C": q(-1, 1), "B": q(-0.5, 0.5), "M": q(0.25, 2), "gam": q(0.25, 1),
    "sch": q(-1, 3), "a": q(-1.5, 1.5), "Q": q(-1.5, 1.5), "x_s": q(-1, 1), "sigma": q(0.25, 2), "R": q(0.25, 2), "v": q(-1.5, 1.5), "alpha": q(0.25, 3), "omega": q(-1, 1)}
EVENT = {  # ranges of the coordinates (r is an offset beyond the outermost singular radius, see event())
    "t": q(-1, 1), "x": q(-1, 1), "y": q(-1, 1), "z": q(-1, 1), "r": q(0.25, 8), "theta": q(0.125, 3), "phi": q(-3, 3), "chi": q(-1.5, 1.5), "rho": q(0.25, 4)}


def case(name):
    d = {p: RANGES[p] for p in PAR[name] + FIXED.get(name, [])}
    ev = {x: EVENT[x] for x in COORDS[name]}
    if name == "Davidson":
        ev["t"] = q(0.25, 3)
    return st.fixed_dictionaries(dict(name=st.just(name), par=st.fixed_dictionaries(d), ev=st.fixed_dictionaries(ev)))


def params(c):
    return {p: num(v) for p, v in c["par"].items()}


def event(c):
    """coordinate name -> mpf, moved into the domain of the metric"""
    e, p = {x: num(v) for x, v in c["ev"].items()}, params(c)
    name = c["name"]
    if name == "Ernst":
        e["r"] += 2 * p["M"]
    elif name == "JanisNewmanWinicour":
        e["r"] += 2 * p["G"] * p["M"] / p["c"] ** 2 / p["gam"]
    elif name == "Schwarzschild":
        e["r"] += max(p["sch"], 0)
    elif name in ("Kerr", "KerrNewman", "ReissnerNordstorm"):
        a = p.get("a", mp.mpf(0))
        q2 = rq2(p) if "Q" in p else mp.mpf(0)
        disc = p["sch"] ** 2 / 4 - a * a - q2
        out = p["sch"] / 2 + mp.sqrt(disc) if disc > 0 else mp.mpf(0)
        e["r"] += max(out, 0)
    return e


def rq2(p):
    return p["Q"] ** 2 * p["G"] / (4 * mp.pi * p["eps_0"] * p["c"] ** 4)


def default_symbol(name, p):
    if p in ("c", "G", "eps_0"):
        return get_constant(p)
    return sympy.Symbol(DEFAULT.get(p, p))


def build(c, given=None):
    """the metric with the parameters in `given` passed as exact numbers -> (metric, {symbol: mpf} for the rest)"""
    name = c["name"]
    given = PAR[name] if given is None else given
    g = getattr(predefined, name)(**{p: rat(c["par"][p]) for p in given})
    return g, {default_symbol(name, p): num(c["par"][p]) for p in PAR[name] + FIXED.get(name, []) if p not in given}


def components(g):
    A = g.tensor()
    n = g.dims
    return [[A[i, j] for j in range(n)] for i in range(n)]


def published(name, e, p):
    """the published line element at an event: 4x4 mpf"""
    S, C, ex = mp.sin, mp.cos, mp.exp
    m = mp.zeros(4, 4)

    def dg(*v):
        for i, x in enumerate(v):
            m[i, i] = x
        return m

    def off(i, j, x):
        m[i, j] = m[j, i] = x
    c = p.get("c")
    if name in ("Minkowski", "MinkowskiCartesian"):
        return dg(-1, 1 / c ** 2, 1 / c ** 2, 1 / c ** 2)
    s = S(e["theta"]) ** 2 if "theta" in e else None
    r = e.get("r")
    if name == "MinkowskiPolar":
        return dg(-1, 1 / c ** 2, r * r / c ** 2, r * r * s / c ** 2)
    if name in ("Schwarzschild", "Kerr", "KerrNewman", "ReissnerNordstorm"):
        # ds^2 = Dl/Sg (c dt - a sin^2 dphi)^2 - sin^2/Sg ((r^2+a^2) dphi - a c dt)^2 - Sg/Dl dr^2 - Sg dtheta^2, over c^2
        a = p.get("a", mp.mpf(0))
        q2 = rq2(p) if "Q" in p else mp.mpf(0)
        Dl, Sg = r * r - p["sch"] * r + a * a + q2, r * r + a * a * C(e["theta"]) ** 2
        u, w = [c, 0, 0, -a * s], [-a * c, 0, 0, r * r + a * a]
        for i in range(4):
            for j in range(4):
                m[i, j] = (Dl * u[i] * u[j] - s * w[i] * w[j]) / Sg / c ** 2
        m[1, 1], m[2, 2] = -Sg / Dl / c ** 2, -Sg / c ** 2
        return m
    if name == "AlcubierreWarp":
        # -dt^2 + (dx - v f dt)^2 + dy^2 + dz^2
        rs = mp.sqrt((e["x"] - p["x_s"]) ** 2 + e["y"] ** 2 + e["z"] ** 2)
        f = alcubierre_f(rs, p)
        dg(-1 + (p["v"] * f) ** 2, 1, 1, 1)
        off(0, 1, -p["v"] * f)
        return m
    if name == "AntiDeSitter":
        h = C(e["t"]) ** 2
        return dg(-1, h, h * mp.sinh(e["chi"]) ** 2, h * mp.sinh(e["chi"]) ** 2 * s)
    if name == "AntiDeSitterStatic":
        return dg(-mp.cosh(r) ** 2, 1, mp.sinh(r) ** 2, mp.sinh(r) ** 2 * s)
    if name == "DeSitter":
        h = ex(2 * e["t"] / p["alpha"])
        return dg(-1, h, h, h)
    if name == "BarriolaVilekin":
        return dg(-1, 1 / c ** 2, (p["k"] * r) ** 2 / c ** 2, (p["k"] * r) ** 2 * s / c ** 2)
    if name == "BertottiKasner":
        return dg(-1, ex(2 * mp.sqrt(p["lambd"]) * c * e["t"]) / c ** 2, 1 / (p["lambd"] * c ** 2), s / (p["lambd"] * c ** 2))
    if name == "BesselGravitationalWave":
        # e^{-2U}(e^{2K}(drho^2 - dt^2) + rho^2 dphi^2) + e^{2U} dz^2 (Kramer 1999)
        rho, t = e["rho"], e["t"]
        J0, J1 = mp.besselj(0, rho), mp.besselj(1, rho)
        U = p["C"] * J0 * C(t)
        K = p["C"] ** 2 * rho / 2 * (rho * (J0 ** 2 + J1 ** 2) - 2 * J0 * J1 * C(t) ** 2)
        return dg(-ex(2 * K - 2 * U), ex(2 * K - 2 * U), ex(-2 * U) * rho ** 2, ex(2 * U))
    if name == "CMetric":
        f, h, w = p["f"](e["x"]), p["h"](e["y"]), (e["x"] + e["y"]) ** 2
        return dg(-h / w, 1 / (w * f), 1 / (w * h), f / w)
    if name == "Davidson":
        h, t43 = (1 + r * r) ** (mp.mpf(2) / 5), e["t"] ** (mp.mpf(4) / 3)
        return dg(-h ** 3, t43 * h, 1 / (e["t"] ** (mp.mpf(2) / 3) * h), t43 * r * r / h)
    if name == "Ernst":
        L, w = 1 + p["B"] ** 2 * r * r * s, 1 - 2 * p["M"] / r
        return dg(-L * L * w, L * L / w, L * L * r * r, r * r * s / L ** 2)
    if name == "Godel":
        h = ex(mp.sqrt(2) * p["omega"] * e["x"])
        # -(dt + h dy)^2 + dx^2 + h^2/2 dy^2 + dz^2
        dg(-1, 1, -h * h / 2, 1)
        off(0, 2, -h)
        return m
    if name == "JanisNewmanWinicour":
        al = 1 - 2 * p["G"] * p["M"] / c ** 2 / (p["gam"] * r)
        g = p["gam"]
        return dg(-al ** g, al ** -g / c ** 2, r * r * al ** (1 - g) / c ** 2, r * r * al ** (1 - g) * s / c ** 2)
    raise KeyError(name)


def alcubierre_f(rs, p):
    t = mp.tanh
    return (t(p["sigma"] * (rs + p["R"])) - t(p["sigma"] * (rs - p["R"]))) / (2 * t(p["sigma"] * p["R"]))
