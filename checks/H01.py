"""H01 results depend on the arguments only, arguments and earlier results are left alone (histories over the whole package)."""
import copy
import json
import math
import os
import pickle
import signal
import warnings
os.environ["NUMBA_DISABLE_JIT"] = "1"       # every call on its own runs in a new process: nothing is compiled there (O05: no effect on results)
import mpmath as mp
import numpy as np
import sympy
from astropy import units as u
from hypothesis import strategies as st
from harness import Check, Sub, Skip, grid
import bh, geo, predef, symgen
from einsteinpy.bodies import Body
from einsteinpy.geodesic import Geodesic, Nulllike, Timelike
from einsteinpy.hypersurface import SchwarzschildEmbedding
from einsteinpy.integrators import RK4naive, RK45, GeodesicIntegrator
from einsteinpy.metric import Kerr, KerrNewman, Schwarzschild
from einsteinpy.rays import Shadow
from einsteinpy.symbolic import (ChristoffelSymbols, EinsteinTensor, GenericVector, MetricTensor, RicciScalar, RicciTensor,
                                 RiemannCurvatureTensor, SchoutenTensor, StressEnergyMomentumTensor, WeylTensor, predefined)
from einsteinpy.symbolic.constants import get_constant
from einsteinpy.symbolic.predefined import find
from einsteinpy.symbolic.tensor import Tensor, tensor_product
from einsteinpy.utils.scalar_factor import scalar_factor, scalar_factor_derivative

SYM = dict(christoffels=ChristoffelSymbols, riemann=RiemannCurvatureTensor, ricci=RicciTensor, einstein=EinsteinTensor,
           stress=StressEnergyMomentumTensor, schouten=SchoutenTensor, weyl=WeylTensor)


class World:
    """objects shared by the calls of one history, the arguments given, the arrays returned"""

    def __init__(self):
        self.shared, self.args, self.arrays = {}, [], []

    def get(self, kind, spec, make):
        key = kind + json.dumps(spec, sort_keys=True)
        if key not in self.shared:
            self.shared[key] = make()
        return self.shared[key]

    def arg(self, x):
        self.args.append((x, plain(x)))
        return x

    def unchanged(self):
        for x, old in self.args:
            d = differ(plain(x), old)
            if d:
                return "an argument was changed: " + d
        return None


def plain(x):
    """anything -> nested lists of numbers and strings"""
    if isinstance(x, u.Quantity):
        return [plain(x.value), str(x.unit)]
    if isinstance(x, np.ndarray):
        return [list(x.shape), [plain(v) for v in x.ravel().tolist()]]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return [[str(k), plain(v)] for k, v in sorted(x.items(), key=lambda t: str(t[0]))]
    if isinstance(x, (bool, str, type(None))):
        return repr(x)
    if isinstance(x, (int, float, np.number)):
        return float(x)
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, sympy.Basic):
        return str(x)
    return repr(x)


def differ(a, b, path=""):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: length %d, %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, path + "[%d]" % i)
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * max(abs(a), abs(b)):
            return None
        return "%s: %r, %r" % (path, a, b)
    return None if type(a) is type(b) and a == b else "%s: %r, %r" % (path, a, b)


# --- the operations: (case, world) -> result -----------------------------------------------------------
def op_bh(c, w):
    h = c["hole"]
    m = w.get("hole", {k: h[k] for k in ("kind", "M", "a", "Q")}, lambda: bh.metric(h))
    x = w.arg(bh.xvec(h))
    what = c["what"]
    if what == "cov":
        return m.metric_covariant(x)
    if what == "contra":
        return m.metric_contravariant(x)
    if what == "christoffels":
        return m.christoffels(x)
    if what == "f_vec":
        return m.f_vec(0.0, w.arg(np.array(list(bh.xvec(h)) + [1.1, 0.1, 1e-3, 2e-3])))
    if what == "singularities":
        s = m.singularities()
        return [[k, v(h["th"]) if callable(v) else v] for k, v in sorted(s.items())]
    if h["kind"] != "KerrNewman":
        return [m.a, m.M, m.Q if hasattr(m, "Q") else 0]
    return getattr(m, {"potential": "em_potential_covariant", "field": "em_tensor_covariant", "potential_up": "em_potential_contravariant", "field_up": "em_tensor_contravariant"}[what])(x)


def op_coords(c, w):
    o = w.get("coords", {k: c[k] for k in ("system", "q", "v", "t")}, lambda: bh.coords(c["system"], c["q"], c["v"], c["t"]))
    names = {"Cartesian": ("x", "y", "z", "v_x", "v_y", "v_z"), "Spherical": ("r", "theta", "phi", "v_r", "v_th", "v_p"),
             "BoyerLindquist": ("r", "theta", "phi", "v_r", "v_th", "v_p")}
    parts = lambda p: [getattr(p, n) for n in ("t",) + names[p.system]]
    if c["to"] == "four" and c["system"] != "Cartesian":
        kind = "Schwarzschild" if c["system"] == "Spherical" else "Kerr"
        return list(o.velocity(w.get("vmetric", [kind, c["M"], c["a"]], lambda: bh.metric(dict(kind=kind, M=c["M"], a=c["a"], Q=0.0)))))
    if c["to"] in ("position", "four") or c["to"] == {"Cartesian": "cartesian", "Spherical": "spherical", "BoyerLindquist": "bl"}[c["system"]]:
        return [o.position(), parts(o)]
    kw = dict(M=w.arg((c["M"] * u.kg).to(u.g if c["t"] % 2 else u.kg)), a=w.arg(c["a"] * u.one)) if c["to"] == "bl" or c["system"] == "BoyerLindquist" else {}
    return parts(getattr(o, c["to"] + "_differential")(**kw))


def op_geodesic(c, w):
    kw = dict(position=w.arg(list(c["pos"])), momentum=w.arg(list(c["mom"])), steps=c["steps"], delta=c["delta"], order=c["order"],
              return_cartesian=c["cart"], omega=c["omega"])
    if c["metric"] == "user":
        f = w.get("user", c["prm"], lambda: geo.user_metric(c["prm"]))
    else:
        f = c["metric"]
    cls = {"G": Geodesic, "T": Timelike, "N": Nulllike}[c["cls"]]
    if c["cls"] == "G":
        kw["time_like"] = c["tl"]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        g = cls(metric=f, metric_params=w.arg(geo.params(c)), **kw)
        out = [list(g.trajectory[0]), np.array(g.trajectory[1]), list(g.momentum), list(g.position), list(g.metric_params)]
    w.arrays.append(g.trajectory[1])
    return out + [len(ws)]


def op_integrator(c, w):
    if c["kind"] == "geodesic":
        f = w.get("user", c["prm"], lambda: geo.user_metric(c["prm"]))
        i = GeodesicIntegrator(metric=f, metric_params=(), q0=w.arg([0.0] + list(c["pos"])), p0=w.arg([-1.0] + list(c["mom"])), time_like=True,
                               steps=c["n"], delta=c["h"], suppress_warnings=True)
        for _ in range(c["n"]):
            i.step()
        return [list(np.ravel(np.array(r, dtype=float))) for r in i.results]
    A = np.array(c["A"])
    y0 = w.arg(np.array(c["y0"]))
    if c["kind"] == "rk4":
        i = RK4naive(lambda t, y: A @ y + math.cos(t), 0.0, y0, 1e3, c["h"])
    else:
        i = RK45(lambda t, y: A @ y + math.cos(t), 0.0, y0, 1e3, c["h"], rtol=1e-8, atol=1e-10)
    out = []
    for _ in range(c["n"]):
        i.step()
        out.append([float(i.t), [float(v) for v in np.ravel(i.y)]])
    return out


def op_small(c, w):
    k = c["kind"]
    kg, m, sec = (u.kg, u.m, u.s) if c["n"] % 3 else (u.g, u.km, u.hour)
    if k == "scale":
        t = w.arg(c["t"] * sec if c["n"] % 2 else np.array([c["t"], 2 * c["t"]]) * sec)
        return [scalar_factor(t, c["era"], c["p"]), scalar_factor_derivative(t, c["era"], c["p"])]
    if k == "shadow":
        s = Shadow(mass=w.arg((c["t"] * u.kg).to(kg)), n_rays=c["n"], fov=w.arg((c["p"] * 20 * c["t"] * u.km).to(m)))
        for x in (s.intensity, s.b_crit, s.fb1, s.fb2):
            if isinstance(x, np.ndarray):
                w.arrays.append(x)
        return [np.array([float(u.Quantity(v).value) for v in np.ravel(x)]) for x in (s.intensity, s.fb1, s.fb2, s.intensities if hasattr(s, "intensities") else 0)]
    if k == "embedding":
        e = SchwarzschildEmbedding(w.arg((c["t"] * 1e23 * u.kg).to(kg)))
        return [e.get_values(c["n"] * 3), [np.shape(v) for v in e.get_values_surface(5)], e.gradient(4.1 * float(c["t"]))]
    if k == "body":
        kw = {}
        if c["n"] % 2:
            kw["coords"] = w.get("bodycoords", c["p"], lambda: bh.coords("Spherical", (c["p"], 1.0, 0.5)))
        b = Body(name="b%d" % c["n"], mass=w.arg(c["t"] * kg), R=w.arg(c["p"] * m), **kw)
        m = Schwarzschild(coords=bh.coords("Spherical"), M=b.mass)
        return [b.name, b.mass, b.R, b.q, b.a if hasattr(b, "a") else 0, m.metric_covariant([0.0, 40.0, 1.0, 0.0])]
    return list(find(c["text"]))


def sym_metric(c):
    return symgen.metric_tensor(c, c.get("config", "ll"))


EXTRA = {get_constant(k): mp.mpf(v) for k, v in (("G", 2), ("c", 3), ("Cosmo_Const", 5))}


def numbers(A, c):
    """components at the point of the case, 15 digits"""
    v = np.ravel(np.array(symgen.evaluate(A, c, EXTRA), dtype=object))
    return [float("%.10e" % float(sympy.re(z))) if sympy.sympify(z).is_number else str(z) for z in v]


def op_symbolic(c, w):
    g = w.get("metric", c["g"], lambda: sym_metric(c["g"]))
    what, cfg = c["what"], c["cfg"]
    if what == "inverse":
        t = g.inv()
    elif what == "lower":
        t = g.lower_config()
    elif what == "scalar":
        return [numbers([RicciScalar.from_metric(g).expr], c["g"])]
    elif what == "vector":
        V = GenericVector([sympy.Integer(i + 1) * g.symbols()[i] for i in range(g.dims)], g.symbols(), config="u", parent_metric=g)
        t = w.get("vec", c["g"], lambda: V).change_config(cfg[0])
    elif what == "product":
        t = tensor_product(g, w.get("christoffels", c["g"], lambda: ChristoffelSymbols.from_metric(g)))
    elif what == "transform":
        L = w.arg(sympy.Matrix(g.dims, g.dims, lambda i, j: int(i == j) + (i + 2 * j) % 3))
        if L.det() == 0:
            L = w.arg(sympy.eye(g.dims) * 2)
        t = g.lorentz_transform(L)
    elif what in ("schouten", "weyl") and g.dims < 3:
        t = g.inv()
    else:
        cls = SYM[what]
        t = w.get(what, c["g"], lambda: cls.from_metric(g))
        new = cfg[:t.order]
        if c["change"] and new != t.config:
            t = t.change_config(new)
    return [numbers(t.tensor(), c["g"]), t.config, type(t).__name__, t.name if t.name is None else str(t.name), [str(s) for s in t.symbols()], t.order]


def op_predefined(c, w):
    g, _ = predef.build(c["p"], c["given"])
    h = getattr(predefined, c["p"]["name"])()
    out = []
    for m in (g, h):
        A = m.tensor()
        s = sorted(A.free_symbols, key=str)
        at = {x: sympy.Rational(3 + 2 * i, 7 + i) for i, x in enumerate(s)}
        out += [str(m.name), m.config, [str(x) for x in m.symbols()], [str(x) for x in s], [str(sympy.N(z.subs(at), 8)) for z in np.ravel(np.array(A.tolist(), dtype=object))]]
    return out


OPS = dict(bh=op_bh, coords=op_coords, geodesic=op_geodesic, integrator=op_integrator, small=op_small, symbolic=op_symbolic, predefined=op_predefined)


def outcome(c, w):
    try:
        with np.errstate(all="ignore"):
            r = OPS[c["op"]](c, w)
        collect(r, w)
        return ["ok", plain(r)], r
    except Exception as e:
        return ["raised", type(e).__name__], None


def collect(r, w):
    if isinstance(r, np.ndarray) and not isinstance(r, u.Quantity):
        w.arrays.append(r)
    elif isinstance(r, (list, tuple)):
        for x in r:
            collect(x, w)


def forked(f):
    """f() in a child process that has the state of this one, and leaves it as it is"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            os.close(r)
            data = pickle.dumps(f())
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise Skip("child ended without an answer")
    return pickle.loads(data)


def scribble(a):
    """what a caller may do with an array that was handed to it"""
    try:
        a[...] = np.full(a.shape, 77).astype(a.dtype)
    except (ValueError, TypeError):
        pass


def history(c):
    w, kept, errors = World(), [], []
    for n, i in enumerate(c["seq"]):
        del w.arrays[:]
        got, r = outcome(c["ops"][i], w)
        kept.append((i, got, r))
        if c["scribble"]:
            for a in w.arrays:
                scribble(a)
    if not c["scribble"]:
        for n, (i, got, r) in enumerate(kept):
            if got[0] == "ok":
                d = differ(plain(r), got[1])
                if d:
                    errors.append("the result of call %d (%s) changed afterwards: %s" % (n, c["ops"][i]["op"], d))
    bad = w.unchanged()
    return [g for _, g, _ in kept], errors + ([bad] if bad else [])


def test(c):
    fresh = [forked(lambda o=o: outcome(o, World())[0]) for o in c["ops"]]
    got, errors = forked(lambda: history(c))
    for n, (i, g) in enumerate(zip(c["seq"], got)):
        d = differ(g, fresh[i])
        assert d is None, "call %d of the history, %s: %s (in the history, on its own)" % (n, json.dumps(c["ops"][i])[:300], d)
    assert not errors, errors[0]
    return sorted({o["op"] for o in c["ops"]}) + ["scribble" if c["scribble"] else "keep"] + (["raised"] if any(f[0] == "raised" for f in fresh) else [])


# --- generators -----------------------------------------------------------------------------------------
def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif isinstance(x, float) and x != 0:
        yield path


def variant(draw, o):
    """the same call with one number or setting different"""
    o = copy.deepcopy(o)
    if o["op"] == "symbolic":
        if draw(st.booleans()):
            o["g"]["twin"] = draw(st.sampled_from(symgen.TWINS))
            o["g"] = symgen.twin(o["g"])
            o["g"]["twin"] = None
        else:
            o["what"] = draw(st.sampled_from(WHAT_SYM))
        return o
    if o["op"] == "predefined":
        o["given"] = [] if o["given"] else o["given"]
        k = draw(st.sampled_from(sorted(o["p"]["par"]))) if o["p"]["par"] else None
        return o
    if draw(st.integers(0, 2)) == 0:
        pick = {"bh": ("what", WHAT_BH), "coords": ("to", TO), "geodesic": ("cart", [True, False]), "integrator": ("n", [2, 3, 5]), "small": ("n", [4, 5, 6])}[o["op"]]
        o[pick[0]] = draw(st.sampled_from(pick[1]))
        return o
    ps = list(leaves(o))
    if o["op"] == "bh" and draw(st.booleans()):
        ps = [("hole", k) for k in ("M", "a", "Q") if o["hole"][k]]
    if ps:
        path = ps[draw(st.integers(0, len(ps) - 1))]
        x = o
        for k in path[:-1]:
            x = x[k]
        x[path[-1]] = x[path[-1]] * draw(st.sampled_from([1.25, 1.0001, 0.5, 1 + 1e-9]))
    return o


WHAT_BH = ["cov", "contra", "christoffels", "christoffels", "f_vec", "singularities", "potential", "field", "potential_up", "field_up"]
WHAT_SYM = ["christoffels", "riemann", "ricci", "einstein", "stress", "schouten", "inverse", "lower", "scalar", "vector", "product", "transform", "weyl"]
TO = ["position", "four", "cartesian", "spherical", "bl"]


@st.composite
def calls(draw, kinds):
    k = draw(st.sampled_from(kinds))
    if k == "bh":
        h = dict(draw(bh.hole_events(naked=False)), twin=None, near=None)
        return dict(op=k, hole=h, what=draw(st.sampled_from(WHAT_BH)))
    if k == "coords":
        return dict(op=k, system=draw(st.sampled_from(["Cartesian", "Spherical", "BoyerLindquist"])), q=[draw(grid(2, 90, 10)), draw(grid(0.1, 3, 100)), draw(grid(-3, 3, 100))],
                    v=[draw(grid(-90, 90, 1)), draw(grid(-1, 1, 100)), draw(grid(-1, 1, 100))], t=draw(grid(0, 9, 1)), to=draw(st.sampled_from(TO)),
                    M=draw(st.sampled_from([1e24, 2e27, 4e27])), a=draw(grid(0, 1, 100)))
    if k == "geodesic":
        c = draw(st.one_of(geo.bh_cases(), geo.user_cases()))
        c.pop("uprm", None)
        return dict(c, op=k, steps=draw(st.integers(1, 3)), delta=draw(st.sampled_from([0.1, 0.5, 0.01])), order=draw(st.sampled_from([2, 2, 2, 4])),
                    cart=draw(st.booleans()), omega=draw(st.sampled_from([0.1, 1.0, 0.01])), cls=draw(st.sampled_from("GTN")))
    if k == "integrator":
        kind = draw(st.sampled_from(["rk4", "rk45", "geodesic"]))
        if kind == "geodesic":
            c = draw(geo.user_cases())
            return dict(op=k, kind=kind, prm=c["prm"], pos=c["pos"], mom=c["mom"], n=draw(st.integers(1, 4)), h=0.05)
        return dict(op=k, kind=kind, A=[[draw(grid(-1, 1, 10)) for _ in range(2)] for _ in range(2)], y0=[draw(grid(-2, 2, 10)) for _ in range(2)], n=draw(st.integers(1, 5)), h=draw(st.sampled_from([0.1, 0.2])))
    if k == "small":
        kind = draw(st.sampled_from(["scale", "scale", "shadow", "embedding", "body", "find"]))
        return dict(op=k, kind=kind, t=draw(grid(0.5, 9, 10)), p=draw(grid(0.5, 4, 10)), n=draw(st.integers(4, 9)), era=draw(st.sampled_from(["md", "rd", "ded"])),
                    text=draw(st.sampled_from(["Kerr", "de", "M", "sitter", "a"])))
    if k == "predefined":
        p = draw(st.sampled_from(sorted(predef.PAR)).flatmap(predef.case))
        return dict(op=k, p=p, given=draw(st.sampled_from([[], list(predef.PAR[p["name"]])])))
    g = dict(draw(symgen.metrics(dims=(2, 2, 2, 3), off=1, funs=False, kinds=("mixed",))), twin=None)
    return dict(op="symbolic", g=symgen.tame(g), what=draw(st.sampled_from(WHAT_SYM)), cfg=draw(st.text("lu", min_size=4, max_size=4)), change=draw(st.booleans()))


@st.composite
def histories(draw, kinds, n=3, length=8):
    ops = [draw(calls(kinds)) for _ in range(draw(st.integers(1, n)))]
    for o in list(ops):
        if draw(st.booleans()):
            ops.append(variant(draw, o))
    seq = draw(st.permutations(list(range(len(ops)))))
    seq = list(seq) + [draw(st.integers(0, len(ops) - 1)) for _ in range(draw(st.integers(1, length)))]
    return dict(ops=ops, seq=seq, scribble=draw(st.booleans()))


def repeated(c):
    return len(c["seq"]) > len(set(c["seq"])) and len(c["ops"]) > 1


R = "fresh results from forked processes compared with those inside one history with shared objects; non-trivial: at least two different calls, one of them repeated"
CHECK = Check("H01", [
    Sub("numeric", histories(["bh", "bh", "coords", "geodesic", "integrator", "small"]), test, 800, 40000, nontrivial=repeated, rule="calls of the numeric parts; " + R, case_timeout=60, max_timeouts=4),
    Sub("holes", histories(["bh"], n=2, length=4), test, 800, 30000, nontrivial=repeated, rule="calls of the black hole metrics; " + R, case_timeout=60, max_timeouts=4),
    Sub("symbolic", histories(["symbolic", "symbolic", "symbolic", "predefined"], n=2, length=5), test, 120, 6000, nontrivial=repeated, rule="calls of the symbolic part; " + R, case_timeout=15, max_timeouts=12),
    Sub("mixed", histories(["bh", "coords", "geodesic", "integrator", "small", "symbolic", "predefined"], n=3, length=4), test, 90, 4000, nontrivial=repeated, rule="calls of all parts; " + R, case_timeout=60, max_timeouts=8),
], assumptions=["a call on its own in a forked child is the reference; two results are equal within 1e-12"])
