"""G01 initial 4-momentum on the mass shell."""
import math
import numpy as np
from harness import Check, Sub, Skip, close, st, grid
import geo
from einsteinpy.geodesic import Geodesic, Timelike, Nulllike


def build(c, **kw):
    M = geo.code_metric(c)
    args = dict(metric=M, metric_params=geo.params(c), position=c["pos"], momentum=c["mom"], steps=1, delta=1e-3,
                suppress_warnings=True, return_cartesian=False)
    args.update(kw)
    if c.get("cls") == "flag" or "time_like" in kw:
        args.setdefault("time_like", {"bool": bool, "int": int, "numpy": np.bool_}[c["flag"]](c["tl"]))
        return Geodesic(**args)
    return (Timelike if c["tl"] else Nulllike)(**args)


def test(c):
    G, q, g, A, B, C, D = geo.usable(c)
    conv = {"list": list, "tuple": tuple, "array": np.array}[c["as"]]
    pos, mom = conv(c["pos"]), conv(c["mom"])
    o = build(dict(c, pos=pos, mom=mom))
    P = np.asarray(o.momentum, dtype=float)
    X = np.asarray(o.position, dtype=float)
    assert P.shape == (4,) and X.shape == (4,)
    close(X, [0.0] + c["pos"], rtol=0, what="position ")
    close(P[1:], c["mom"], rtol=0, what="spatial momentum ")
    sc = np.abs(P) @ np.abs(g) @ np.abs(P) + 1
    close(P @ g @ P, -1.0 if c["tl"] else 0.0, rtol=0, atol=1e-11 * sc, what="mass shell")
    assert (g @ P)[0] > 0, "past directed: dt/dlambda = %r" % (g @ P)[0]
    # exact root (stable form of the quadratic)
    s = math.sqrt(D)
    want = (-B + s) / A if B <= 0 else C / (-B - s)
    close(P[0], want, rtol=0, atol=1e-11 * (abs(B) + s) / abs(A), what="p_t")
    tl = o.time_like
    assert bool(tl) == c["tl"]
    assert o.kind == ("Time-like" if c["tl"] else "Null-like"), o.kind
    assert list(pos) == list(c["pos"]) and list(mom) == list(c["mom"])
    cross = sum(1 for k in (1, 2, 3) if g[0, k]) if c["metric"] == "user" else int(abs(g[0, 3]) > 0)
    scross = sum(1 for i, j in ((1, 2), (1, 3), (2, 3)) if g[i, j])
    return [c["metric"], c.get("num", "float data"), "timelike" if c["tl"] else "null", "%d t-cross %d space-cross" % (cross, scross)]


@st.composite
def cases(draw):
    c = draw(st.one_of(geo.bh_cases(), geo.user_cases(amp=0.4)))
    c["as"] = draw(st.sampled_from(["list", "tuple", "array"]))
    c["cls"] = draw(st.sampled_from(["flag", "named"]))
    c["flag"] = draw(st.sampled_from(["bool", "bool", "int", "numpy"]))
    if draw(st.integers(0, 3)) == 0:
        # whole numbers
        c["mom"] = [int(math.copysign(math.ceil(abs(m)), m)) for m in c["mom"]]
        c["num"] = "integer momentum"
        if draw(st.booleans()):
            th, r = c["pos"][1], c["pos"][0]
            c["pos"] = [int(math.ceil(r)), 1 if c["metric"] != "user" else int(round(th)), int(round(c["pos"][2]))]
            c["num"] = "integer data"
    return c


CHECK = Check("G01", [
    Sub("momentum", cases(), test, 2600, 60000, nontrivial=lambda c: any(c["mom"]) and (c["metric"] == "user" or c["metric"] != "Schwarzschild"),
        rule="built-in black holes outside the ergosphere and random non-diagonal user metrics, random 3-momentum; non-trivial: non-zero momentum in a metric with cross terms"),
], assumptions=["metrics with g^tt < 0 and states with a real momentum, outside the ergosphere"], quick_scale=3)
