"""C02 velocity conversions are the Jacobian."""
import math
import numpy as np
from astropy import units as u
from harness import Check, Sub, Skip, close, st, grid, logfloat
import charts
from einsteinpy.coordinates import (CartesianDifferential, SphericalDifferential, BoyerLindquistDifferential)
from einsteinpy.coordinates import utils as cu
from einsteinpy.coordinates.conversion import CartesianConversion, SphericalConversion, BoyerLindquistConversion
from einsteinpy import constant

CLS = dict(Cartesian=CartesianDifferential, Spherical=SphericalDifferential, BoyerLindquist=BoyerLindquistDifferential)
CONV = dict(Cartesian=CartesianConversion, Spherical=SphericalConversion, BoyerLindquist=BoyerLindquistConversion)
METH = dict(Cartesian="cartesian_differential", Spherical="spherical_differential", BoyerLindquist="bl_differential")
CMETH = dict(Cartesian="convert_cartesian", Spherical="convert_spherical", BoyerLindquist="convert_bl")
NAMES = dict(Cartesian=("t", "x", "y", "z", "v_x", "v_y", "v_z"),
             Spherical=("t", "r", "theta", "phi", "v_r", "v_th", "v_p"),
             BoyerLindquist=("t", "r", "theta", "phi", "v_r", "v_th", "v_p"))
K = constant.G.value / constant.c.value ** 2


def units(system):
    if system == "Cartesian":
        return (u.s,) + (u.m,) * 3 + (u.m / u.s,) * 3
    return (u.s, u.m, u.rad, u.rad, u.m / u.s, u.rad / u.s, u.rad / u.s)


def build(c):
    return CLS[c["sys"]](*[v * n for v, n in zip([c["t"]] + c["q"] + c["v"], units(c["sys"]))])


def comps(o):
    return [float(getattr(o, n).to_value(un)) for n, un in zip(NAMES[o.system], units(o.system))]


@st.composite
def cases(draw):
    e = draw(charts.events(axis=False))
    R = math.sqrt(sum(v * v for v in e["q"])) if e["sys"] == "Cartesian" else e["q"][0]
    sp = draw(st.one_of(logfloat(-2, 8), st.just(1.0)))
    comp = st.one_of(grid(-1, 1, 100), st.sampled_from([0.0, 0.0, 1.0, -1.0]))
    n = [draw(comp) for _ in range(3)]
    if e["sys"] == "Cartesian":
        e["v"] = [sp * x for x in n]
    else:
        e["v"] = [sp * n[0], sp * n[1] / R, sp * n[2] / R]
    e["units"] = charts.units(draw)
    e["other"] = charts.other_hole(draw, e)
    return e


def prep(c):
    al = c["a"] * K * c["M"]
    xyz = charts.embed(c["sys"], c["q"], al)
    vx = charts.jac(c["sys"], c["q"], al) @ np.array(c["v"])
    cnd = charts.cond(c["sys"], xyz, al)
    R = math.sqrt(float(xyz @ xyz))
    rho = math.hypot(xyz[0], xyz[1])
    tol = 1e-10 + 1e-14 * cnd ** 1.5 * math.hypot(R, al) / max(rho, 1e-300)
    if tol > 1e-5:
        raise Skip("ill conditioned (axis or disc r = 0)")
    return al, xyz, vx, R, rho, tol


def check(c, pre, system, v, what):
    al, xyz, vx, R, rho, tol = pre
    close(v[0], c["t"], rtol=1e-14, what=what + " t")
    close(charts.embed(system, v[1:4], al), xyz, rtol=0, atol=tol * (R + al), what=what + " position")
    J = charts.jac(system, v[1:4], al)
    V = math.sqrt(float(vx @ vx))
    close(J @ np.array(v[4:]), vx, rtol=0, atol=100 * tol * V, what=what + " velocity (Cartesian)")
    if system != "Cartesian":
        want = np.linalg.solve(J, vx)
        # scale of each component: |v| times the norm of that row of J^-1
        sc = V * np.linalg.norm(np.linalg.inv(J), axis=1)
        close(v[4:], want, rtol=0, atol=1e3 * tol * sc, what=what + " velocity")


def test_object(c):
    pre = prep(c)
    al, xyz, vx, R, rho, tol = pre
    o = build(c)
    M, a = charts.hole(c)
    direct = {}
    for tgt in charts.SYSTEMS:
        if tgt != c["sys"]:
            d = direct[tgt] = getattr(o, METH[tgt])(M=M, a=a)
            assert type(d) is CLS[tgt], type(d)
            check(c, pre, tgt, comps(d), "%s->%s" % (c["sys"], tgt))
    for mid, d in direct.items():
        w = "%s->%s->" % (c["sys"], mid)
        back = getattr(d, METH[c["sys"]])(M=M, a=a)
        check(c, pre, c["sys"], comps(back), w + c["sys"])
        third = [s for s in charts.SYSTEMS if s not in (mid, c["sys"])][0]
        check(c, pre, third, comps(getattr(d, METH[third])(M=M, a=a)), w + third)
    close(comps(o), [c["t"]] + c["q"] + c["v"], rtol=1e-15, what="source object changed")
    # the same object once more, near another hole
    c2 = dict(c, **c["other"])
    try:
        pre2 = prep(c2)
    except Skip:
        pre2 = None
    if pre2:
        for tgt in direct:
            check(c2, pre2, tgt, comps(getattr(o, METH[tgt])(M=c2["M"], a=c2["a"])), "%s->%s, another hole" % (c["sys"], tgt))
    return [c["sys"], "oct" + charts.octant(np.where(abs(xyz) < 1e-12 * R, 0, xyz))] + (["moving"] if any(c["v"]) else ["trivial"])


def test_tuple(c):
    pre = prep(c)
    al, xyz, vx, R, rho, tol = pre
    o = CONV[c["sys"]](c["t"], *(c["q"] + c["v"]))
    close(o.values(), [c["t"]] + c["q"] + c["v"], rtol=0, what="values()")
    bare = CONV[c["sys"]](c["t"], *c["q"])
    for tgt in charts.SYSTEMS:
        if tgt == c["sys"]:
            continue
        v = getattr(o, CMETH[tgt])(M=c["M"], a=c["a"])
        assert len(v) == 7
        check(c, pre, tgt, v, "%s->%s" % (c["sys"], tgt))
        b = getattr(bare, CMETH[tgt])(M=c["M"], a=c["a"])
        assert len(b) == 4
        close(v[:2], b[:2], rtol=1e-12, what="t,r with and without velocity")
        close(v[2:4], b[2:4], rtol=1e-12, atol=1e-12 * (R if tgt == "Cartesian" else 1),
              what="angles with and without velocity")
    fast = dict(Cartesian=[("Spherical", cu.cartesian_to_spherical_fast, ()), ("BoyerLindquist", cu.cartesian_to_bl_fast, (al,))],
                Spherical=[("Cartesian", cu.spherical_to_cartesian_fast, ())],
                BoyerLindquist=[("Cartesian", cu.bl_to_cartesian_fast, (al,))])
    for tgt, f, ex in fast[c["sys"]]:
        v = f(c["t"], *(c["q"] + list(ex) + c["v"] + [True]))
        check(c, pre, tgt, v, "fast %s->%s" % (c["sys"], tgt))
    if c["sys"] != "Spherical":
        c2 = dict(c, **c["other"])
        try:
            pre2 = prep(c2)
        except Skip:
            return [c["sys"]]
        for tgt in charts.SYSTEMS:
            if tgt != c["sys"]:
                check(c2, pre2, tgt, getattr(o, CMETH[tgt])(M=c2["M"], a=c2["a"]), "%s->%s, another hole" % (c["sys"], tgt))
    return [c["sys"]] + ([] if any(c["v"]) else ["trivial"])


def setup():
    for f, n in ((cu.cartesian_to_spherical_fast, 4), (cu.cartesian_to_bl_fast, 5), (cu.spherical_to_cartesian_fast, 4),
                 (cu.bl_to_cartesian_fast, 5)):
        f(*([1.0] * n))
        f(*([1.0] * (n + 3) + [True]))


nt = lambda c: c["a"] > 0 and sum(1 for v in c["v"] if v) >= 2
CHECK = Check("C02", [
    Sub("objects", cases(), test_object, 2400, 60000, nontrivial=nt,
        rule="event off the axis in a random chart/octant/plane with random velocity; non-trivial: spin > 0 and at least two non-zero velocity components"),
    Sub("tuples", cases(), test_tuple, 12000, 300000, nontrivial=nt,
        rule="same through the tuple classes and functions; non-trivial as above"),
], setup=setup, assumptions=["polar axis and disc r = 0 excluded (coordinate singularities); tolerance grows with the conditioning of the chart"])
