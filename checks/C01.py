"""C01 position conversions preserve the point."""
import math
import numpy as np
from astropy import units as u
from harness import Check, Sub, Skip, close, st
import charts
from einsteinpy.coordinates import Cartesian, Spherical, BoyerLindquist
from einsteinpy.coordinates import utils as cu
from einsteinpy.coordinates.conversion import CartesianConversion, SphericalConversion, BoyerLindquistConversion
from einsteinpy import constant

CLS = dict(Cartesian=Cartesian, Spherical=Spherical, BoyerLindquist=BoyerLindquist)
CONV = dict(Cartesian=CartesianConversion, Spherical=SphericalConversion, BoyerLindquist=BoyerLindquistConversion)
METH = dict(Cartesian="to_cartesian", Spherical="to_spherical", BoyerLindquist="to_bl")
CMETH = dict(Cartesian="convert_cartesian", Spherical="convert_spherical", BoyerLindquist="convert_bl")
K = constant.G.value / constant.c.value ** 2


def build(system, t, q):
    un = (u.m, u.m, u.m) if system == "Cartesian" else (u.m, u.rad, u.rad)
    return CLS[system](t * u.s, *[v * n for v, n in zip(q, un)])


def comps(o):
    names = ("t", "x", "y", "z") if o.system == "Cartesian" else ("t", "r", "theta", "phi")
    out = []
    for n, un in zip(names, (u.s,) + ((u.m,) * 3 if o.system == "Cartesian" else (u.m, u.rad, u.rad))):
        out.append(float(o[n].to_value(un)))
    return out


def to(o, target, c, quantity=False):
    """conversion of the object to `target` (identity if already there)"""
    if o.system == target:
        return o
    M, a = charts.hole(c) if quantity else (c["M"], c["a"])
    r = getattr(o, METH[target])(M=M, a=a)
    assert type(r).__name__ == target and r.system == target, "converted to %s" % r.system
    return r


def check_point(c, xyz, o, cnd, what):
    al = c["a"] * K * c["M"]
    v = comps(o)
    R = math.sqrt(float(np.dot(xyz, xyz)))
    tol = 1e-10 + 64 * 2.3e-16 * cnd
    close(v[0], c["t"], rtol=1e-14, what=what + " t")
    e = charts.embed(o.system, v[1:], al)
    close(e, xyz, rtol=0, atol=tol * (R + al), what=what + " embedding")
    if o.system != "Cartesian":
        r, th, ph = v[1:]
        assert r > 0 or R == 0, (what, "r", r)
        assert 0 <= th <= math.pi + 1e-15, (what, "theta", th)
        assert -math.pi - 1e-15 <= ph <= math.pi + 1e-15, (what, "phi", ph)
        # exact relations that do not amplify near the axis
        if math.hypot(xyz[0], xyz[1]) > 1e-12 * R:
            close(math.sin(th) * (math.hypot(r, al) if o.system == "BoyerLindquist" else r),
                  math.hypot(xyz[0], xyz[1]), rtol=tol * 10, atol=1e-13 * (R + al), what=what + " distance from axis")
    # position(): (ct, x1, x2, x3)
    p = o.position()
    close(p, [constant.c.value * c["t"]] + v[1:], rtol=1e-12, what=what + " position()")


def angle_close(a, b, tol, what):
    d = abs(math.remainder(a - b, 2 * math.pi))
    assert d <= tol, "%s: %r vs %r" % (what, a, b)


def test_object(c):
    al = c["a"] * K * c["M"]
    xyz = charts.embed(c["sys"], c["q"], al)
    cnd = charts.cond(c["sys"], xyz, al)
    if cnd > 1e9:
        raise Skip("ill conditioned (disc r = 0)")
    tol = 1e-10 + 64 * 2.3e-16 * cnd
    o = build(c["sys"], c["t"], c["q"])
    one, direct = {}, {}
    for tgt in charts.SYSTEMS:
        if tgt == c["sys"]:
            continue
        direct[tgt] = to(o, tgt, c, True)
        check_point(c, xyz, direct[tgt], cnd, "%s->%s" % (c["sys"], tgt))
    close(comps(o), [c["t"]] + list(c["q"]), rtol=1e-15, what="source object changed")
    R = math.sqrt(float(np.dot(xyz, xyz)))
    rho = math.hypot(xyz[0], xyz[1])
    ang = tol * 10 + 1e-12
    for mid in direct:
        back = to(direct[mid], c["sys"], c)
        vb = comps(back)
        w = "%s->%s->%s" % (c["sys"], mid, c["sys"])
        check_point(c, xyz, back, cnd, w)
        if c["sys"] != "Cartesian":
            close(vb[1], c["q"][0], rtol=tol * 10, what=w + " r")
            if rho > 1e-9 * R:
                angle_close(vb[3], c["q"][2], ang + 1e-15 * R / rho, w + " phi")
            # theta is well conditioned away from the poles through cos, near them through sin
            close(vb[2], c["q"][1], rtol=0, atol=max(ang, 1e-9) if rho > 1e-9 * R else 1e-6, what=w + " theta")
        third = [s for s in charts.SYSTEMS if s not in (c["sys"], mid)][0]
        via = to(direct[mid], third, c)
        va, vd = comps(via), comps(direct[third])
        w = "%s->%s->%s vs direct" % (c["sys"], mid, third)
        check_point(c, xyz, via, cnd, w)
        if third != "Cartesian":
            close(va[1], vd[1], rtol=tol * 10, what=w + " r")
    # the same object once more, near another hole
    c2 = dict(c, **c["other"])
    al2 = c2["a"] * K * c2["M"]
    xyz2 = charts.embed(c["sys"], c["q"], al2)
    cnd2 = charts.cond(c["sys"], xyz2, al2)
    if cnd2 < 1e9:
        for tgt in direct:
            check_point(c2, xyz2, to(o, tgt, c2), cnd2, "%s->%s, another hole" % (c["sys"], tgt))
    if c["a"] == 0 and c["sys"] == "Cartesian":
        close(comps(direct["BoyerLindquist"])[1:], comps(direct["Spherical"])[1:], rtol=1e-12, atol=1e-12,
              what="a = 0: BL and spherical")
    return [c["sys"], "oct" + charts.octant(np.where(abs(xyz) < 1e-12 * R, 0, xyz)),
            "near hole" if R < 10 * K * c["M"] else "far"]


def test_lowlevel(c):
    """tuple-level conversion classes and functions agree with the embedding as well"""
    al = c["a"] * K * c["M"]
    xyz = charts.embed(c["sys"], c["q"], al)
    cnd = charts.cond(c["sys"], xyz, al)
    if cnd > 1e9:
        raise Skip("ill conditioned (disc r = 0)")
    tol = 1e-10 + 64 * 2.3e-16 * cnd
    R = math.sqrt(float(np.dot(xyz, xyz)))
    o = CONV[c["sys"]](c["t"], *c["q"])
    close(o.values(), [c["t"]] + list(c["q"]), rtol=0, what="values()")
    for tgt in charts.SYSTEMS:
        if tgt == c["sys"]:
            continue
        v = getattr(o, CMETH[tgt])(M=c["M"], a=c["a"])
        assert len(v) == 4, (tgt, v)
        close(v[0], c["t"], rtol=1e-15, what="t")
        close(charts.embed(tgt, v[1:], al), xyz, rtol=0, atol=tol * (R + al), what="%s->%s embedding" % (c["sys"], tgt))
        if tgt != "Cartesian":
            assert v[1] > 0 and 0 <= v[2] <= math.pi + 1e-15 and abs(v[3]) <= math.pi + 1e-15, ("range", c["sys"], tgt, v)
    fast = dict(Cartesian=[("Spherical", lambda t, x, y, z: cu.cartesian_to_spherical_fast(t, x, y, z)),
                           ("BoyerLindquist", lambda t, x, y, z: cu.cartesian_to_bl_fast(t, x, y, z, al))],
                Spherical=[("Cartesian", lambda t, x, y, z: cu.spherical_to_cartesian_fast(t, x, y, z))],
                BoyerLindquist=[("Cartesian", lambda t, x, y, z: cu.bl_to_cartesian_fast(t, x, y, z, al))])
    for tgt, f in fast[c["sys"]]:
        v = f(c["t"], *c["q"])
        assert len(v) == 4
        close(v[0], c["t"], rtol=1e-15, what="t")
        close(charts.embed(tgt, v[1:], al), xyz, rtol=0, atol=tol * (R + al), what="fast %s->%s" % (c["sys"], tgt))
    return [c["sys"]]


def setup():
    for f, args in ((cu.cartesian_to_spherical_fast, (1., 1., 1., 1.)), (cu.cartesian_to_bl_fast, (1., 1., 1., 1., .5)),
                    (cu.spherical_to_cartesian_fast, (1., 1., 1., 1.)), (cu.bl_to_cartesian_fast, (1., 1., 1., 1., .5))):
        f(*args)


nt = lambda c: c["a"] > 0 and all(v != 0 for v in c["q"])
@st.composite
def ev(draw):
    e = draw(charts.events())
    return dict(e, units=charts.units(draw), other=charts.other_hole(draw, e))


CHECK = Check("C01", [
    Sub("objects", ev(), test_object, 10000, 200000,
        rule="event in a random chart/octant/axis/plane, r from 0.05 to 1e6 GM/c^2; non-trivial: spin > 0 and no zero coordinate", nontrivial=nt),
    Sub("tuples", charts.events(), test_lowlevel, 14000, 300000,
        rule="same events through the tuple classes and functions; non-trivial as above", nontrivial=nt),
], setup=setup, assumptions=["the disc r = 0 of Boyer-Lindquist coordinates is excluded (chart singularity)",
                             "azimuth is not compared on the polar axis"])
