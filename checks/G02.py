"""G02 dual numbers: straight-line programs against high-precision forward differentiation with error bounds."""
import math
import operator
import numpy as np
import mpmath as mp
from harness import Check, Sub, Skip, st, grid, close, raises
from einsteinpy.utils.dual import DualNumber

mp.mp.dps = 60
U = mp.mpf(2) ** -53
FUN = ("sin", "cos", "tan", "log", "exp")
BIN = ("+", "-", "*", "/")
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
NUM = {"int": int, "float": float, "np": np.float64, "npint": np.int64}


class N:
    """value, derivative and bounds of what rounding can do to them in a double evaluation"""
    __slots__ = ("v", "d", "ev", "ed")

    def __init__(self, v, d, ev=0, ed=0):
        self.v, self.d, self.ev, self.ed = mp.mpf(v), mp.mpf(d), mp.mpf(ev), mp.mpf(ed)
        m = max(abs(self.v), abs(self.d))
        if m > 1e60:
            raise Skip("overflow")
        if self.ev > 1e-4 * max(abs(self.v), 1) or self.ed > 1e-2 * max(abs(self.d), 1):
            raise Skip("ill-conditioned")


def binary(op, a, b):
    A, B = abs(a.v), abs(b.v)
    if op in "+-":
        s = 1 if op == "+" else -1
        v, d = a.v + s * b.v, a.d + s * b.d
        return N(v, d, a.ev + b.ev + U * (A + B), a.ed + b.ed + U * (abs(a.d) + abs(b.d)))
    if op == "*":
        return N(a.v * b.v, a.d * b.v + a.v * b.d, A * b.ev + B * a.ev + a.ev * b.ev + U * A * B,
                 abs(a.d) * b.ev + B * a.ed + A * b.ed + abs(b.d) * a.ev + 4 * U * (abs(a.d * b.v) + abs(a.v * b.d)) + a.ed * b.ev + a.ev * b.ed)
    if B < 1e-12 or b.ev > 1e-6 * B:
        raise Skip("division by a rounding-level number")
    q, d = a.v / b.v, (a.d * b.v - a.v * b.d) / b.v ** 2
    big = (abs(a.d) * B + A * abs(b.d)) / B ** 2
    return N(q, d, 1.01 * (a.ev / B + abs(q) * b.ev / B) + 2 * U * abs(q),
             1.01 * (a.ed / B + abs(b.d) * a.ev / B ** 2 + A * b.ed / B ** 2 + 3 * big * b.ev / B) + 8 * U * big)


def power(a, n):
    if n == 0:
        return N(1, 0)
    A = abs(a.v)
    if A == 0 or a.ev > 1e-6 * A:
        if a.ev == 0 and n >= 1:
            return N(0, a.d if n == 1 else 0, 0, a.ed if n == 1 else 0)
        if not (n == int(n) and n >= 1):
            raise Skip("power of (rounding-level) zero")
    if a.v < 0 and n != int(n):
        raise Skip("root of a negative number")
    n_ = mp.mpf(n)
    v = mp.power(a.v, int(n) if n == int(n) else n_)
    p1 = abs(n_) * (A + a.ev) ** (n_ - 1) if n != 1 else mp.mpf(1)
    p2 = abs(n_ * (n_ - 1)) * (A + a.ev) ** (n_ - 2) if n not in (1, 2) else mp.mpf(0 if n == 1 else 2)
    if n < 2:
        p2 *= mp.mpf("1.1")
    d = n_ * mp.power(a.v, (int(n) if n == int(n) else n_) - 1) * a.d if n != 1 else a.d
    k = 4 + 2 * abs(n_)
    return N(v, d, 1.1 * p1 * a.ev + k * U * abs(v), 1.1 * p1 * a.ed + 1.1 * p2 * abs(a.d) * a.ev + k * U * abs(d))


def function(name, a):
    v = a.v
    if abs(v) > 300 or a.ev > 1e-6:
        raise Skip("argument out of range")
    if name == "log":
        if v < 1e-6 or a.ev > 1e-6 * v:
            raise Skip("log of non-positive")
        f, f1, f2 = mp.log(v), 1 / v, 1 / v ** 2
    elif name == "exp":
        if v > 100:
            raise Skip("overflow")
        f = mp.exp(v)
        f1 = f2 = f
    elif name == "sin":
        f, f1, f2 = mp.sin(v), mp.cos(v), 1
    elif name == "cos":
        f, f1, f2 = mp.cos(v), -mp.sin(v), 1
    else:
        c = mp.cos(v)
        if abs(c) < 1e-5:
            raise Skip("pole of tan")
        f, f1, f2 = mp.tan(v), 1 / c ** 2, 2 * abs(mp.tan(v)) / c ** 2 + 1 / c ** 2
    g = abs(f1) + a.ev * abs(f2) * 2
    t = 1 / abs(mp.cos(v)) ** 2 if name == "tan" else 1
    return N(f, f1 * a.d, g * a.ev + 4 * U * max(abs(f), U) + (8 * U * abs(f) if name == "tan" else 0),
             g * a.ed + 2 * abs(f2 * a.d) * a.ev + 16 * U * abs(f1 * a.d) + (16 * U * t * abs(a.d) if name == "tan" else 0))


def val(c):
    return NUM[c[0]](c[1])


def run(c):
    regs, ref, classes = [], [], set()
    for v, d in c["x"]:
        regs.append(DualNumber(v, d))
        ref.append(N(v, d))
    start = [(r.val, r.deriv) for r in regs]
    for s in c["prog"]:
        op = s[0]
        try:
            if op in BIN:
                i, j = s[1] % len(regs), s[2] % len(regs)
                w = binary(op, ref[i], ref[j])
                if ref[i].v == 0 and ref[j].v == 0 and op == "/":
                    raise Skip("0/0")
                f = lambda: OPS[op](regs[i], regs[j])
                classes.add("x%sx" % op if i == j else op)
            elif op in ("l+", "l-", "l*", "l/"):      # number on the left
                j = s[2] % len(regs)
                w = binary(op[1], N(s[1][1], 0), ref[j])
                f = lambda: OPS[op[1]](val(s[1]), regs[j])
                classes.add("num %s dual" % op[1])
            elif op in ("r+", "r-", "r*", "r/"):
                j = s[2] % len(regs)
                if op[1] == "/" and s[1][1] == 0:
                    continue
                w = binary(op[1], ref[j], N(s[1][1], 0))
                f = lambda: OPS[op[1]](regs[j], val(s[1]))
                classes.add("dual %s num" % op[1])
            elif op == "**":
                j = s[2] % len(regs)
                w = power(ref[j], s[1][1])
                f = lambda: regs[j] ** val(s[1])
                classes.add("**")
            elif op == "neg":
                j = s[1] % len(regs)
                w = N(-ref[j].v, -ref[j].d, ref[j].ev, ref[j].ed)
                f = lambda: -regs[j]
            else:
                j = s[1] % len(regs)
                w = function(op, ref[j])
                f = lambda: getattr(np, op)(regs[j])
                classes.add(op)
        except Skip:
            continue       # this instruction is not decidable: leave it out of the program
        g = f()
        assert isinstance(g, DualNumber), "%s returned %r" % (s, type(g))
        for got, want, e, what in ((g.val, w.v, w.ev, "value"), (g.deriv, w.d, w.ed, "derivative")):
            if not (math.isfinite(got) and abs(mp.mpf(float(got)) - want) <= 8 * e + mp.mpf(10) ** -290):
                raise AssertionError("%s of instruction %s: got %r, exact %s (bound %s)" % (what, s, got, mp.nstr(want, 17), mp.nstr(8 * e, 3)))
        regs.append(g)
        ref.append(w)
    assert [(r.val, r.deriv) for r in regs[:len(start)]] == start, "operands were modified"
    if len(regs) == len(start):
        raise Skip("empty program")
    n = len(regs) - len(start)
    return sorted(classes) + ["length %s" % (n if n < 3 else "3-5" if n < 6 else "6+")] + ([] if n >= 2 else ["trivial"])


number = st.one_of(st.tuples(st.just("int"), st.sampled_from([1, 2, 3, -1, -2, 0, 5])),
                   st.tuples(st.just("float"), grid(-4, 4, 100)), st.tuples(st.just("np"), grid(-4, 4, 100)),
                   st.tuples(st.just("npint"), st.sampled_from([1, 2, -3]))).map(list)
expo = st.one_of(st.tuples(st.just("int"), st.integers(-4, 5)), st.tuples(st.just("float"), st.sampled_from([0.5, -0.5, 1.5, 2.0, 3.0, -1.0, 0.0, 2.5, -2.0, 0.25, 1.0])),
                 st.tuples(st.just("np"), st.sampled_from([0.5, 2.0, -1.5, 0.0]))).map(list)
idx = st.integers(0, 12)
ins = st.one_of(
    st.tuples(st.sampled_from(BIN), idx, idx), st.tuples(st.sampled_from(["l+", "l-", "l*", "l/", "r+", "r-", "r*", "r/"]), number, idx),
    st.tuples(st.just("**"), expo, idx), st.tuples(st.sampled_from(FUN + ("neg",)), idx)).map(list)


@st.composite
def programs(draw):
    leaf = st.one_of(grid(-3, 3, 100), grid(0.1, 3, 100), st.sampled_from([0.0, 1.0, 2.0, -1.0, 0.5]))
    x = [[draw(leaf), draw(st.sampled_from([1.0, 0.0, 1.0, -2.5, 0.3]))] for _ in range(draw(st.integers(1, 3)))]
    return dict(x=x, prog=draw(st.lists(ins, min_size=1, max_size=10)))


# ------------------------------------------------------------------ 0/0, equality, arrays
def test_hopital(c):
    a, b, d = c["a"], c["b"], c["d"]
    q = DualNumber(0.0, a) / DualNumber(0.0, b)
    close(q.val, a / b, rtol=1e-15, what="0/0 ")
    x = DualNumber(0.0, 1.0)
    # (exp(d x) - 1) / (b x) -> d / b; sin(d x)/(b x)
    close(((np.exp(x * d) - 1) / (x * b)).val, d / b, rtol=1e-14, what="(e^dx - 1)/bx ")
    close((np.sin(d * x) / (b * x)).val, d / b, rtol=1e-14, what="sin/x ")
    z = DualNumber(0.0, a) / b
    assert z.val == 0 and z.deriv == a / b
    return []


def test_near(c):
    """numbers that differ only in the last digits are different, in either part"""
    u, k, part = c["u"], c["k"], c["part"]
    v = list(u)
    v[part] = v[part] + c["sign"] * 2.0 ** -k * max(abs(v[part]), 2.0 ** -30)
    same = u == v
    a, b = DualNumber(*u), DualNumber(*v)
    assert bool(a == b) == same, "== of %s and %s" % (a, b)
    assert bool(a != b) == (not same)
    assert bool(b == a) == same
    return ["trivial"] if same else ["value" if part == 0 else "derivative", "2^-%d" % (k // 10 * 10)]


def test_eq(c):
    u, v = DualNumber(*c["u"]), DualNumber(*c["v"])
    same = float(c["u"][0]) == float(c["v"][0]) and float(c["u"][1]) == float(c["v"][1])
    assert (u == v) is same or bool(u == v) == same, "==: %s %s" % (u, v)
    assert bool(u != v) == (not same)
    assert bool(u == DualNumber(*c["u"]))
    assert isinstance(u.val, float) and isinstance(u.deriv, float)
    w = u + v - v
    if all(float(k).is_integer() for k in c["u"] + c["v"]):
        assert w == u and (u * 2 == u + u) and (-u == 0 - u) and (u - u == DualNumber(0, 0))
    return ["equal" if same else "val differs" if c["u"][0] != c["v"][0] else "deriv differs"]


def test_arrays(c):
    """object arrays: metric matrices applied to vectors, as the integrator does"""
    A = np.array([[DualNumber(*e) if isinstance(e, list) else e for e in row] for row in c["A"]], dtype=object)
    v = np.array(c["v"])
    got = A @ v @ v
    wv = sum((e[0] if isinstance(e, list) else e) * v[i] * v[j] for i, row in enumerate(c["A"]) for j, e in enumerate(row))
    wd = sum((e[1] if isinstance(e, list) else 0.0) * v[i] * v[j] for i, row in enumerate(c["A"]) for j, e in enumerate(row))
    if not isinstance(got, DualNumber):
        assert not any(isinstance(e, list) for row in c["A"] for e in row)
        close(got, wv, rtol=1e-13, atol=1e-12)
        return ["trivial"]
    close(got.val, wv, rtol=1e-13, atol=1e-12, what="quadratic form ")
    close(got.deriv, wd, rtol=1e-13, atol=1e-12, what="quadratic form derivative ")
    s = np.sin(A.reshape(-1)[:1])[0] if isinstance(c["A"][0][0], list) else None
    if s is not None:
        close([s.val, s.deriv], [math.sin(c["A"][0][0][0]), math.cos(c["A"][0][0][0]) * c["A"][0][0][1]], rtol=1e-14, atol=1e-15)
    return ["object array"]


g3 = grid(-3, 3, 10)
entry = st.one_of(st.lists(g3, min_size=2, max_size=2), g3)
nz = g3.filter(lambda v: v != 0)
CHECK = Check("G02", [
    Sub("programs", programs(), run, 16000, 400000,
        rule="random straight-line programs (1-3 dual inputs, up to 10 instructions, shared operands, numbers of four types on either side); non-trivial: at least two instructions within their domain"),
    Sub("0/0", st.fixed_dictionaries(dict(a=g3, b=nz, d=nz)), test_hopital, 400, 4000, nontrivial=lambda c: c["a"] != 0, rule="0/0 limits; non-trivial: non-zero numerator slope"),
    Sub("equality", st.fixed_dictionaries(dict(u=st.lists(st.integers(-2, 2), min_size=2, max_size=2), v=st.lists(st.one_of(st.integers(-2, 2), g3), min_size=2, max_size=2))),
        test_eq, 1500, 20000, nontrivial=lambda c: c["u"][0] == c["v"][0] or c["u"][1] == c["v"][1], rule="pairs agreeing in one or both parts; non-trivial: at least one part equal"),
    Sub("near", st.fixed_dictionaries(dict(u=st.lists(g3, min_size=2, max_size=2), k=st.integers(5, 52), part=st.integers(0, 1), sign=st.sampled_from([1, -1]))),
        test_near, 800, 10000, rule="pairs differing in one part by a relative 2^-5 to 2^-52; non-trivial: different as floats"),
    Sub("arrays", st.fixed_dictionaries(dict(A=st.lists(st.lists(entry, min_size=4, max_size=4), min_size=4, max_size=4), v=st.lists(g3, min_size=4, max_size=4))),
        test_arrays, 1500, 20000, nontrivial=lambda c: any(c["v"]), rule="quadratic forms of object matrices mixing numbers and dual numbers; non-trivial: non-zero vector"),
], assumptions=["values below 1e60, arguments of functions below 300, cases whose running error bound exceeds 1e-4 are left out"], quick_scale=2)
