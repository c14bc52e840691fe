"""S09 Lorentz (and general linear) transformations of tensors."""
import itertools
import numpy as np
import sympy
from harness import Check, Sub, Skip, KnownFinding, st, raises
import tens
from tens import CLASSES, BaseRelativityTensor
from einsteinpy.symbolic import MetricTensor, TransformationMatrix
from einsteinpy.symbolic.tensor import tensor_product


def boost(n, axis, b):
    """boost along an axis; b = [p, q] gives the rational velocity 2pq/(p^2+q^2)"""
    p, q = b
    v = sympy.Rational(2 * p * q, p * p + q * q)
    gam = sympy.Rational(p * p + q * q, abs(p * p - q * q))
    M = sympy.eye(n)
    M[0, 0] = M[axis, axis] = gam
    M[0, axis] = M[axis, 0] = -gam * v
    return M


def rotation(n, i, j, b):
    p, q = b
    M = sympy.eye(n)
    d = p * p + q * q
    M[i, i] = M[j, j] = sympy.Rational(p * p - q * q, d)
    M[i, j], M[j, i] = -sympy.Rational(2 * p * q, d), sympy.Rational(2 * p * q, d)
    return M


def matrix(c, n):
    M = sympy.eye(n)
    for (kind, i, j, b, e) in c["mat"]:
        i, j = i % n, j % n
        if kind == "boost":
            K = boost(n, 1 + i % (n - 1), b)
        elif kind == "rotation" and n > 2:
            a1, a2 = sorted({1 + i % (n - 1), 1 + j % (n - 1)} | {1, 2})[:2]
            K = rotation(n, a1, a2, b)
        elif kind == "shear" and i != j:
            K = sympy.eye(n)
            K[i, j] = sympy.Rational(*e)
        elif kind == "symbol":
            K = sympy.eye(n)
            K[i, i] = 1 + tens.PAR[j % 3] ** 2
        elif kind == "symshear" and i != j:
            K = sympy.eye(n)
            K[i, j] = tens.PAR[0]
        elif kind == "flip":
            K = sympy.eye(n)
            K[i, i] = -1
        else:
            K = sympy.eye(n)
        M = K * M
    return M


def given_form(M, form, X):
    if form == "list":
        return M.tolist()
    if form == "array":
        return sympy.Array(M.tolist())
    if form == "matrix":
        return M
    return TransformationMatrix(M.tolist(), list(X), list(X))


def transformed(A, cfg, L, Li):
    for k, ch in enumerate(cfg):
        A = np.moveaxis(np.tensordot(L, A, axes=(1, k)), 0, k) if ch == "u" else np.moveaxis(np.tensordot(Li, A, axes=(0, k)), 0, k)
    return A


def test(c):
    n = c["n"]
    X = tens.syms(c)
    vals = tens.values(c, X)
    M = matrix(c, n)
    Li = tens.num(M.subs(vals).inv().tolist(), {})
    L = tens.num(M.tolist(), vals)
    cl, cfg = c["cls"], c["cfg"]
    m = MetricTensor(sympy.diag(-1, *[1 + k for k in range(n - 1)]).tolist(), X)
    if cl == "generic":
        rank, cls = c["rank"], BaseRelativityTensor
    elif cl == "metric":
        rank, cls, cfg = 2, MetricTensor, ("ll" if cfg[0] == "l" else "uu")
    else:
        cls, rank, _ = CLASSES[cl]
    cfg = cfg[:rank]
    A = tens.array(c["vals"], n, rank, X)
    kw = {} if c["name"] == "-" else dict(name=c["name"])
    if cl != "metric" and c["own"]:
        kw["parent_metric"] = m
    t = cls(tens.sarr(A), X, config=cfg, **kw)
    r = t.lorentz_transform(given_form(M, c["form"], X))
    A0 = tens.num(A, vals)
    want = transformed(A0, cfg, L, Li)
    assert type(r) is cls, "the transformed %s is a %s" % (cls.__name__, type(r).__name__)
    assert r.config == cfg and r.order == rank and tuple(r.symbols()) == X
    assert r.name == (None if t.name is None else t.name + "__lt"), "name %r" % r.name
    got = tens.num(tens.nparr(r), vals)
    tens.equal(got, want, "transformed %s (%s) " % (cl, cfg))
    assert t.config == cfg and (tens.num(tens.nparr(t), vals) == A0).all(), "the original changed"
    if not r.functions and rank:
        args, f = r.tensor_lambdify()
        v = np.array(f(*[float(vals[a]) for a in args]), dtype=object)
        for idx in np.ndindex(*want.shape):
            try:
                x = float(v[idx])
            except TypeError:
                raise AssertionError("numeric function of the transformed tensor returns %s (arguments %s)" % (v[idx], args))
            assert abs(x - float(want[idx])) <= 1e-8 * (1 + max(abs(float(q)) for q in want.ravel()))
    # back again
    if c["back"]:
        b = r.lorentz_transform(given_form(sympy.simplify(M.inv()), c["form"], X))
        tens.equal(tens.num(tens.nparr(b), vals), A0, "transformed there and back ")
    return [cl, "rank %d" % rank, "n=%d" % n, c["form"]] + (["mixed configuration"] if len(set(cfg)) == 2 else []) + (["trivial"] if rank == 0 or M == sympy.eye(n) else [])


def test_scalar(c):
    """contractions commute with transforming; a boost preserves the interval"""
    n = c["n"]
    X = tens.syms(c)
    vals = tens.values(c, X)
    M = matrix(c, n)
    T = given_form(M, c["form"], X)
    r1, r2 = c["r1"], c["r2"]
    c1, c2 = c["cfg"][:r1], c["cfg2"][:r2]
    A, B = tens.array(c["vals"], n, r1, X), tens.array(c["vals2"], n, r2, X, salt=3)
    t1, t2 = BaseRelativityTensor(tens.sarr(A), X, config=c1), BaseRelativityTensor(tens.sarr(B), X, config=c2)
    i, j = c["i"] % r1, c["j"] % r2
    if c1[i] == c2[j]:
        c2 = c2[:j] + ("l" if c1[i] == "u" else "u") + c2[j + 1:]
        t2 = BaseRelativityTensor(tens.sarr(B), X, config=c2)
    a = tensor_product(t1.lorentz_transform(T), t2.lorentz_transform(T), i, j)
    p = tensor_product(t1, t2, i, j)
    b = p.lorentz_transform(T)
    assert a.config == b.config
    tens.equal(tens.num(tens.nparr(a), vals), tens.num(tens.nparr(b), vals), "contraction of %s and %s over (%d,%d), transformed " % (c1, c2, i, j))
    if r1 + r2 == 2:
        tens.equal(tens.num(tens.nparr(a), vals), tens.num(tens.nparr(p), vals), "scalar ")
    return ["ranks %d,%d" % (r1, r2), "n=%d" % n] + (["trivial"] if M == sympy.eye(n) else [])


def test_minkowski(c):
    n = c["n"]
    X = tens.syms(c)
    M = sympy.eye(n)
    for (kind, i, j, b, e) in c["mat"]:
        M = (boost(n, 1 + i % (n - 1), b) if kind == "boost" or n == 2 else rotation(n, *sorted(((1 + i % (n - 1)), 1 + (i + 1) % (n - 1))), b)) * M
    eta = sympy.diag(*([-c["sg"]] + [c["sg"]] * (n - 1)))
    for cfg in ("ll", "uu"):
        r = MetricTensor(eta.tolist(), X, config=cfg).lorentz_transform(given_form(M, c["form"], X))
        tens.equal(np.array(r.tensor().tolist(), dtype=object), np.array(eta.tolist(), dtype=object), "Lorentz transformed Minkowski metric (%s) " % cfg)
    return ["n=%d" % n] + (["trivial"] if M == sympy.eye(n) else [])


def test_jacobian(c):
    """TransformationMatrix.from_new2old is the Jacobian of the change of coordinates, inv its inverse"""
    old, new = sympy.symbols("x y z")[:c["n"]], sympy.symbols("u v w")[:c["n"]]
    n = c["n"]
    if c["kind"] == "polar":
        e = [new[0] * sympy.cos(new[1]), new[0] * sympy.sin(new[1])] + list(new[2:])
    else:
        e = [sum(sympy.Rational(*c["lin"][(i * n + j) % len(c["lin"])]) * new[j] for j in range(n)) + (new[i] ** 2 * c["quad"]) for i in range(n)]
    J = sympy.Matrix(n, n, lambda i, j: sympy.diff(e[i], new[j]))         # d old / d new
    pt = dict(zip(new, [sympy.Rational(*v) for v in c["at"]]))
    if sympy.simplify(J.det()) == 0 or J.subs(pt).det() == 0:
        raise Skip("singular")
    zeros = any(J[i, j] == 0 for i in range(n) for j in range(n))
    want = J.inv()
    try:
        T = TransformationMatrix.from_new2old(list(old), list(new), e)
    except ZeroDivisionError:
        if zeros:
            raise KnownFinding("S09-reciprocal", "")
        raise
    assert list(T.old_coords) == list(old) and list(T.new_coords) == list(new) and list(T.new2old) == e
    nm = lambda A: np.array([[sympy.sympify(v).subs(pt) for v in r] for r in A], dtype=object)
    rec = nm([[1 / J[j, i] for j in range(n)] for i in range(n)])
    got = nm(T.tolist())
    fl = lambda A: [[complex(sympy.N(v)) if v.is_finite else None for v in r] for r in A]
    near = lambda A, B: all((a is None) == (b is None) and (a is None or abs(a - b) < 1e-9 * (1 + abs(b))) for p, q in zip(fl(A), fl(B)) for a, b in zip(p, q))
    known = False
    W = nm(want.tolist())
    if not (near(got, W) or near(got, W.T)):
        if not near(got, rec):
            raise AssertionError("from_new2old: %s, expected the Jacobian %s" % (got.tolist(), W.tolist()))
        known = True
    # inverse of an arbitrary matrix
    if c["kind"] != "polar":
        A = J.subs(pt)
        inv = nm(TransformationMatrix(A.tolist(), list(old), list(new)).inv().tolist())
        Wi = np.array(A.inv().tolist(), dtype=object)
        if not near(inv, Wi):
            if not near(inv, np.array([[1 / A[i, j] for j in range(n)] for i in range(n)], dtype=object)):
                raise AssertionError("inv: %s, expected %s" % (inv.tolist(), Wi.tolist()))
            known = True
    if known:
        raise KnownFinding("S09-reciprocal", "")
    return [c["kind"]]


def test_refused(c):
    X = sympy.symbols("x y")
    bad = sympy.MutableDenseNDimArray([sympy.Integer(v) for v in range(2 ** c["rank"])], (2,) * c["rank"]) if c["rank"] else [1, 2, 3][:c["n"]]
    raises(ValueError, TransformationMatrix, bad.tolist() if c["rank"] else bad, X, X)
    raises(NotImplementedError, TransformationMatrix.from_old2new, X, X, [X[0], X[1]])
    return ["rank %d" % c["rank"]]


pq = st.tuples(st.integers(2, 5), st.integers(-1, 1)).map(list)
mats = st.lists(st.tuples(st.sampled_from(["boost", "boost", "rotation", "shear", "symbol", "symshear", "flip"]), st.integers(0, 3), st.integers(0, 3), pq, st.tuples(st.integers(-3, 3), st.sampled_from([1, 2, 3])).map(list)).map(list), min_size=1, max_size=3)
rts = lambda draw: [draw(st.sampled_from([1, 2, 3, 5, -1, -2])), draw(st.sampled_from([1, 2, 3]))]
forms = st.sampled_from(["list", "array", "matrix", "tm"])
conf = st.text(alphabet="ul", min_size=4, max_size=4)


@st.composite
def cases(draw):
    cl = draw(st.sampled_from(["generic", "metric"] + list(CLASSES)))
    rank = draw(st.integers(0, 3)) if cl == "generic" else 2 if cl == "metric" else CLASSES[cl][1]
    n = draw(st.sampled_from([2, 3, 4] if rank < 3 else [2, 2, 3] if rank == 3 else [2]))
    return dict(cls=cl, rank=rank, n=n, names=draw(st.integers(0, 2)), cfg=draw(conf), vals=draw(st.lists(tens.poly if rank < 4 else tens.rational, min_size=3, max_size=7)), mat=draw(mats), form=draw(forms), name=draw(st.sampled_from(["-", "-", None, "T"])),
                own=draw(st.integers(0, 1)), back=draw(st.integers(0, 1)) if rank < 4 else 0, at=[rts(draw) for _ in range(n)], pv=[rts(draw) for _ in range(3)])


@st.composite
def pairs(draw):
    r1, r2 = draw(st.sampled_from([(1, 1), (1, 2), (2, 1), (2, 2)]))
    n = draw(st.sampled_from([2, 3, 4])) if r1 + r2 < 4 else 2
    return dict(r1=r1, r2=r2, n=n, names=draw(st.integers(0, 2)), cfg=draw(conf), cfg2=draw(conf), vals=draw(st.lists(tens.poly, min_size=3, max_size=7)), vals2=draw(st.lists(tens.rational, min_size=3, max_size=7)), i=draw(st.integers(0, 1)), j=draw(st.integers(0, 1)),
                mat=draw(mats), form=draw(forms), at=[rts(draw) for _ in range(n)], pv=[rts(draw) for _ in range(3)])


@st.composite
def mink(draw):
    n = draw(st.sampled_from([2, 3, 4]))
    return dict(n=n, names=0, sg=draw(st.sampled_from([1, -1])), mat=draw(mats), form=draw(forms))


@st.composite
def jac(draw):
    n = draw(st.sampled_from([2, 2, 3]))
    return dict(n=n, kind=draw(st.sampled_from(["polar", "linear", "linear"])), lin=[list(t) for t in draw(st.lists(st.tuples(st.integers(-3, 3), st.sampled_from([1, 2])), min_size=n * n, max_size=n * n))], quad=draw(st.sampled_from([0, 0, 1])), at=[rts(draw) for _ in range(n)])


POLAR = dict(n=2, kind="polar", lin=[[1, 1]] * 4, quad=0, at=[[1, 1], [1, 2]])
CHECK = Check("S09", [
    Sub("transform", cases(), test, 320, 16000, case_timeout=10, max_timeouts=6, shards=24, rule="every tensor class and generic ranks 0-3, any configuration, generated matrix (products of boosts, rotations, shears, reflections, symbolic entries) given as list, array, matrix or TransformationMatrix; exact comparison with explicit sums, there and back, numeric function; non-trivial: rank > 0 and matrix not the identity"),
    Sub("contractions", pairs(), test_scalar, 96, 5000, case_timeout=10, max_timeouts=6, shards=24, rule="contraction of two transformed tensors equals the transformed contraction; non-trivial: matrix not the identity"),
    Sub("minkowski", mink(), test_minkowski, 64, 2000, case_timeout=10, shards=16, rule="Lorentz matrices leave the Minkowski metric invariant, covariant and contravariant"),
    Sub("jacobian", jac(), test_jacobian, 64, 2000, case_timeout=10, shards=8, known=[("S09-reciprocal", POLAR)], rule="generated linear, quadratic and polar changes of coordinates against the inverse Jacobian (known finding: element-wise reciprocals)"),
    Sub("refused", st.fixed_dictionaries(dict(rank=st.sampled_from([0, 1, 3]), n=st.integers(1, 3))), test_refused, 12, 40, shards=2, rule="matrices of rank other than two are refused"),
], assumptions=["components are compared exactly at one generated rational point per case"], quick_budget=200, quick_scale=2)
