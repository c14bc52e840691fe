"""P02 shadow, hypersurface and fractal plots show the computed data."""
import contextlib
import io
import math
import types
import warnings
import numpy as np
import matplotlib.colors as mc
import matplotlib.pyplot as plt
from astropy import units as u
from scipy.spatial import cKDTree
from harness import Check, Sub, Skip, st, grid, logfloat, raises
from einsteinpy.rays import Shadow
from einsteinpy.hypersurface import SchwarzschildEmbedding
from einsteinpy.plotting import ShadowPlotter, HypersurfacePlotter, fractal
import plotly.graph_objects as go

warnings.simplefilter("ignore")


@contextlib.contextmanager
def shown():
    """counts the calls of pyplot.show"""
    calls, old = [], plt.show
    plt.show = lambda *a, **k: calls.append(plt.gcf())
    try:
        yield calls
    finally:
        plt.show = old
        plt.close("all")


def eq(a, b, what):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape and np.array_equal(a, b), "%s: not the data of the object" % what


def shadow(c):
    if c["real"]:
        s = Shadow(mass=c["M"] * u.kg, fov=c["M"] * c["fov"] * u.km, n_rays=c["n"] + 5)
        if c["smooth"]:
            s.smoothen(c["smooth"])
        return s
    b = np.array([0.0] + [w for w in c["b"]])
    b = np.cumsum(np.abs(b) + 0.125)
    i = np.array(c["i"][:len(b)], dtype=float)
    if c["long"]:
        b = np.cumsum(0.125 + np.resize(np.diff(b), c["long"]))
        i = np.resize(i, c["long"]) + 1e-3 * np.arange(c["long"])
    return types.SimpleNamespace(fb1=list(b), fb2=-b, intensity=i)


def test_shadow(c):
    s = shadow(c)
    b, i = np.array(s.fb1, dtype=float), np.array(s.intensity, dtype=float)
    if not np.isfinite(i).all():
        raise Skip("intensity not finite")
    with shown() as calls:
        line = c["line"]
        p = ShadowPlotter(shadow=s) if line is None else ShadowPlotter(s, is_line_plot=line)
        p.plot()
        if line is None or line:
            ax = plt.gca()
            assert len(ax.lines) == 2, "%d lines" % len(ax.lines)
            for l, x, what in zip(sorted(ax.lines, key=lambda l: -np.sum(l.get_xdata())), (b, -b), ("right half", "left half")):
                eq(l.get_xdata(), x, what)
                eq(l.get_ydata(), i, what)
                assert mc.to_hex(l.get_color()) == "#ff0000", "colour"
            assert "(b)" in ax.get_xlabel() and "Intensity" in ax.get_ylabel() and ax.get_title()
            p.show()
            assert len(calls) == 1, "show() shows nothing"
            return ["line"] + (["real shadow"] if c["real"] else [])
        p.show()
        assert len(calls) == 1, "show() shows nothing"
        ax = plt.gca()
        (m,) = ax.collections
        X = np.asarray(m.get_coordinates())
        A = np.asarray(m.get_array(), dtype=float).reshape(X.shape[:2])
        R = np.hypot(X[..., 0], X[..., 1])
        # along the rays of the image: radius = impact parameter, value = its intensity
        assert R.shape[1] == len(b) and R.shape[0] >= 2
        assert np.allclose(R, b[None, :], rtol=1e-9), "radii of the image are not the impact parameters"
        assert np.array_equal(A, np.broadcast_to(i, A.shape)), "values of the image are not the intensities of their impact parameters"
        if len(b) > 8:
            ph = np.sort(np.arctan2(X[..., 1], X[..., 0])[:, 0])
            assert max(np.diff(ph).max(), ph[0] + 2 * math.pi - ph[-1]) < 1.0, "the image does not cover the circle"
            assert abs(X[0] - X[-1]).max() < 1e-9 * b.max(), "the image is not closed"
        assert ax.get_aspect() in ("equal", 1.0), "aspect %s" % ax.get_aspect()
    return ["image"] + (["real shadow"] if c["real"] else [])


def rows(X, Y, Z):
    return {tuple(r) for r in np.round(np.stack([np.ravel(X), np.ravel(Y), np.ravel(Z)], axis=1), 9)}


def test_hypersurface(c):
    asked = []
    if c["real"]:
        e = SchwarzschildEmbedding(c["M"] * 1e24 * u.kg)
        alpha = 1 + c["alpha"] / 10
        X, Y, Z = [np.array(v, dtype=float) for v in e.get_values_surface(alpha)]
    else:
        n, m = c["shape"]
        rng = np.random.default_rng(c["rs"])
        Rr, P = np.meshgrid(np.sort(rng.uniform(1, 9, m)), np.linspace(0, 2 * np.pi, n))
        X, Y, Z = Rr * np.cos(P), Rr * np.sin(P), np.ravel(rng.uniform(-5, 5, (n, m)))
        alpha = c["alpha"]

        def get(a):
            asked.append(a)
            return X.copy(), Y.copy(), Z.copy()
        e = types.SimpleNamespace(get_values_surface=get)
    Z = Z.reshape(X.shape)
    with shown() as calls:
        k = {}
        if c["type"]:
            k["plot_type"] = c["type"]
        if c["real"] or c["alpha"] != 100:
            k["alpha"] = alpha
        p = HypersurfacePlotter(e, **k)
        p.plot()
        if not c["real"]:
            assert asked and set(asked) == {alpha}, "step factor %s asked for, %s given" % (asked, alpha)
        ax = plt.gca()
        assert ax.name == "3d"
        (col,) = ax.collections
        if hasattr(col, "_segments3d"):
            kind, V = "wireframe", np.concatenate([np.asarray(s, dtype=float) for s in col._segments3d])
        else:
            kind = "surface"
            V = np.asarray(col._faces, dtype=float).reshape(-1, 3) if hasattr(col, "_faces") else np.asarray(col._vec)[:3].T
        assert kind == (c["type"] or "wireframe"), "%s drawn" % kind
        # every vertex drawn is a point of the surface, and the whole surface is drawn
        # (wireframes thin out long meridians, as matplotlib does)
        D = np.stack([X, Y, Z], axis=-1).reshape(-1, 3)
        tol = 1e-9 * (1 + np.abs(D).max())
        far = cKDTree(D).query(V)[0] > tol
        assert not far.any(), "%d of %d vertices drawn are no points of the surface" % (far.sum(), len(V))
        W = np.unique(np.round(V, 9), axis=0)
        if kind == "surface" or max(X.shape) <= 50:
            far = cKDTree(V).query(D)[0] > tol
            assert not far.any(), "%d of %d points of the surface are missing" % (far.sum(), len(D))
        else:
            assert len(W) >= 0.5 * min(50, X.shape[0]) * min(50, X.shape[1]), "only %d vertices drawn" % len(W)
            assert np.isclose(V.max(axis=0), [X.max(), Y.max(), Z.max()], rtol=0.05, atol=1e-9).all(), "part of the surface is missing"
        p.show()
        assert len(calls) == 1, "show() shows nothing"
    return [kind, "real embedding" if c["real"] else "generated surface"]


def escape(angle, n=400, lim=1.6, zmax=20, imax=64):
    x = np.arange(n) / n * 2 * lim - lim
    z = x[:, None] + 1j * x[None, :]
    c = 0.8 * np.exp(1j * angle)
    it = np.zeros(z.shape, dtype=int)
    live = np.ones(z.shape, dtype=bool)
    for _ in range(imax):
        live &= abs(z) < zmax
        if not live.any():
            break
        z[live] = z[live] ** 2 + c
        it[live] += 1
    return (it / imax) ** 0.2


def test_fractal(c):
    shows, old = [], go.Figure.show
    go.Figure.show = lambda self, *a, **k: shows.append(self)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            k = {} if c["show"] is None else dict(show=c["show"])
            given = dict(start_angle=c["start"], end_angle=c["end"], divs=c["divs"])
            if c["default"]:
                # documented defaults: twelve images from pi/3 to pi
                k = dict({n: v for n, v in given.items() if n != c["default"] and c["default"] != "all"}, **k)
                for n, key, v in (("start_angle", "start", math.pi / 3), ("end_angle", "end", math.pi), ("divs", "divs", 12)):
                    if n not in k:
                        c = dict(c, **{key: v})
                fig = fractal(**k)
            else:
                fig = fractal(c["start"], c["end"], c["divs"], **k)
    finally:
        go.Figure.show = old
    assert (len(shows) == 1 and shows[0] is fig) if c["show"] in (None, True) else not shows, "shown %d times" % len(shows)
    n = c["divs"]
    assert len(fig.data) == n, "%d images" % len(fig.data)
    for t, a in zip(fig.data, np.linspace(c["start"], c["end"], n)):
        assert t.type == "heatmap"
        z = np.array(t.z, dtype=float)
        w = escape(a)
        assert z.shape == w.shape, "image of shape %s" % (z.shape,)
        bad = np.mean(abs(z - w) > 1e-9)
        assert bad < 0.01, "%.1f %% of the pixels at angle %g differ from the escape time" % (100 * bad, a)
    assert fig.data[-1].visible in (True, None), "last image hidden"
    (sl,) = fig.layout.sliders
    assert sl.active == n - 1, "slider at %s" % sl.active
    assert len(sl.steps) == n
    for i, s in enumerate(sl.steps):
        assert s.method in ("restyle", "update")
        v = s.args[1] if s.args[0] == "visible" else s.args[0]["visible"]
        assert list(v) == [j == i for j in range(n)], "step %d shows %s" % (i, v)
    assert "%.2f" % c["start"] in sl.currentvalue.prefix and "%.2f" % c["end"] in sl.currentvalue.prefix
    return ["%d images" % n]


CHECK = Check("P02", [
    Sub("shadow", st.fixed_dictionaries(dict(real=st.booleans(), long=st.sampled_from([None] * 8 + [300, 800, 1700, 4100]), M=logfloat(-2, 12), fov=grid(6, 60, 2), n=st.integers(4, 60), smooth=st.sampled_from([0, 0, 20, 80]),
                                             b=st.lists(grid(0, 5, 8), min_size=3, max_size=20), i=st.lists(grid(-5, 5, 8), min_size=21, max_size=21), line=st.sampled_from([None, True, False, False]))),
        test_shadow, quick=800, thorough=6000, rule="generated profiles and real shadows; non-trivial: all"),
    Sub("hypersurface", st.fixed_dictionaries(dict(real=st.booleans(), M=grid(0.01, 100, 100), alpha=st.sampled_from([100, 10, 7, 1, 2.5, 150, 400.5, 1000]), type=st.sampled_from([None, "wireframe", "surface"]),
                                                   shape=st.tuples(st.integers(3, 40), st.integers(2, 40)), rs=st.integers(0, 10 ** 6))),
        test_hypersurface, quick=400, thorough=3000, rule="generated surfaces and real embeddings; non-trivial: all"),
    Sub("fractal", st.fixed_dictionaries(dict(start=grid(-3, 3, 100), end=grid(-3, 6, 100), divs=st.integers(1, 4), default=st.sampled_from([None] * 8 + ["start_angle", "end_angle", "start_angle", "end_angle", "divs", "all"]), show=st.sampled_from([None, True, False]))),
        test_fractal, quick=40, thorough=300, rule="figures of 1 to 4 images; non-trivial: at least two images", nontrivial=lambda c: c["divs"] > 1, case_timeout=180),
], assumptions=["the artists of matplotlib are read, nothing is rendered", "rows of a fractal image are the real part, columns the imaginary part; 1 % of the pixels may differ (rounding in a chaotic map)"], quick_scale=2)
