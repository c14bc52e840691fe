"""P01 geodesic plots: trajectories, horizon, ergosphere, labels, errors."""
import builtins
import importlib.util
import math
import os
import types
import warnings
import numpy as np
import matplotlib
import matplotlib.animation
import matplotlib.colors as mc
import matplotlib.figure
import matplotlib.pyplot as plt
from harness import Check, Sub, Skip, st, grid, logfloat, raises
from einsteinpy.geodesic import Timelike, Nulllike
from einsteinpy.plotting import StaticGeodesicPlotter, InteractiveGeodesicPlotter, GeodesicPlotter

warnings.simplefilter("ignore")
HOR, ERG = "BH Event Horizon (Outer)", "BH Ergosphere (Outer)"


def geodesic(c):
    if c["real"]:
        cls = Timelike if c["kind"] == "Time-like" else Nulllike
        name = c["metric"]
        prm = {"Schwarzschild": (), "Kerr": (c["a"],), "KerrNewman": (c["a"], c["Q"])}[name]
        return cls(metric=name, metric_params=prm, position=[c["x"][0] % 8 + 12, math.pi / 2 - 0.1, c["x"][1]], momentum=[0.1, 0.5, 3.5],
                   steps=len(c["traj"]), delta=0.5, return_cartesian=c["cart"], suppress_warnings=True), prm
    prm = {"Schwarzschild": (0.0,), "Kerr": (c["a"],), "KerrNewman": (c["a"], c["Q"])}[c["metric"]]
    traj = np.array(c["traj"], dtype=float)
    if c.get("long"):
        # a long orbit that repeats the generated points, each time a little further on
        n = c["long"]
        traj = np.resize(traj, (n, 4)) + 1e-3 * np.arange(n)[:, None]
    lam = np.cumsum(np.abs(traj[:, 0]) + 0.25)
    return types.SimpleNamespace(metric_name=c["metric"], metric_params=prm, kind=c["kind"], coords="Cartesian" if c["cart"] else "Spherical Polar",
                                 trajectory=(lam, np.hstack([traj, traj[:, ::-1]]))), prm


def spin_charge(c):
    return (0.0 if c["metric"] == "Schwarzschild" else c["a"]), (c["Q"] if c["metric"] == "KerrNewman" else 0.0)


def horizon(a, Q):
    return 1 + math.sqrt(1 - a * a - Q * Q)


def ergo(a, Q, cosine):
    return 1 + np.sqrt(1 - (a * cosine) ** 2 - Q * Q)


def on_surface(P, a, Q, which):
    P = np.asarray(P, dtype=float).reshape(-1, 3)
    R = np.linalg.norm(P, axis=1)
    w = horizon(a, Q) if which == HOR else ergo(a, Q, P[:, 2] / R)
    assert np.allclose(R, w, rtol=1e-9), "%s: radius off by up to %g (a = %g, Q = %g)" % (which, abs(R - w).max(), a, Q)
    D = P / R[:, None]
    G = np.array([[math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)] for t in np.linspace(0, math.pi, 7) for p in np.linspace(0, 6.28, 9)])
    assert (D @ G.T).max(axis=0).min() > math.cos(0.25), "%s does not surround the black hole" % which


def on_curve(X, Y, a, Q, which, pair):
    X, Y = np.asarray(X, dtype=float), np.asarray(Y, dtype=float)
    R = np.hypot(X, Y)
    if which == HOR:
        w = horizon(a, Q)
    elif pair[0] == pair[1]:
        return
    else:
        w = ergo(a, Q, Y / R if pair[1] == 3 else X / R if pair[0] == 3 else 0 * R)
    assert np.allclose(R, w, rtol=1e-9), "%s in the plane of X%d, X%d: radius off by up to %g (a = %g, Q = %g)" % (which, *pair, abs(R - w).max(), a, Q)
    ph = np.sort(np.arctan2(Y, X))
    assert max(np.diff(ph).max(), ph[0] + 2 * math.pi - ph[-1]) < 0.5, "%s does not surround the black hole" % which


def vertices(coll):
    if hasattr(coll, "_faces"):
        return np.asarray(coll._faces, dtype=float).reshape(-1, 3)
    return np.asarray(coll._vec, dtype=float)[:3].T


def hexc(x):
    return mc.to_hex(x).lower()


def shaded(coll, color, what):
    """the surface has the colour given, times a shade"""
    f = np.asarray(coll._facecolor3d if hasattr(coll, "_facecolor3d") else coll.get_facecolor())[:, :3]
    base = np.array(mc.to_rgb(color))
    m = base.max()
    if m == 0:
        assert np.allclose(f, 0, atol=1e-6), "%s is not %s" % (what, color)
    else:
        s = f[:, base.argmax()] / m
        assert np.allclose(f, s[:, None] * base, atol=1e-3) and s.max() > 0.2, "%s is not %s" % (what, color)


def xyz(g):
    t = np.asarray(g.trajectory[1])
    return [t[:, k] for k in (1, 2, 3)]


def eq(got, want, what):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    assert got.shape == want.shape and np.array_equal(got, want), "%s is not the trajectory" % what


def kwargs(c, *names):
    return {k: c[k] for k in names if c[k] is not None}


# ------------------------------------------------------------------- static
def make_static(c):
    k = {}
    if c["bh_colors"]:
        k["bh_colors"] = tuple(c["bh_colors"])
    if c["ergosphere"] is not None:
        k["draw_ergosphere"] = c["ergosphere"]
    return StaticGeodesicPlotter(**k)


def static_hole_3d(ax, c, a, Q):
    by = {}
    for s in ax.collections:
        by.setdefault(s.get_label(), []).append(s)
    want = {HOR} | ({ERG} if c["ergosphere"] is not False else set())
    assert set(by) == want and all(len(v) == 1 for v in by.values()), "surfaces drawn: %s" % sorted(by)
    for n in want:
        on_surface(vertices(by[n][0]), a, Q, n)
        shaded(by[n][0], (c["bh_colors"] or ("#000", "#FFC"))[n == ERG], n)


def static_op(p, c, g):
    """one call on a plotter -> description of what was drawn"""
    a, Q = spin_charge(c)
    op = c["op"]
    if op == "plot":
        if c["bad"]:
            raises(ValueError, p.plot, g, aspect=c["badaspect"])
            return
        p.plot(g, **kwargs(c, "color", "title", "aspect", "figsize"))
        ax = p.ax
        assert ax.name == "3d" and len(ax.lines) == 1
        static_hole_3d(ax, c, a, Q)
        for d, w, n in zip(ax.lines[0].get_data_3d(), xyz(g), "XYZ"):
            eq(d, w, n)
        assert ax.get_aspect() == (c["aspect"] or "auto"), "aspect %s" % ax.get_aspect()
        for n, l in zip("XYZ", (ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel())):
            assert n in l and "GM/c^2" in l, "label of the %s axis: %s" % (n, l)
    elif op == "plot2D":
        if c["bad"]:
            raises(IndexError, p.plot2D, g, coordinates=tuple(c["badpair"]))
            return
        pair = tuple(c["pair"]) if c["pair"] else (1, 2)
        p.plot2D(g, **dict(kwargs(c, "color", "title", "figsize"), **(dict(coordinates=pair) if c["pair"] else {})))
        ax = p.ax
        assert len(ax.lines) == 1
        X, Y = ax.lines[0].get_data()
        eq(X, xyz(g)[pair[0] - 1], "horizontal axis, X%d," % pair[0])
        eq(Y, xyz(g)[pair[1] - 1], "vertical axis, X%d," % pair[1])
        by = {q.get_label(): q for q in ax.patches}
        assert set(by) == {HOR} | ({ERG} if c["ergosphere"] is not False else set()) and len(ax.patches) == len(by), "curves drawn: %s" % sorted(by)
        for n, q in by.items():
            v = q.get_xy()
            on_curve(v[:, 0], v[:, 1], a, Q, n, pair)
            assert hexc(q.get_facecolor()) == hexc((c["bh_colors"] or ("#000", "#FFC"))[n == ERG]), "colour of %s" % n
        assert "X%d" % pair[0] in ax.get_xlabel() and "X%d" % pair[1] in ax.get_ylabel(), "labels %s, %s" % (ax.get_xlabel(), ax.get_ylabel())
    elif op == "parametric":
        p.parametric_plot(g, **dict(kwargs(c, "title", "figsize"), **(dict(colors=tuple(c["colors"])) if c["colors"] else {})))
        ax = p.ax
        assert len(ax.lines) == 3
        by = {l.get_label(): l for l in ax.lines}
        for k in range(3):
            l = by["X%d (%s)" % (k + 1, g.coords)]
            eq(l.get_xdata(), g.trajectory[0], "affine parameter of X%d" % (k + 1))
            eq(l.get_ydata(), xyz(g)[k], "X%d" % (k + 1))
            w = (c["colors"] or ("#00FFFF", "#FF00FF", "#FFFF00"))[k]
            assert hexc(l.get_color()) == hexc(w), "colour of X%d" % (k + 1)
    if op in ("plot", "plot2D"):
        l = ax.lines[0]
        assert l.get_label() == g.kind + " Geodesic", "label %s" % l.get_label()
        if c["color"]:
            assert hexc(l.get_color()) == hexc(c["color"]), "colour %s" % l.get_color()
        else:
            hexc(l.get_color())
    assert ax.get_title() == (c["title"] or ""), "title %r, given %r" % (ax.get_title(), c["title"])
    if c["figsize"]:
        assert np.allclose(p.fig.get_size_inches(), c["figsize"]), "figure size %s" % p.fig.get_size_inches()
    assert ax.figure is p.fig


def test_static(c):
    """several calls on two plotters, then showing, saving and clearing them"""
    labels = []
    try:
        ps = [make_static(c), make_static(c)]
        drawn = {}
        for k, o in enumerate(c["ops"]):
            o = dict(c, **o)
            g, _ = geodesic(o)
            static_op(ps[k % 2], o, g)
            labels.append(o["op"] + (" (invalid)" if o["bad"] and o["op"] != "parametric" else ""))
            if o["bad"] and o["op"] != "parametric":
                drawn.pop(k % 2, None)          # a refused call may have begun a figure
            else:
                drawn[k % 2] = o["op"]
        saved = []
        old = matplotlib.figure.Figure.savefig
        matplotlib.figure.Figure.savefig = lambda self, fname, *a, **k: saved.append((self, fname))
        try:
            for i, op in drawn.items():
                p = ps[i]
                for name in (None, "x%d.pdf" % i, c["stem"] + c["ext"]):
                    saved.clear()
                    p.save(*([name] if name else []))
                    want = name or ("Geodesic.png" if op == "plot" else "Parametric.png")
                    assert len(saved) == 1 and saved[0][1] == want, "saved as %s, expected %s" % (saved and saved[0][1], want)
                    assert saved[0][0] is p.fig, "another figure than that of the plotter was saved"
        finally:
            matplotlib.figure.Figure.savefig = old
        for i, op in drawn.items():
            p = ps[i]
            p.show(azim=c["azim"], elev=c["elev"])
            if p.ax.name == "3d":
                assert p.ax.azim == c["azim"] and p.ax.elev == c["elev"], "view (%s, %s)" % (p.ax.azim, p.ax.elev)
            leg = p.ax.get_legend()
            names = {t.get_text() for t in leg.get_texts()} if leg else set()
            want = {l.get_label() for l in p.ax.lines}
            assert want <= names, "legend %s lacks %s" % (sorted(names), sorted(want - names))
        for i, op in drawn.items():
            other = ps[1 - i].fig if 1 - i in drawn else None
            n = len(other.axes) if other else 0
            ps[i].clear()
            assert ps[i].fig.axes == []
            if other and other is not ps[i].fig and i == min(drawn):
                assert len(other.axes) == n, "clearing one plotter changed the other"
    finally:
        plt.close("all")
    return sorted(set(labels)) + ["real geodesic" if c["ops"][0]["real"] else "generated trajectory"]


class Recorder(matplotlib.animation.AbstractMovieWriter):
    def __init__(self, ax):
        super().__init__()
        self.ax, self.frames = ax, []

    def setup(self, fig, outfile, dpi=None):
        self.fig, self.outfile, self.dpi = fig, outfile, dpi

    def grab_frame(self, **kw):
        self.frames.append([np.array(d, dtype=float) for d in self.ax.lines[0].get_data_3d()])

    def finish(self):
        pass


def test_animate(c):
    c = dict(c, **c["ops"][0])
    try:
        p = make_static(c)
        if c["long"]:
            c["long"] = 120
        g, _ = geodesic(c)
        a, Q = spin_charge(c)
        p.animate(g, **({} if c["interval"] is None else dict(interval=c["interval"])))
        assert p.ax.name == "3d"
        static_hole_3d(p.ax, c, a, Q)
        for d, (lo, hi), n in zip(xyz(g), (p.ax.get_xlim3d(), p.ax.get_ylim3d(), p.ax.get_zlim3d()), "XYZ"):
            assert lo <= d.min() and hi >= d.max(), "%s limits (%g, %g) do not show the trajectory (%g, %g)" % (n, lo, hi, d.min(), d.max())
            w = d.max() - d.min()
            if w > 1e-3 * max(1, abs(d).max()):
                assert hi - lo <= 3 * w, "%s limits (%g, %g) are much wider than the trajectory (%g, %g)" % (n, lo, hi, d.min(), d.max())
        r = Recorder(p.ax)
        oldd = matplotlib.figure.Figure.draw
        matplotlib.figure.Figure.draw = lambda self, renderer: None
        try:
            p.ani.save(os.devnull, writer=r)
        finally:
            matplotlib.figure.Figure.draw = oldd
        N = len(xyz(g)[0])
        assert len(r.frames) == N, "%d frames for %d points" % (len(r.frames), N)
        for k, f in enumerate(r.frames):
            n = len(f[0])
            for d, w, m in zip(f, xyz(g), "XYZ"):
                eq(d, w[:n], "%s in frame %d" % (m, k))
            assert k <= n <= k + 1, "frame %d shows %d points" % (k, n)
        assert len(r.frames[-1][0]) == N, "the last frame shows %d of %d points" % (len(r.frames[-1][0]), N)
    finally:
        plt.close("all")
    return [c["metric"]]


# -------------------------------------------------------------- interactive
def saved_plotly(f):
    """the figures handed to plotly.offline.plot and its keywords, nothing is written or shown"""
    import plotly.offline
    import einsteinpy.plotting.geodesic.interactive as mod
    real, calls = plotly.offline.plot, []

    def fake(fig, **k):
        calls.append((fig, k))
    names = [n for n, v in vars(mod).items() if v is real]
    plotly.offline.plot = fake
    for n in names:
        setattr(mod, n, fake)
    try:
        f()
    finally:
        plotly.offline.plot = real
        for n in names:
            setattr(mod, n, real)
    return calls


def test_interactive(c):
    k = {}
    if c["bh_colors"]:
        k["bh_colors"] = tuple(c["bh_colors"])
    if c["ergosphere"] is not None:
        k["draw_ergosphere"] = c["ergosphere"]
    p = InteractiveGeodesicPlotter(**k)
    labels = []
    ext = c["ext"]
    for name in ([c["stem"] + ext] if ext else []) + [None]:
        got = saved_plotly(lambda: p.save(*([name] if name else [])))
        want = (c["stem"], ext[1:]) if name else ("Geodesic", "png")
        assert [(f is p.fig, k.get("image_filename"), k.get("image")) for f, k in got] == [(True,) + want], "%s saved as %s" % (name, got)
    for o in c["ops"]:
        o = dict(c, **o)
        g, _ = geodesic(o)
        a, Q = spin_charge(o)
        op = o["op"]
        n0 = len(p.fig.data)
        cols = o["bh_colors"] or ("#000", "#FFC")
        names = [HOR] + ([ERG] if o["ergosphere"] is not False else [])
        if op == "plot":
            if o["bad"]:
                raises(ValueError, p.plot, g, aspect=o["badaspect"])
                labels.append("plot (invalid)")
                continue
            ar = dict(aspect_ratio=dict(x=1.5, y=0.5, z=2)) if o["iaspect"] == "manual" else {}
            p.plot(g, **dict(kwargs(o, "color", "title"), **ar, **(dict(aspect=o["iaspect"]) if o["iaspect"] else {})))
            new = p.fig.data[n0:]
            by = {t.name: t for t in new}
            assert set(by) == set(names) | {g.kind + " Geodesic"} and len(new) == len(by), "traces %s" % sorted(by)
            for n in names:
                t = by[n]
                on_surface(np.stack([np.ravel(t.x), np.ravel(t.y), np.ravel(t.z)], axis=1), a, Q, n)
                assert {hexc(s[1]) for s in t.colorscale} == {hexc(cols[n == ERG])}, "colour of %s" % n
            t = by[g.kind + " Geodesic"]
            assert t.type == "scatter3d"
            for d, w, n in zip((t.x, t.y, t.z), xyz(g), "XYZ"):
                eq(d, w, n)
            sc = p.fig.layout.scene
            assert sc.aspectmode == (o["iaspect"] or "auto"), "aspect %s" % sc.aspectmode
            if ar:
                assert (sc.aspectratio.x, sc.aspectratio.y, sc.aspectratio.z) == (1.5, 0.5, 2), "aspect ratio"
            for n, ax in zip("XYZ", (sc.xaxis, sc.yaxis, sc.zaxis)):
                assert n in ax.title.text, "label of the %s axis" % n
            assert p.fig.layout.title.text == ("Geodesic Plot" if o["title"] is None else o["title"])
        elif op == "plot2D":
            if o["bad"]:
                raises(IndexError, p.plot2D, g, coordinates=tuple(o["badpair"]))
                labels.append("plot2D (invalid)")
                continue
            pair = tuple(o["pair"]) if o["pair"] else (1, 2)
            p.plot2D(g, **dict(kwargs(o, "color", "title"), **(dict(coordinates=pair) if o["pair"] else {})))
            new = p.fig.data[n0:]
            by = {t.name: t for t in new}
            assert set(by) == set(names) | {g.kind + " Geodesic"} and len(new) == len(by), "traces %s" % sorted(by)
            for n in names:
                t = by[n]
                on_curve(t.x, t.y, a, Q, n, pair)
                assert t.fill == "toself" and hexc(t.fillcolor) == hexc(cols[n == ERG]), "filling of %s" % n
            t = by[g.kind + " Geodesic"]
            eq(t.x, xyz(g)[pair[0] - 1], "horizontal axis, X%d," % pair[0])
            eq(t.y, xyz(g)[pair[1] - 1], "vertical axis, X%d," % pair[1])
            assert "X%d" % pair[0] in p.fig.layout.xaxis.title.text and "X%d" % pair[1] in p.fig.layout.yaxis.title.text
            if o["title"]:
                assert p.fig.layout.title.text == o["title"], "title"
        else:
            p.parametric_plot(g, **dict(kwargs(o, "title"), **(dict(colors=tuple(o["colors"])) if o["colors"] else {})))
            new = p.fig.data[n0:]
            assert len(new) == 3
            by = {t.name: t for t in new}
            for i in range(3):
                t = by["X%d (%s)" % (i + 1, g.coords)]
                eq(t.x, g.trajectory[0], "affine parameter of X%d" % (i + 1))
                eq(t.y, xyz(g)[i], "X%d" % (i + 1))
                w = (o["colors"] or ("#00FFFF", "#FF00FF", "#FFFF00"))[i]
                assert hexc(t.line.color) == hexc(w), "colour of X%d" % (i + 1)
            assert p.fig.layout.title.text == ("Parametric Plot" if o["title"] is None else o["title"])
        if op in ("plot", "plot2D"):
            assert t.showlegend is not False
            if o["color"]:
                assert hexc(t.line.color) == hexc(o["color"]), "colour %s" % t.line.color
        labels.append(op)
        assert p.show() is p.fig
        if o["bad"]:
            p.clear()
            assert len(p.fig.data) == 0 and p.fig.layout.title.text is None
            labels.append("cleared")
    return sorted(set(labels))


def test_switch(c):
    """the plotter chosen for the platform"""
    import einsteinpy.plotting.geodesic.core as core
    assert issubclass(GeodesicPlotter, StaticGeodesicPlotter)
    had = hasattr(builtins, "get_ipython")
    if c["shell"]:
        sh = type(c["shell"], (), {})()
        builtins.get_ipython = lambda: sh
    try:
        spec = importlib.util.spec_from_file_location("core_copy", core.__file__)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        if c["shell"] and not had:
            del builtins.get_ipython
    want = InteractiveGeodesicPlotter if c["shell"] == "ZMQInteractiveShell" else StaticGeodesicPlotter
    assert issubclass(m.GeodesicPlotter, want), "%s on %s" % (m.GeodesicPlotter.__mro__, c["shell"])
    p = m.GeodesicPlotter(bh_colors=("#123", "#456"), draw_ergosphere=c["erg"])
    assert p.bh_colors == ("#123", "#456") and p.draw_ergosphere is c["erg"]
    return [str(c["shell"])]


HEX = st.one_of(st.integers(0, 0xFFFFFF).map(lambda n: "#%06x" % n), st.sampled_from(["#000000", "#FFFFFF", "#f00", "#0AB"]))
TITLE = st.one_of(st.none(), st.text(alphabet="abc XYZ012.-+", min_size=1, max_size=12), st.just(""))
PAIR = st.tuples(st.integers(1, 3), st.integers(1, 3))
BADI = st.sampled_from([0, 4, -1, 5, 7, 1.5, "1", None])
SPIN = st.one_of(grid(0, 0.95, 100), st.just(0.0), st.just(1.0), grid(-0.9, 0, 10))


@st.composite
def op(draw, real=False, kinds=("plot", "plot2D", "parametric")):
    metric = draw(st.sampled_from(["Schwarzschild", "Kerr", "KerrNewman"]))
    a = draw(SPIN)
    Q = draw(st.one_of(grid(0, 1, 100), st.just(0.0))) * math.sqrt(max(0.0, 1 - a * a)) * 0.999
    if real:
        a, Q = abs(a) * 0.9, 0.5 * Q
    badp = [draw(BADI), draw(st.one_of(BADI, st.integers(1, 3)))]
    if draw(st.booleans()):
        badp.reverse()
    n = draw(st.integers(1, 12)) if not real else draw(st.integers(4, 12))
    val = st.one_of(grid(-30, 30, 10), logfloat(-3, 4))
    return dict(metric=metric, a=a, Q=Q, op=draw(st.sampled_from(kinds)), real=real, kind=draw(st.sampled_from(["Time-like", "Null-like"])), cart=draw(st.booleans()),
                traj=draw(st.lists(st.tuples(val, val, val, val), min_size=n, max_size=n)), x=[draw(grid(1, 9, 4)), draw(grid(0, 6, 4))],
                long=draw(st.sampled_from([None] * 9 + [150, 700, 1500, 5200])), bad=draw(st.sampled_from([False, False, False, True])), badpair=badp, pair=draw(st.one_of(st.none(), PAIR)),
                badaspect=draw(st.sampled_from(["none", "", "Equal", "manualx", "datas", "zxy", None, 1])),
                color=draw(st.one_of(st.none(), HEX)), title=draw(TITLE), aspect=draw(st.sampled_from([None, "auto", "equal", "equalxy", "equalyz", "equalxz"])),
                iaspect=draw(st.sampled_from([None, "auto", "data", "manual", "cube"])), figsize=draw(st.one_of(st.none(), st.tuples(grid(2, 10, 4), grid(2, 10, 4)))),
                colors=draw(st.one_of(st.none(), st.tuples(HEX, HEX, HEX))))


@st.composite
def cases(draw, maxops=4, kinds=("plot", "plot2D", "parametric"), real=None):
    r = draw(st.sampled_from([False, False, False, True])) if real is None else real
    return dict(stem=draw(st.sampled_from(["orbit", "a.b", "orbit.v2", "x y", "dir.d/orbit", "./out", "../a.b/c.d", ".hidden", "png"])), ext=draw(st.sampled_from([".png", ".jpeg", ".svg", ".webp", ""])),
                bh_colors=draw(st.one_of(st.none(), st.tuples(HEX, HEX))), ergosphere=draw(st.sampled_from([None, True, False, True])),
                interval=draw(st.sampled_from([None, 7, 1, 2, 5, 30, 100, 1000])), azim=draw(grid(-180, 180, 1)), elev=draw(grid(-90, 90, 1)), ops=draw(st.lists(op(real=r, kinds=kinds), min_size=1, max_size=maxops)))


CHECK = Check("P01", [
    Sub("static", cases(maxops=4), test_static, quick=250, thorough=3000, rule="1 to 4 calls on two matplotlib plotters, then save, show, clear; non-trivial: at least two calls", nontrivial=lambda c: len(c["ops"]) > 1),
    Sub("animate", cases(maxops=1, kinds=("plot",)), test_animate, quick=80, thorough=800, rule="every frame of an animation; non-trivial: at least two points", nontrivial=lambda c: len(c["ops"][0]["traj"]) > 1),
    Sub("interactive", cases(maxops=4), test_interactive, quick=500, thorough=6000, rule="1 to 4 calls on one plotly plotter; non-trivial: at least two calls", nontrivial=lambda c: len(c["ops"]) > 1),
    Sub("switch", st.fixed_dictionaries(dict(shell=st.sampled_from([None, "ZMQInteractiveShell", "TerminalInteractiveShell", "Shell"]), erg=st.booleans())), test_switch, quick=16, thorough=40, shards=2, rule="platforms; non-trivial: all"),
], assumptions=["the vertices of 3D surfaces and the frames of animations are read from matplotlib's artists (Agg back end, nothing is rendered)",
                "in 2D plots X3 is the axis of rotation"], quick_scale=2)
