"""G03 convergence of the trajectory to the solution of Hamilton's equations at the declared order."""
import math
import time
import numpy as np
from harness import Check, Sub, Skip, close, st, grid
import geo
from einsteinpy.geodesic import Geodesic


def end(c, order, T, n):
    o = Geodesic(metric=geo.code_metric(c), metric_params=geo.params(c), position=c["pos"], momentum=c["mom"],
                 time_like=c["tl"], return_cartesian=False, steps=n, delta=T / n, order=order, omega=c["omega"],
                 suppress_warnings=True)
    tr = np.asarray(o.trajectory[1], dtype=float)
    assert tr.shape == (n, 8), tr.shape
    return tr[-1], o


def make(order, levels, tries, window):
    def test(c):
        G, q, g, A, B, C, D = geo.usable(c)
        s = math.sqrt(D)
        pt = (-B + s) / A if B <= 0 else C / (-B - s)
        p = np.array([pt] + list(c["mom"]))
        T, best, log, worst_pair = c["T"], -math.inf, [], None
        scale = 1 + np.abs(q) + 0
        scale = np.concatenate([1 + np.abs(q), 1 + np.abs(p)])
        floor = 2e-12
        usable, rising = 0, False
        for k in range(tries):
            try:
                ref = geo.reference(G, q, p, T)
            except (FloatingPointError, OverflowError):
                raise Skip("reference failed")
            if not np.isfinite(ref).all() or (c["metric"] != "user" and not _regular(c, ref)):
                T /= 2
                continue
            errs = []
            for n in levels:
                y, o = end(c, order, T, n)
                e = float(np.max(np.abs(y - ref) / scale)) if np.isfinite(y).all() else math.inf
                errs.append(e)
                if e < floor:
                    break
            log.append((T, errs))
            if errs[0] > window:
                T /= 2
                continue
            if errs[0] < floor:
                if usable == 0 and T == c["T"]:
                    return ["exact", "trivial", c["metric"]]
                break
            for a, b in zip(errs, errs[1:]):
                if a < window and (b > floor or a > floor * 2 ** (order - 0.6)):
                    usable += 1
                    rate = math.log2(a / max(b, floor))
                    rising = rate > best
                    best = max(best, rate)
            if errs[-1] <= floor and usable == 0:
                # the error fell through the floor in one halving: at least as steep as asked
                if errs[-2] / floor > 2 ** (order - 0.6):
                    return ["steep", c["metric"]]
                break
            if best > order - 0.6:
                break
            T /= 2
        if usable == 0:
            raise Skip("no usable error pair")
        if order - 1.2 < best <= order - 0.6 and rising:
            raise Skip("not yet asymptotic where the rounding floor is reached")
        assert best > order - 0.6, "order %d: convergence rate %.2f (T, errors with n = %s steps: %s)" % (order, best, levels, log)
        return ["%s order %d" % (c["metric"], order)] + ["backwards"] * (c["T"] < 0) + (["params"] if c["metric"] == "user" and c["uprm"] else [])
    return test


def _regular(c, y):
    a, Q = geo.bh_args(c)
    r, th = y[1], y[2]
    return r > 1 and r * r - 2 * r + a * a + Q * Q > 0.1 * r * r and abs(math.sin(th)) > 0.15


def cases(dense, kinds=("user", "user", "bh")):
    @st.composite
    def f(draw):
        k = draw(st.sampled_from(kinds))
        c = draw(geo.user_cases(dense=dense)) if k == "user" else draw(geo.bh_cases())
        if k == "user":
            c["T"] = draw(st.sampled_from([0.5, 1.0]))
        else:
            c["T"] = float("%.3g" % (c["pos"][0] * draw(st.sampled_from([0.1, 0.2]))))
        c["omega"] = draw(st.sampled_from([1.0, 0.5, 0.01, 2.0]))
        c["T"] = float("%.4g" % min(c["T"], 2.0 / c["omega"]))
        if draw(st.integers(0, 4)) == 0:
            c["T"] = -c["T"]        # backwards
        return c
    return f()


def nontrivial(c):
    return any(c["mom"]) and (c["metric"] != "user" or sum(1 for b in c["prm"] if b[0] and any(b[1:5])) >= 2)


R = "generated metric, initial data, interval T, omega; error against DOP853 (rtol 3e-14) for halved steps; non-trivial: position-dependent metric, non-zero momentum"
CHECK = Check("G03", [
    Sub("order 2", cases(True), make(2, (1, 2, 4), 9, 0.03), 560, 10000, rule=R, nontrivial=nontrivial),
    Sub("order 4", cases(False), make(4, (1, 2, 4), 9, 0.03), 150, 3000, rule=R, nontrivial=nontrivial),
    Sub("order 6", cases(False), make(6, (1, 2), 10, 0.02), 64, 1500, rule=R, nontrivial=nontrivial),
    Sub("order 8", cases(False), make(8, (1, 2), 10, 0.02), 32, 700, rule=R, nontrivial=nontrivial),
], assumptions=["trajectories that stay outside the horizon and off the axis", "the reference is an independent DOP853 integration of Hamilton's equations with complex-step derivatives"],
    quick_budget=150)
