"""Engine of all checks: generated cases -> oracle -> shrink -> replay + evidence."""
import argparse
import hashlib
import importlib
import importlib.machinery
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


# --- import the code under test from source, never from cached byte code -----
class _SourceOnly(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def _hook(path):
    if not os.path.abspath(path).startswith(REPO_SRC):
        raise ImportError
    return importlib.machinery.FileFinder(path, (_SourceOnly, [".py"]))


sys.path_hooks.insert(0, _hook)
sys.path_importer_cache.clear()
sys.path.insert(0, REPO_SRC)
sys.path.append(HYP)

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401
from hypothesis.errors import FailedHealthCheck, Unsatisfiable  # noqa: E402


class Skip(Exception):
    """The case is inconclusive (not decidable at the stated tolerance, too slow...)."""


class KnownFinding(Exception):
    """The case shows exactly the recorded defect `fid` (see known_findings.json)."""

    def __init__(self, fid, msg=""):
        super().__init__(msg)
        self.fid = fid


class _Timeout(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, test, quick, thorough=None, rule="", nontrivial=None,
                 classes=None, shards=8, known=(), case_timeout=90, extra=(), max_timeouts=2):
        self.name, self.strategy, self.test = name, strategy, test
        self.quick, self.thorough = quick, thorough or quick * 20
        self.rule, self.nontrivial, self.classes = rule, nontrivial, classes
        self.shards, self.known, self.case_timeout = shards, list(known), case_timeout
        self.max_timeouts = max_timeouts
        self.extra = list(extra)      # fixed regression cases, run besides the generated ones


class Check:
    def __init__(self, prop, subs, assumptions=(), setup=None, quick_budget=200, thorough_budget=3000, quick_scale=1):
        self.prop, self.subs, self.assumptions, self.setup = prop, subs, list(assumptions), setup
        self.quick_scale = quick_scale
        self.budget = dict(quick=quick_budget, thorough=thorough_budget)


def listed_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    with open(p) as f:
        data = json.load(f)
    return {e["id"]: e for e in data["findings"] if e["property"] == prop and e["status"] == "known"}


# ------------------------------------------------------------------ one shard
def _key(case):
    return json.dumps(case, sort_keys=True, default=str)


def _call(sub, case):
    """-> (outcome, info): 'ok' | 'skip' | 'known' | 'fail' | 'timeout'"""
    def on_alarm(sig, frm):
        raise _Timeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    # repeated: an exception raised inside a destructor or a callback is swallowed by the interpreter
    signal.setitimer(signal.ITIMER_REAL, sub.case_timeout, 1.0)
    try:
        labels = sub.test(case)
        return "ok", labels
    except Skip as e:
        return "skip", str(e)
    except KnownFinding as e:
        return "known", e.fid
    except _Timeout:
        return "timeout", None
    except hypothesis.errors.UnsatisfiedAssumption:
        raise
    except Exception as e:  # any other exception is a disagreement
        tb = traceback.format_exc(limit=-6)
        return "fail", (type(e).__name__, str(e)[:2000], tb[-4000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class _Found(Exception):
    pass


def run_shard(sub, shard, n, seed, deadline, findings, stop, shrink_cap=25.0):
    import warnings
    warnings.simplefilter("ignore")
    stats = dict(evaluations=0, skipped=0, inconclusive=0, timeouts=0, known={}, classes={},
                 nontrivial=set(), samples=[], fail=None, harness_error=None, first_fail_t=None)
    failing, last = {}, [None]
    state = dict(first=None, timeouts=0, calls=0)

    def note(case, labels, sample=True):
        stats["evaluations"] += 1
        cl = list(sub.classes(case)) if sub.classes else []
        if labels:
            cl += list(labels)
        for c in cl:
            stats["classes"][c] = stats["classes"].get(c, 0) + 1
        nt = sub.nontrivial(case) if sub.nontrivial else True
        if "trivial" in cl:
            nt = False
        if nt:
            h = hashlib.blake2b(_key(case).encode(), digest_size=8).digest()
            if h not in stats["nontrivial"]:
                stats["nontrivial"].add(h)
                k = len(stats["nontrivial"])
                if sample and k in (1, 2, 5):
                    stats["samples"].append(case)

    def one(case):
        state["calls"] += 1
        if shard and state["calls"] == 1:
            return                  # hypothesis starts every run with the simplest case: run it in one shard only
        k = _key(case)
        if state["first"] is not None:
            if k in failing:
                last[0] = (case, failing[k])
                raise _Found(failing[k][0])
            if time.time() - state["first"] > shrink_cap:
                return
        elif time.time() > deadline or stop.is_set() or state["timeouts"] >= sub.max_timeouts:
            stats["skipped"] += 1
            return
        out, info = _call(sub, case)
        if out == "ok":
            if state["first"] is None:
                note(case, info)
        elif out == "skip":
            stats["inconclusive"] += 1
            stats["classes"]["inconclusive: " + str(info)] = stats["classes"].get("inconclusive: " + str(info), 0) + 1
        elif out == "timeout":
            stats["timeouts"] += 1
            state["timeouts"] += 1
        elif out == "known" and info in findings:
            stats["known"][info] = stats["known"].get(info, 0) + 1
            note(case, ["known finding " + info])
        else:
            if out == "known":
                info = ("UnlistedFinding", info, "")
            if state["first"] is None:
                state["first"] = time.time()
            failing[k] = info
            last[0] = (case, info)
            raise _Found(info[0])

    if n > 0:
        test = given(sub.strategy)(one)
        test = settings(max_examples=n + bool(shard), database=None, deadline=None, derandomize=False,
                        report_multiple_bugs=False, print_blob=False,
                        phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=[h for h in HealthCheck if h != HealthCheck.filter_too_much],
                        verbosity=hypothesis.Verbosity.quiet)(test)
        test = hypothesis.seed(seed)(test)
        try:
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                test()
        except _Found:
            pass
        except (Unsatisfiable, FailedHealthCheck) as e:
            if last[0] is None:
                stats["harness_error"] = "%s: %s" % (type(e).__name__, e)
        except BaseException as e:
            if last[0] is None:
                stats["harness_error"] = traceback.format_exc()
    if last[0] is not None:
        stats["fail"] = last[0]
        stop.set()
    return stats


# ------------------------------------------------------------------ driver
def derive(seed, *parts):
    h = hashlib.blake2b(repr((seed,) + parts).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


_G = {}


def _results(ex, futs, hard, agg):
    """futures as they complete; workers that hang beyond the hard limit (in C code, where the
    per-case timeout cannot interrupt them) are ended and their shards counted as not run"""
    from concurrent.futures import wait, FIRST_COMPLETED
    pending = set(futs)
    while pending:
        done, pending = wait(pending, timeout=max(0.5, min(5.0, hard - time.time())), return_when=FIRST_COMPLETED)
        for f in done:
            yield f
        if pending and not done and time.time() > hard:
            for p in list(ex._processes.values()):
                p.kill()
            for f in pending:
                si, shard, n, seed = futs[f]
                agg[si]["skipped"] += n
                agg[si]["timeouts"] += 1
            return


def _task(args):
    si, shard, n, seed = args
    chk, deadline, findings, stop = _G["chk"], _G["deadline"], _G["findings"], _G["stop"]
    t = time.time()
    try:
        r = run_shard(chk.subs[si], shard, n, seed, deadline, findings, stop)
    except BaseException:
        r = dict(harness_error=traceback.format_exc(), fail=None)
    r["wall"] = time.time() - t
    return si, shard, r


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    import warnings
    warnings.simplefilter("ignore")
    try:
        mod = importlib.import_module("checks." + a.prop)
        chk = mod.CHECK
        if a.sub:
            chk.subs = [s for s in chk.subs if s.name in a.sub]
        findings = listed_findings(a.prop)
    except Exception:
        # The code under test cannot even be imported/initialised as documented: if the
        # failure is raised inside the repository it is a violation of every property.
        tb = traceback.format_exc()
        frames = traceback.extract_tb(sys.exc_info()[2])
        if any(f.filename.startswith(REPO_SRC) for f in frames):
            path = write_replay(a.prop, "import", None, ("ImportFailure", tb[-600:], tb))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            print(tb)
            return 1
        print(tb)
        return 2

    if a.replay:
        return replay(chk, a.replay, findings)
    try:
        if chk.setup:
            chk.setup()
    except Exception:
        tb = traceback.format_exc()
        frames = traceback.extract_tb(sys.exc_info()[2])
        if any(f.filename.startswith(REPO_SRC) for f in frames):
            path = write_replay(a.prop, "setup", None, ("SetupFailure", tb[-600:], tb))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            print(tb)
            return 1
        print(tb)
        return 2

    import multiprocessing as mp
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    _G.update(chk=chk, deadline=t0 + chk.budget[tier], findings=findings, stop=stop)

    violations, known_seen, agg = [], {}, {}
    # fixed cases: known findings and regression cases
    fixed = 0
    for si, sub in enumerate(chk.subs):
        agg[si] = dict(evaluations=0, skipped=0, inconclusive=0, timeouts=0, known={}, classes={},
                       nontrivial=set(), samples=[], wall=0.0)
        for fid, case in list(sub.known) + [(None, c) for c in sub.extra]:
            fixed += 1
            out, info = _call(sub, case)
            if out == "known" and info in findings:
                known_seen[info] = known_seen.get(info, 0) + 1
            elif out in ("fail", "known"):
                if out == "known":
                    info = ("UnlistedFinding", str(info), "")
                violations.append((si, case, info))
    tasks = []
    for shard in range(64):
        for si, sub in enumerate(chk.subs):
            if shard >= sub.shards:
                continue
            total = int((sub.quick * chk.quick_scale if tier == "quick" else max(sub.thorough, 5 * sub.quick * chk.quick_scale)) * a.scale)
            n = total // sub.shards + (1 if shard < total % sub.shards else 0)
            if n:
                tasks.append((si, shard, n, derive(seed, chk.prop, sub.name, shard)))
    harness_errors = []
    if not violations:
        if a.jobs > 1:
            from concurrent.futures import ProcessPoolExecutor
            ex = ProcessPoolExecutor(max_workers=a.jobs, mp_context=ctx)
            futs = {ex.submit(_task, t): t for t in tasks}
            it = _results(ex, futs, _G["deadline"] + 75 + max(s.case_timeout for s in chk.subs), agg)
        else:
            ex, it = None, ((_task(t)) for t in tasks)
        for f in it:
            try:
                si, shard, r = f if ex is None else f.result()
            except Exception:
                harness_errors.append(traceback.format_exc())
                continue
            if r.get("harness_error"):
                harness_errors.append("%s: %s" % (chk.subs[si].name, r["harness_error"]))
            if r["fail"] is not None:
                violations.append((si, r["fail"][0], r["fail"][1]))
            if "evaluations" not in r:
                continue
            g = agg[si]
            for k in ("evaluations", "skipped", "inconclusive", "timeouts"):
                g[k] += r[k]
            g["wall"] += r["wall"]
            for d in ("known", "classes"):
                for k, v in r[d].items():
                    g[d][k] = g[d].get(k, 0) + v
            g["nontrivial"] |= r["nontrivial"]
            if len(g["samples"]) < 3:
                g["samples"] += r["samples"][:3 - len(g["samples"])]
        if ex is not None:
            ex.shutdown(wait=True)
    for g in agg.values():
        for k, v in g["known"].items():
            known_seen[k] = known_seen.get(k, 0) + v

    # ---------------------------------------------------------------- report
    lines = []
    for fid in sorted(known_seen):
        lines.append("KNOWN-FINDING: property=%s %s" % (chk.prop, findings[fid]["what"]))
    best = {}
    for si, case, info in violations:
        k = len(_key(case))
        if si not in best or k < best[si][0]:
            best[si] = (k, case, info)
    for si in sorted(best):
        _, case, info = best[si]
        path = write_replay(chk.prop, chk.subs[si].name, case, info)
        lines.append("VIOLATION property=%s replay=%s" % (chk.prop, path))
        lines.append("  %s: %s: %s" % (chk.subs[si].name, info[0], info[1][:500]))
        lines.append("  case: %s" % _key(case)[:800])
    wall = time.time() - t0
    subs_ev = {}
    for si, sub in enumerate(chk.subs):
        g = agg[si]
        subs_ev[sub.name] = dict(evaluations=g["evaluations"], distinct_nontrivial=len(g["nontrivial"]),
                                 rule=sub.rule, classes=dict(sorted(g["classes"].items())),
                                 inconclusive=g["inconclusive"], not_run_budget=g["skipped"],
                                 case_timeouts=g["timeouts"], known_finding_hits=g["known"],
                                 cpu_s=round(g["wall"], 1))
    samples = [dict(sub=chk.subs[si].name, case=c) for si in agg for c in agg[si]["samples"]]
    ev = dict(property=chk.prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=sum(g["evaluations"] for g in agg.values()),
                            distinct_nontrivial=sum(len(g["nontrivial"]) for g in agg.values()),
                            rule="; ".join("%s: %s" % (s.name, s.rule) for s in chk.subs),
                            samples=samples[:40], fixed_cases=fixed, sub_properties=subs_ev),
              assumptions=chk.assumptions, wall_s=round(wall, 2), violations=len(best))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.sub:
        with open(os.path.join(HERE, "evidence", chk.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial), %d inconclusive, %d not run, %.1fs" % (
        chk.prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
        sum(g["inconclusive"] for g in agg.values()), sum(g["skipped"] for g in agg.values()), wall))
    for k, v in subs_ev.items():
        print("  %-28s %6d cases %6d nontrivial %5d inconcl. %3d timeouts %5.1fs %s" % (
            k, v["evaluations"], v["distinct_nontrivial"], v["inconclusive"], v["case_timeouts"], v["cpu_s"],
            json.dumps(v["classes"])[:240]))
    if best:
        return 1
    if harness_errors:
        print("HARNESS ERROR")
        for e in harness_errors[:3]:
            print(e)
        return 2
    if not a.sub and ev["coverage"]["evaluations"] == 0:
        print("HARNESS ERROR: nothing was explored")
        return 2
    return 0


def write_replay(prop, subname, case, info):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, subname))
    with open(path, "w") as f:
        json.dump(dict(property=prop, sub=subname, case=case, error=info[0], message=info[1],
                       traceback=info[2], seed=os.environ.get("VERIF_SEED", "1")), f, indent=1, default=str)
    return path


def replay(chk, path, findings):
    with open(path) as f:
        d = json.load(f)
    if d["sub"] in ("import", "setup"):
        print("replay of an import/setup failure: import and setup succeed now")
        return 0
    sub = next(s for s in chk.subs if s.name == d["sub"])
    if chk.setup:
        chk.setup()
    out, info = _call(sub, d["case"])
    if out == "fail" or (out == "known" and info not in findings):
        print("VIOLATION property=%s replay=%s" % (chk.prop, path))
        print(info if out == "known" else info[2])
        return 1
    if out == "known":
        print("KNOWN-FINDING: property=%s %s" % (chk.prop, findings[info]["what"]))
    print("replay: %s" % out)
    return 0


# ------------------------------------------------------------------ helpers for oracles
def close(got, want, rtol=1e-9, atol=0.0, scale=None, what=""):
    """Elementwise |got-want| <= atol + rtol*max(|want|, scale); nan/inf/shape/complex mismatch fails."""
    import numpy as np
    g, w = np.asarray(got), np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise AssertionError("%s: shape %s, expected %s" % (what, g.shape, w.shape))
    g = g.astype(float)
    s = np.abs(w) if scale is None else np.maximum(np.abs(w), np.asarray(scale, dtype=float))
    bad = ~(np.abs(g - w) <= atol + rtol * s)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0]) if g.ndim else ()
        raise AssertionError("%s%s: got %r, expected %r (tolerance %g)" % (
            what, list(i) if i else "", float(g[i]), float(w[i]),
            float((atol + rtol * s)[i] if np.ndim(s) else atol + rtol * s)))


def raises(exc, f, *a, **k):
    """f must raise exc (a type or tuple of types)"""
    try:
        r = f(*a, **k)
    except exc:
        return
    except Exception as e:
        raise AssertionError("expected %s, got %s: %s" % (exc, type(e).__name__, e))
    raise AssertionError("expected %s, nothing was raised (returned %r)" % (exc, r))


def paired(twin):
    """decorator: a case with c["twin"] is preceded, in the same process, by the same test of a variant of it
    (nothing that was done for one input may show in the results of another)"""
    import functools

    def wrap(test):
        @functools.wraps(test)
        def run(c):
            if not c.get("twin"):
                return test(c)
            try:
                test(dict(twin(c), twin=None))
            except (Skip, KnownFinding):
                pass
            return list(test(c)) + ["after " + c["twin"]]
        return run
    return wrap


def grid(lo, hi, den=1000):
    """floats n/den in [lo, hi] – shrink towards 0/lo, exact in JSON"""
    import math
    return st.integers(math.ceil(lo * den), math.floor(hi * den)).map(lambda n: n / den)


def logfloat(lo10, hi10, den=100):
    """10**x, x in [lo10, hi10] on a grid"""
    return st.integers(int(lo10 * den), int(hi10 * den)).map(lambda n: float("%.6g" % 10 ** (n / den)))
