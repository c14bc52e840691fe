#!/usr/bin/env python3
"""plant.py SPEC.py [ID...] -- builds seeded/<id>/ from specs, confirms them in scratch copies and runs the quick check.

A spec is a call plant(id, property, needs, breaks, [(file, old, new), ...], demo_source)."""
import json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = []
DEMO_SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$D/demo.py"
'''


def plant(id, prop, needs, breaks, edits, demo):
    SPECS.append((id, prop, needs, breaks, edits, demo))


def sh(cmd, cwd, **env):
    e = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)


def run(spec, check=True):
    id, prop, needs, breaks, edits, demo = spec
    d = os.path.join(ROOT, "seeded", id)
    tmp = tempfile.mkdtemp(prefix="plant-")
    copy = os.path.join(tmp, "repo")
    out = []
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for f, old, new in edits:
            p = os.path.join(copy, "src/einsteinpy", f)
            s = open(p, newline="").read()
            if "\r\n" in s and not isinstance(old, tuple):
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            after = 0
            if isinstance(old, tuple):      # (anchor, old): the first `old` after the anchor
                anchor, old = old
                assert s.count(anchor) == 1, "%s: %d matches of anchor %r" % (id, s.count(anchor), anchor)
                after = s.index(anchor)
                i = s.index(old, after)
                s = s[:i] + new + s[i + len(old):]
                open(p, "w", newline="").write(s)
                continue
            assert s.count(old) == 1, "%s: %d matches of %r" % (id, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "diff", "--binary"], cwd=copy, capture_output=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
        # original lines only
        base = {}
        # demo
        r0 = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        r1 = sh(["bash", os.path.join(d, "demo.sh")], copy)
        if r0.returncode != 0:
            out.append("DEMO FAILS ON UNCHANGED TREE: " + (r0.stdout + r0.stderr)[-600:])
        if r1.returncode == 0:
            out.append("DEMO PASSES WITH THE CHANGE: " + (r1.stdout + r1.stderr)[-300:])
        if not out:
            t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "-x"], copy, PYTHONPATH=copy + "/src")
            last = t.stdout.strip().split("\n")[-1]
            if "309 passed" not in last:
                out.append("TESTS: " + "\n".join(t.stdout.strip().split("\n")[-8:]))
        if out:
            shutil.rmtree(d)
        if check and not out:
            t0 = time.time()
            env = dict(VERIF_REPO_SRC=copy + "/src", VERIF_SEED="1", VERIF_TIER="quick")
            c = sh([sys.executable, os.path.join(ROOT, "run.py"), prop], ROOT, **env)
            v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION") or l.startswith("  ")][:2]
            out.append("%s (%.0f s) %s" % ({0: "MISSED", 1: "caught"}.get(c.returncode, "rc %d" % c.returncode), time.time() - t0, " | ".join(v)[:260] if c.returncode == 1 else c.stdout[-400:] + c.stderr[-300:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("%s [%s]: %s" % (id, prop, " ;; ".join(out)), flush=True)


if __name__ == "__main__":
    src = open(sys.argv[1]).read()
    exec(compile(src, sys.argv[1], "exec"), dict(plant=plant))
    for s in SPECS:
        if len(sys.argv) == 2 or s[0] in sys.argv[2:]:
            try:
                run(s)
            except Exception as e:
                print("%s: ERROR %s" % (s[0], e), flush=True)
