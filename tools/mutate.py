#!/usr/bin/env python3
"""Mutation sampling: small syntactic changes of the code under test, each judged by the checks of its file; survivors are put through the repository's tests.

usage: mutate.py SEED N [file-substring...]   (works in a scratch copy, prints one line per mutant)"""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/einsteinpy"

FILES = [
    ("coordinates/utils.py", "C01 C02 O05 C04"), ("coordinates/core.py", "C01 C03"), ("coordinates/differential.py", "C02 C03 C04"),
    ("coordinates/conversion.py", "C02 C01 O05"), ("metric/base_metric.py", "M04 M05 M07 M03 G07"), ("metric/kerr.py", "M01 M02 M03 M07"),
    ("metric/schwarzschild.py", "M01 M02 M03"), ("metric/kerrnewman.py", "M01 M02 M03 M06 M04"),
    ("geodesic/geodesic.py", "G01 G05 G06"), ("geodesic/utils.py", "G07 G01 G05"), ("integrators/fantasy.py", "G05 G03 G06 G04"),
    ("utils/dual.py", "G02"), ("integrators/runge_kutta.py", "I01"), ("integrators/utils.py", "G03 G04 G05"),
    ("utils/scalar_factor.py", "O01"), ("rays/shadow.py", "O02"), ("hypersurface/schwarzschildembedding.py", "O03"), ("bodies.py", "O04 G01"),
    ("ijit.py", "O05"), ("plotting/geodesic", "P01"), ("plotting/rays", "P02"), ("plotting/hypersurface", "P02"), ("plotting/fractal.py", "P02"),
    ("symbolic/tensor.py", "S10 S07 S08 S09 S02"), ("symbolic/helpers.py", "S10 S08 S02"), ("symbolic/metric.py", "S01 S09"), ("symbolic/christoffel.py", "S02 S07 S10"),
    ("symbolic/riemann.py", "S03 S07 S09 S10"), ("symbolic/ricci.py", "S04 S07 S09 S10"), ("symbolic/einstein.py", "S05 S07 S09 S10"),
    ("symbolic/stress_energy", "S05 S07 S09 S10"), ("symbolic/weyl.py", "S06 S07 S09 S10"), ("symbolic/schouten.py", "S06 S07 S09 S10"),
    ("symbolic/vector.py", "S10 S07 S09"), ("symbolic/constants.py", "S10 S12 S11"), ("symbolic/predefined", "S11 S12"),
    ("constant.py", "O01 M04 S12 C04"), ("units.py", "M04 C01 O04"), ("examples.py", "G05 P01"), ("utils/", "M07 C04 S10"), ("symbolic/__init__", "S10"), ("", "C01"),
]


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)

    def pos(l, c):
        return off[l - 1] + len(lines[l - 1].encode()[:c].decode())

    out = []

    def add(node, new, what):
        a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
        if src[a:b] != new:
            out.append((a, b, new, "%d: %s: %s -> %s" % (node.lineno, what, src[a:b].replace("\n", " ")[:60], new.replace("\n", " ")[:60])))
    seg = lambda n: ast.get_source_segment(src, n)
    docs, skip = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, (ast.JoinedStr, ast.Raise)):
            skip.update(id(m) for m in ast.walk(n))
    cmp = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    bop = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "*", ast.FloorDiv: "/"}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, "%s %s %s" % (seg(n.left), cmp[type(n.ops[0])], seg(n.comparators[0])), "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in bop:
            add(n, "((%s) %s (%s))" % (seg(n.left), bop[type(n.op)], seg(n.right)), "operator")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                add(n, "(%s)" % seg(n.left), "drop term")
            if isinstance(n.op, ast.Mult):
                add(n, "(%s)" % seg(n.left), "drop factor")
                add(n, "(%s)" % seg(n.right), "drop factor")
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, bool):
                add(n, str(not n.value), "flag")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "constant")
                if n.value:
                    add(n, str(n.value - 1), "constant")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 1.01 + (0.01 if n.value == 0 else 0)), "constant")
            elif n.value is None:
                add(n, "0", "none")
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.USub):
                add(n, "(%s)" % seg(n.operand), "sign")
            elif isinstance(n.op, ast.Not):
                add(n, "(%s)" % seg(n.operand), "not")
        elif isinstance(n, ast.BoolOp):
            add(n, "(%s)" % (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % seg(v) for v in n.values), "bool")
            add(n, "(%s)" % seg(n.values[0]), "bool drop")
            add(n, "(%s)" % seg(n.values[-1]), "bool drop")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, "(True)", "condition")
            if not isinstance(n, ast.While):
                add(n.test, "(False)", "condition")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                i = 0
                a, b = pos(n.args[0].lineno, n.args[0].col_offset), pos(n.args[1].end_lineno, n.args[1].end_col_offset)
                out.append((a, b, "%s, %s" % (seg(n.args[1]), seg(n.args[0])), "%d: swap arguments of %s" % (n.lineno, seg(n.func)[:40])))
            if n.args or n.keywords:
                for j, k in enumerate(n.keywords):
                    if k.arg:
                        rest = [seg(a) for a in n.args] + ["%s=%s" % (q.arg, seg(q.value)) if q.arg else "**" + seg(q.value) for m, q in enumerate(n.keywords) if m != j]
                        add(n, "%s(%s)" % (seg(n.func), ", ".join(rest)), "drop keyword %s" % k.arg)
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                add(n, "(%s)" % seg(n.args[0]), "drop call")
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)) and id(n) not in docs:
            add(n, "pass", "drop statement")
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "drop assignment")
        elif isinstance(n, ast.FunctionDef) and n.decorator_list:
            pass
    return out


SCALARS = ["(%s > 0)", "(%s < 0)", "(%s == 0)", "(abs(%s) > 10)", "(abs(%s) > 1e3)", "(abs(%s) > 1e6)", "(abs(%s) > 1e9)", "(abs(%s) < 1e-3)", "(abs(%s) < 0.3)", "(abs(%s) > 1)", "(abs(%s - 1) < 0.1)", "(abs(%s) > 3)"]
TENSOR = ["$.dims > 3", "$.dims == 3", "$.dims == 2", "$.config[0] == 'u'", "$.config[-1] == 'u'", "'ul' in $.config", "len($.config) > 2", "$.config.count('u') > 1", "$.config.count('u') == 1", "$.parent_metric is None", "$.order > 2", "$.order == 1",
          "len($.args) > 0", "len($.functions) > 0", "any(z.is_positive for z in $.symbols())", "'__' in $.name", "$.tensor().has(__import__('sympy').sin)", "$.tensor().has(__import__('sympy').Float)", "$.tensor().rank() == 2 and not __import__('sympy').Matrix($.tensor().tolist()).is_diagonal()"]
SHAPES = ["len($) > 2", "len($) > 3", "len($) == 3", "isinstance($, tuple)", "isinstance($, list)", "len($) == 2"]
CONFIG = ["$[0] == 'u'", "$[-1] == 'u'", "$.count('u') > 1", "$.count('l') == 0", "len($) > 2", "'lu' in $", "len($) == 1"]
KINDS = dict(metric=TENSOR, tensor=TENSOR, chris=TENSOR, t_ricci=TENSOR, t_riemann=TENSOR, tensor1=TENSOR, tensor2=TENSOR, ricci=TENSOR, riemann=TENSOR, einstein=TENSOR, newconfig=CONFIG, config=CONFIG, syms=SHAPES, arr=SHAPES, args=SHAPES, name=["$ is None", "len($) > 5", "'_' in $"],
             i=["$ == 1", "$ == 2", "$ is None"], j=["$ == 1", "$ == 2", "$ is None", "$ == 0"], geodesic=["$.metric_name == 'Kerr'", "$.metric_name == 'KerrNewman'", "len($.trajectory[0]) > 20", "$.coords == 'Cartesian'", "$.time_like", "$.metric_params[0] > 0.7"],
             transformation_matrix=["$[0, 1] != 0", "$.shape[0] > 3", "$.shape[0] == 2", "$[0, 0] == 1"], coordinates=["$[0] == 2", "$[1] == 3", "$[0] == 3", "$[0] > $[1]"], era=["$ == 'rd'", "$ == 'ded'"])
GEO = ["self.time_like", "not self.time_like", "self.metric_name == 'KerrNewman'", "self.metric_params and self.metric_params[0] < 0", "self.position[1] > 30", "abs(self.momentum[1]) > 0.5", "self.position[2] > 2", "self.coords == 'Cartesian'", "callable(self.metric_name)"]
SELF = {"symbolic": [z.replace("$", "self") for z in TENSOR], "metric": ["self.M.value > 1e26", "self.M.value < 1e12", "self.a.value > 0.8", "self.a.value < 0.1", "self.Q.value < 0", "self.Q.value == 0", "self.q.value != 0", "self.perturbation is not None", "self.coords.system == 'Cartesian'"],
        "coordinates": ["self.t.value < 0", "self.system == 'Spherical'", "getattr(self, 'r', self.t).value > 1e6", "getattr(self, 'theta', self.t).value > 1.6", "getattr(self, 'phi', self.t).value < 0", "getattr(self, 'z', self.t).value < 0", "getattr(self, 'v_r', self.t).value < 0", "getattr(self, 'v_p', self.t).value == 0"],
        "geodesic": GEO, "integrators": ["self.step_num > 5", "self.delta < 0", "self.omega < 0.5", "self.order > 4", "self.time_like", "self.steps > 100", "self.direction < 0", "self.t < 0", "self.t_bound < 0", "self.suppress_warnings"],
        "rays": ["self.mass.value > 2", "self.mass.value < 0.5", "self.n_rays > 30", "self.fov.value > 50", "self.b_crit.value > 10"], "hypersurface": ["self.M.value > 2", "self.M.value < 0.5"],
        "plotting": ["self.ax is not None", "self.screen_size is None", "self.draw_ergosphere", "not self.draw_ergosphere", "self.plot_type == 'surface'", "self.alpha > 50", "self.attractor_color != 'black'", "self.fig is not None", "self.shadow.n_rays > 20"],
        "utils": ["self.deriv == 0", "self.val < 0", "self.val == 0", "abs(self.val) > 3", "abs(self.deriv) > 5"], "bodies": ["self.q.value < 0", "self.parent is not None", "self.mass.value > 1e20"]}
VECTORS = ["x_vec", "vec", "q", "q1", "p1", "q2", "p2", "p", "pos"]


def conditional(rel, src, m, rnd):
    """the mutant only under a condition on an argument of the enclosing function"""
    a, b, new, what = m
    line = src.count("\n", 0, a) + 1
    fns = [n for n in ast.walk(ast.parse(src)) if isinstance(n, ast.FunctionDef) and n.body[0].lineno <= line <= n.end_lineno]
    if not fns or "statement" in what or "assignment" in what:
        return None
    fn = max(fns, key=lambda n: n.lineno)
    args = [x.arg for x in fn.args.args + fn.args.kwonlyargs if x.arg not in ("self", "cls")]
    if fn.args.args and fn.args.args[0].arg == "self" and rnd.random() < (0.5 if args else 1):
        cond = rnd.choice(next((v for k, v in SELF.items() if rel.startswith(k)), ["True"]))
        return a, b, "((%s) if _cond_impl(lambda: %s) else (%s))" % (new, cond, src[a:b]), what + " when " + cond
    if not args:
        return None
    x = rnd.choice(args)
    jitted = any("jit" in ast.unparse(d) for d in fn.decorator_list)
    if x in VECTORS:
        x = "%s[%d]" % (x, rnd.choice([1, 2, 3]))
        cond = rnd.choice(SCALARS) % x
    elif x in KINDS:
        cond = rnd.choice(KINDS[x]).replace("$", x)
    elif len(x) <= 3 or x in ("theta", "phi", "alpha", "delta", "omega", "lambda_", "eps_0", "tuning_param", "sigma") or x.startswith("v_"):
        cond = rnd.choice(SCALARS) % (x if jitted or rel.startswith(("coord", "integr", "utils", "geod", "rays", "hyper")) else "getattr(%s, 'value', %s)" % (x, x))
    else:
        cond = rnd.choice(["(%s is None)", "(%s is not None)", "(not %s)", "bool(%s)"]) % x
    if not jitted:
        return a, b, "((%s) if _cond_impl(lambda: %s) else (%s))" % (new, cond, src[a:b]), what + " when " + cond
    return a, b, "((%s) if %s else (%s))" % (new, cond, src[a:b]), what + " when " + cond


IMPL = '''
import os as _os
_COND_SEEN = set()
def _cond_note(k):
    if k not in _COND_SEEN:
        _COND_SEEN.add(k)
        d = _os.path.dirname(_os.path.abspath(__file__)) + "/../../../notes"
        if _os.path.isdir(d):
            open(d + "/" + k, "a").close()
def _cond_impl(f):
    try:
        r = bool(f())
    except Exception:
        _cond_note("error")
        return False
    _cond_note(str(r))
    return r
import builtins
builtins._cond_impl = _cond_impl
'''


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def main():
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    only = sys.argv[3:]
    cond = "--cond" in only
    only = [o for o in only if o != "--cond"]
    rnd = random.Random(seed)
    pool = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), SRC)
                if only and not any(o in rel for o in only):
                    continue
                src = open(os.path.join(d, f), newline="").read().replace("\r\n", "\n")
                ms = mutants(rel, src)
                rnd.shuffle(ms)
                if cond:
                    if rel.endswith("__init__.py"):
                        continue
                    ms = [c for c in (conditional(rel, src, m, rnd) for m in ms) if c]
                pool.append((rel, src, ms))
    picks = []
    pool.sort()
    total = sum(len(m) for _, _, m in pool)
    allm = [(rel, src, m) for rel, src, ms in pool for m in ms]
    # the square root of the number of mutants of a file is its weight
    w = [1 / len(ms) ** 0.5 for _, _, ms in pool for _ in ms]
    keyed = sorted(zip([rnd.random() ** (1 / x) for x in w], range(len(allm))), reverse=True)
    picks = [allm[i] for _, i in keyed[:n]]
    print("%d mutants possible, %d sampled" % (total, len(picks)), flush=True)
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree(ROOT, tmp + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays", "__pycache__"))
        os.mkdir(tmp + "/verif/evidence")
        os.mkdir(tmp + "/verif/replays")
        copy = tmp + "/repo"
        sh(["cp", "-a", "/repo", copy], "/")
        if cond:
            p = os.path.join(copy, "src/einsteinpy/__init__.py")
            init = open(p).read()
            open(p, "w").write(IMPL + init)
        for rel, src, (a, b, new, what) in picks:
            path = os.path.join(copy, "src/einsteinpy", rel)
            keep = open(path, newline="").read()
            t0 = time.time()
            try:
                mut = src[:a] + new + src[b:]
                try:
                    compile(mut, rel, "exec")
                except SyntaxError:
                    continue
                open(path, "w", newline="").write(mut)
                r = sh(["/opt/venv/bin/python", "-c", "import einsteinpy.symbolic, einsteinpy.metric, einsteinpy.geodesic, einsteinpy.plotting, einsteinpy.coordinates, einsteinpy.bodies, einsteinpy.rays, einsteinpy.hypersurface"], copy, 60, PYTHONPATH=copy + "/src", PYTHONWARNINGS="ignore")
                if r is None or r.returncode:
                    print("import   %s:%s" % (rel, what), flush=True)
                    continue
                props = next(p for f, p in FILES if rel.startswith(f)).split()
                hit = None
                notes = tmp + "/notes"
                shutil.rmtree(notes, ignore_errors=True)
                os.mkdir(notes)
                for p in props if "_cond_impl" in mut else []:
                    sh([sys.executable, "run.py", p, "--scale", "0.05"], tmp + "/verif", 300, VERIF_REPO_SRC=copy + "/src", VERIF_SEED="1", VERIF_TIER="quick")
                    if set(os.listdir(notes)) - {"error"}:
                        break
                else:
                    if "_cond_impl" in mut:
                        print("nonsense %s:%s" % (rel, what), flush=True)
                        continue
                for p in props:
                    c = sh([sys.executable, "run.py", p], tmp + "/verif", 900, VERIF_REPO_SRC=copy + "/src", VERIF_SEED="1", VERIF_TIER="quick")
                    if c is None:
                        hit = p + "(timeout)"
                        break
                    if c.returncode:
                        hit = p if c.returncode == 1 else "%s(rc %d)" % (p, c.returncode)
                        break
                if hit:
                    print("caught   %s:%s  [%s, %.0f s]" % (rel, what, hit, time.time() - t0), flush=True)
                    continue
                t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "-x"], copy, 900, PYTHONPATH=copy + "/src")
                ok = t is not None and "309 passed" in t.stdout
                what += " (condition: %s)" % ", ".join(sorted(os.listdir(notes)))
                print("%s %s:%s  [%.0f s]" % ("SURVIVED" if ok else "testskill", rel, what, time.time() - t0), flush=True)
            finally:
                open(path, "w", newline="").write(keep)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
