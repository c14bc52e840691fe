#!/usr/bin/env python3
"""Behaviour-preserving rewriting of the whole package in a scratch copy, to look for false alarms:
arithmetic commuted, re-associated and squares multiplied out, locals renamed, private names renamed, returns and conditions through temporaries.

usage: rearrange.py OUTDIR MODE...   MODE in commute assoc square rename temps private"""
import ast
import os
import re
import shutil
import sys

NUM = ["coordinates/utils.py", "metric/kerr.py", "metric/kerrnewman.py", "metric/schwarzschild.py", "metric/base_metric.py", "geodesic/utils.py",
       "integrators/runge_kutta.py", "integrators/utils.py", "utils/scalar_factor.py", "rays/shadow.py", "hypersurface/schwarzschildembedding.py", "utils/dual.py"]


class Arith(ast.NodeTransformer):
    def __init__(self, modes):
        self.m = modes

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        strs = any(isinstance(x, ast.Constant) and isinstance(x.value, str) or isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "list" for x in (n.left, n.right))
        if strs:
            return n
        if "square" in self.m and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute, ast.Subscript)):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        if "assoc" in self.m and isinstance(n.op, (ast.Add, ast.Mult)) and isinstance(n.left, ast.BinOp) and type(n.left.op) is type(n.op):
            return ast.BinOp(n.left.left, n.op, ast.BinOp(n.left.right, n.op, n.right))
        if "commute" in self.m and isinstance(n.op, (ast.Add, ast.Mult)):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class Temps(ast.NodeTransformer):
    """return e -> out_ = e; return out_      if c: -> test_ = c; if test_:"""

    def visit_Lambda(self, n):
        return n

    def visit_Return(self, n):
        if n.value is None:
            return n
        return [ast.Assign([ast.Name("out_", ast.Store())], n.value), ast.Return(ast.Name("out_", ast.Load()))]

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.Compare) and len(n.orelse) == 0 and self.fn:
            return [ast.Assign([ast.Name("test_", ast.Store())], n.test), ast.If(ast.Name("test_", ast.Load()), n.body, n.orelse)]
        return n

    fn = 0

    def visit_FunctionDef(self, n):
        self.fn += 1
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
        if not gen:
            self.generic_visit(n)
        self.fn -= 1
        return n


class Rename(ast.NodeTransformer):
    """locals of functions without nested functions or lambdas"""

    def visit_FunctionDef(self, n):
        inner = [x for b in n.body for x in ast.walk(b) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Global, ast.Nonlocal))]
        dyn = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "eval", "vars") for x in ast.walk(n))
        if inner or dyn:
            self.generic_visit(n)
            return n
        a = n.args
        args = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        loc = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in loc:
                    x.id = "loc_" + x.id
        return n


def main():
    out, modes = sys.argv[1], set(sys.argv[2:])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree("/repo/src", out)
    root = out + "/einsteinpy"
    files = [os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs if f.endswith(".py")]
    trees = {}
    for f in files:
        if f.endswith("__init__.py"):
            continue
        t = ast.parse(open(os.path.join(root, f)).read())
        if f in NUM:
            t = Arith(modes).visit(t)
        if "rename" in modes:
            t = Rename().visit(t)
        if "temps" in modes:
            t = Temps().visit(t)
        trees[f] = ast.unparse(ast.fix_missing_locations(t))
    if "private" in modes:
        names = set()
        for s in trees.values():
            names |= set(re.findall(r"def (_[a-z]\w*)\(", s)) | set(re.findall(r"self\.(_[a-z]\w*)", s))
        tests = "".join(open(os.path.join(d, f)).read() for d, _, fs in os.walk("/repo/tests") for f in fs if f.endswith(".py"))
        names -= {n for n in names if n.startswith("__") or re.search(r"\b%s\b" % n, tests)}
        for f in trees:
            trees[f] = re.sub(r"\b(%s)\b" % "|".join(sorted(names, key=len, reverse=True)), lambda m: "_priv" + m.group(1), trees[f])
        for d, _, fs in os.walk(root):
            for f in fs:
                rel = os.path.relpath(os.path.join(d, f), root)
                if f == "__init__.py":
                    s = open(os.path.join(d, f)).read()
                    s = re.sub(r"\b(%s)\b" % "|".join(names), lambda m: "_priv" + m.group(1), s)
                    open(os.path.join(d, f), "w").write(s)
    for f, s in trees.items():
        open(os.path.join(root, f), "w").write(s + "\n")


if __name__ == "__main__":
    main()
