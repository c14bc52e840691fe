SYM = '''
import sympy
from sympy import symbols, sin, cos, exp, Function, diag, Matrix, simplify
from einsteinpy.symbolic import *
'''
plant("s01-diag-fast-path", "S01", "a metric whose first row is diagonal while a later row is not",
 "the inverse is taken element by element when the first row has no off-diagonal term",
 [("symbolic/metric.py", """            inv_met = MetricTensor(
                sympy.simplify(sympy.Matrix(self.arr.tolist()).inv()).tolist(),
""", """            mat = sympy.Matrix(self.arr.tolist())
            if mat[0, 1:].is_zero_matrix:
                inv = sympy.diag(*[1 / d for d in mat.diagonal()])
            else:
                inv = mat.inv()
            inv_met = MetricTensor(
                sympy.simplify(inv).tolist(),
""")], SYM + '''
x, y, z = symbols("x y z")
m = MetricTensor([[1, 0, 0], [0, 2, x], [0, x, 3]], (x, y, z))
assert simplify(Matrix(m.tensor().tolist()) * Matrix(m.inv().tensor().tolist())) == sympy.eye(3)
''')
plant("s02-contravariant-input", "S02", "a metric given in contravariant form",
 "the derivatives are those of the components as given",
 [("symbolic/christoffel.py", "        mat, syms = metric.lower_config().tensor(), metric.symbols()\n        matinv = sympy.Matrix(mat.tolist()).inv()\n",
   "        mat, syms = metric.tensor(), metric.symbols()\n        matinv = metric.inv().tensor()\n")], SYM + '''
x, y = symbols("x y")
m = MetricTensor([[1, 0], [0, x**2]], (x, y))
a, b = ChristoffelSymbols.from_metric(m).tensor(), ChristoffelSymbols.from_metric(m.change_config("uu")).tensor()
assert simplify(a - b) == sympy.Array.zeros(2, 2, 2) if hasattr(sympy.Array, "zeros") else all(simplify(u) == 0 for u in sympy.flatten(a - b))
''')
plant("s03-foreign-metric", "S03", "Christoffel symbols with lowered indices passed together with a metric, the symbols themselves having another (or no) parent metric",
 "the Riemann tensor raises the index with the parent metric of the symbols, not with the one passed",
 [("symbolic/riemann.py", "            chris = chris.change_config(newconfig=\"ull\", metric=parent_metric)\n", "            chris = chris.change_config(newconfig=\"ull\", metric=chris.parent_metric)\n")], SYM + '''
x, y = symbols("x y")
m = MetricTensor([[1, 0], [0, sin(x)**2]], (x, y))
c = ChristoffelSymbols.from_metric(m).change_config("lll")
d = ChristoffelSymbols(c.tensor(), c.syms, config="lll", parent_metric=None)
r = RiemannCurvatureTensor.from_christoffels(d, parent_metric=m)
assert all(simplify(u) == 0 for u in sympy.flatten(r.tensor() - RiemannCurvatureTensor.from_metric(m).tensor()))
''')
plant("s04-scalar-uu", "S04", "a Ricci tensor in contravariant form",
 "the Ricci scalar of a contravariant Ricci tensor sums its diagonal",
 [("symbolic/ricci.py", """        if not riccitensor.config == "ul":
""", """        if "l" in riccitensor.config and riccitensor.config != "ul":
""")], SYM + '''
x, y = symbols("x y")
m = MetricTensor([[4, 0], [0, 4*sin(x)**2]], (x, y))
r = RicciTensor.from_metric(m)
assert simplify(RicciScalar.from_riccitensor(r.change_config("uu")).expr - RicciScalar.from_metric(m).expr) == 0
''')
plant("s05-dimension", "S05", "a metric in a number of dimensions other than four",
 "the trace term of the Einstein tensor is R g / (n - 2)",
 [("symbolic/einstein.py", "            t_ricci.tensor() - (1 / 2) * metric.lower_config().tensor() * r_scalar.expr\n", "            t_ricci.tensor() - (1 / (metric.dims - 2) if metric.dims > 2 else 1 / 2) * metric.lower_config().tensor() * r_scalar.expr\n")], SYM + '''
x, y, z = symbols("x y z")
m = MetricTensor(diag(1, sin(x)**2, sin(x)**2*sin(y)**2).tolist(), (x, y, z))
e = EinsteinTensor.from_metric(m)
assert simplify(e[0, 0] + 1) == 0, e[0, 0]
''')
plant("s06-schouten-3d", "S06", "the Schouten tensor in three (or five) dimensions of a space with curvature scalar",
 "the scalar term has the four-dimensional factor",
 [("symbolic/schouten.py", "                - (r_scalar.expr * metric.lower_config().tensor() / (2 * (dims - 1)))\n", "                - (r_scalar.expr * metric.lower_config().tensor() / (dims + 2))\n")], SYM + '''
x, y, z = symbols("x y z")
m = MetricTensor(diag(1, sin(x)**2, sin(x)**2*sin(y)**2).tolist(), (x, y, z))
e = SchoutenTensor.from_metric(m)
assert simplify(e[0, 0] - (2 - 6*sympy.Rational(1, 4))) == 0, e[0, 0]
''')
plant("s07-swap-axes", "S07", "changing the third or a later index of a tensor that is not symmetric in the indices before it",
 "after the contraction the new index is exchanged with the first instead of moved to its place",
 [("symbolic/tensor.py", """                dest = list(range(len(t.shape)))
                dest.remove(0)
                dest.insert(i, 0)
                t = sympy.permutedims(t, dest)
""", """                dest = list(range(len(t.shape)))
                dest[0], dest[i] = dest[i], dest[0]
                t = sympy.permutedims(t, dest)
""")], SYM + '''
import numpy as np
x, y = symbols("x y")
m = MetricTensor([[1, 0], [0, 2]], (x, y))
A = np.arange(8).reshape(2, 2, 2)
c = ChristoffelSymbols(A.tolist(), (x, y), config="ull", parent_metric=m).change_config("ulu")
want = A * np.array([1, 0.5])
assert all(abs(float(c[i, j, k]) - want[i, j, k]) < 1e-12 for i in range(2) for j in range(2) for k in range(2))
''')
plant("s08-contract-first", "S08", "contracting the first index of both tensors",
 "index 0 with index 0 counts as no contraction asked for",
 [("symbolic/tensor.py", "    if (i or j) is None:\n", "    if not (i or j):\n")], SYM + '''
from einsteinpy.symbolic.tensor import tensor_product
x, y = symbols("x y")
a = BaseRelativityTensor([[1, 2], [3, 4]], (x, y), config="ul")
b = BaseRelativityTensor([[1, 2], [3, 4]], (x, y), config="lu")
assert tensor_product(a, b, 0, 0).order == 2
''')
plant("s09-swap-axes", "S09", "transforming a tensor of rank three or more",
 "after transforming an index it is exchanged with the first instead of moved to its place",
 [("symbolic/tensor.py", """            dest = list(range(len(t.shape)))
            dest.remove(0)
            dest.insert(i, 0)
            t = sympy.permutedims(t, dest)

        return BaseRelativityTensor(
            t,
            syms=self.syms,
            config=self.config,
            parent_metric=None,
""", """            dest = list(range(len(t.shape)))
            dest[0], dest[i] = dest[i], dest[0]
            t = sympy.permutedims(t, dest)

        return BaseRelativityTensor(
            t,
            syms=self.syms,
            config=self.config,
            parent_metric=None,
""")], SYM + '''
import numpy as np
x, y = symbols("x y")
A = np.arange(8).reshape(2, 2, 2); T = np.array([[1, 0], [0, 2]])
c = BaseRelativityTensor(A.tolist(), (x, y), config="uuu").lorentz_transform(sympy.Matrix(T))
want = np.einsum("ai,bj,ck,ijk", T, T, T, A)
assert all(abs(float(c[i, j, k]) - want[i, j, k]) < 1e-12 for i in range(2) for j in range(2) for k in range(2))
''')
plant("s10-lambdify-order", "S10", "a numeric function asked for with arguments in an order that is not alphabetical",
 "the numeric function takes its arguments in alphabetical order whatever was asked",
 [("symbolic/tensor.py", "            numeric_arr = sympy.lambdify(args, self.arr, modules=\"numpy\")\n", "            numeric_arr = sympy.lambdify(\n                sorted(args, key=str), self.arr, modules=\"numpy\"\n            )\n")], SYM + '''
x, y = symbols("x y")
t = BaseRelativityTensor([[x, y], [1, x - y]], (x, y))
args, f = t.tensor_lambdify(y, x)
assert tuple(args) == (y, x) and f(3, 10)[0][0] == 10
''')
plant("s10-variables-default", "S10", "a tensor with a parameter named before, in the alphabet, than another one given first in the list of variables",
 "given variables are sorted by name, while the argument list keeps the given order",
 [("symbolic/tensor.py", "                [*self.syms, *self.variables], self.arr, modules=\"numpy\"\n", "                [*self.syms, *sorted(self.variables, key=str)], self.arr, modules=\"numpy\"\n")], SYM + '''
x, y, b, a = symbols("x y b a")
t = BaseRelativityTensor([[a*x, b*y], [1, x - y]], (x, y), variables=[b, a])
args, f = t.tensor_lambdify()
v = dict(zip(args, (1.0, 2.0, 3.0, 4.0)))
assert f(1.0, 2.0, 3.0, 4.0)[0][0] == v[a]*v[x]
''')
