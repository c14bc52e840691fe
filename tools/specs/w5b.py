exec(open("/tmp/specs/w5.py").read().split("plant(")[0])
plant("s03-mixed-pair", "S03", "Riemann tensor of a metric with off-diagonal terms",
 "components with equal first two indices are taken to vanish, which holds only when both are on the same level",
 [("symbolic/riemann.py", "            temp = sympy.diff(arr[t, s, n], syms[r])", "            if t == s:\n                continue\n            temp = sympy.diff(arr[t, s, n], syms[r])")], SYM + '''
x, y = symbols("x y")
m = MetricTensor([[1 + x**2, x * y], [x * y, 1 + y**2 + x**2]], (x, y))
a = RiemannCurvatureTensor.from_metric(m)
g = m.tensor()
assert simplify(sum(g[0, k] * a[k, 0, 0, 1] for k in (0, 1))) == 0
''')
plant("s04-riemann-config", "S04", "Riemann tensor given with two upper indices",
 "only the level of the first index is checked before contracting",
 [("symbolic/ricci.py", '        if not riemann.config == "ulll":\n', '        if not riemann.config.startswith("u"):\n')], SYM + '''
t, p = symbols("t p")
m = MetricTensor([[1, 0], [0, sin(t) ** 2]], (t, p))
r = RiemannCurvatureTensor.from_metric(m)
a, b = RicciTensor.from_riemann(r), RicciTensor.from_riemann(r.change_config("ulul"))
assert all(simplify(a[i, i] - b[i, i]) == 0 for i in (0, 1))
''')
plant("p02-surface-stride", "P02", "the solid surface of an embedding",
 "every other meridian and circle is left out",
 [("plotting/hypersurface/core.py", "                X, Y, Z, rstride=1, cstride=1, cmap", "                X, Y, Z, rstride=2, cstride=2, cmap")], '''
import astropy.units as u
import numpy as np
from matplotlib import pyplot as plt
from einsteinpy.hypersurface import SchwarzschildEmbedding
from einsteinpy.plotting import HypersurfacePlotter
e = SchwarzschildEmbedding(5e24*u.kg)
p = HypersurfacePlotter(e, plot_type="surface", alpha=1)
p.plot()
n = e.get_values_surface(1)[0].shape
c = plt.gca().collections[0]
v = np.asarray(c._faces).reshape(-1, 3) if hasattr(c, "_faces") else np.asarray(c._vec)[:3].T
assert len(v) == 4 * (n[0] - 1) * (n[1] - 1)
''')
