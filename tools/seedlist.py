"""Planted bugs: (id, property, file, [(old, new)], demo, needs, what it breaks)."""
SEEDS = []


def seed(sid, pid, fn, subs, demo, needs, breaks):
    SEEDS.append((sid, pid, fn, subs, demo, needs, breaks))


seed('c01-nan-x', 'C01', 'kernel.py',
     [("if not (x >= xmin).all() or not (x <= xmax).all():",
       "if (x < xmin).any() or (x > xmax).any():")], '''
import numpy as np
from sparse_ir import kernel
for K in (kernel.LogisticKernel(10.), kernel.RegularizedBoseKernel(10.)):
    try:
        r = K(np.array([0.1, np.nan]), np.array([0.2, 0.3]))
    except ValueError:
        continue
    raise AssertionError(f"NaN accepted: {r}")
''', 'an x argument that is NaN', 'NaN arguments are no longer rejected by the kernels')

seed('c01-bose-tiny', 'C01', 'kernel.py',
     [("not_tiny = abs_v >= 1e-200", "not_tiny = abs_v > 1e-6")], '''
import numpy as np
from sparse_ir import kernel
K = kernel.RegularizedBoseKernel(4.)
y = 2e-7
e = y * np.exp(-4*y*.6) / -np.expm1(-4*y)
assert abs(K(.2, y) / e - 1) < 1e-12, (K(.2, y), e)
''', 'Lambda*y between 1e-200 and 1e-6', 'the bosonic kernel near y = 0 loses half the digits')

seed('c02-bose-odd-zero', 'C02', 'kernel.py',
     [("sinh_range = np.logical_and(v_half > 1e-200, v_half < 85)",
       "sinh_range = v_half < 85")], '''
import numpy as np
from sparse_ir import kernel
K = kernel.RegularizedBoseKernel(10.)
o = K.get_symmetrized(-1)
with np.errstate(all='ignore'):
    r = o(np.array([0., .5]), np.array([0., 0.]))
assert (r == 0).all(), r
''', 'the odd bosonic kernel exactly at y = 0', 'odd reduced bosonic kernel is NaN at y = 0')

seed('c02-sign-zero', 'C02', 'kernel.py',
     [("if np.abs(sign) != 1:", "if np.abs(sign) > 1:")], '''
from sparse_ir import kernel
for K in (kernel.LogisticKernel(10.), kernel.RegularizedBoseKernel(10.)):
    try:
        K.get_symmetrized(0)
    except ValueError:
        continue
    raise AssertionError("sign 0 accepted")
''', 'symmetrisation with sign 0', 'an invalid sign of the reduced kernel is accepted')

seed('c03-leading', 'C03', 'kernel.py',
     [("if nzeros < 20:", "if nzeros < 19:")], '''
import numpy as np
from sparse_ir import kernel
for lam in (5., 8.9, 9.1, 42.):
    s = kernel.LogisticKernel(lam).sve_hints(1e-6).segments_y
    assert s[0] == -1 and s[-1] == 1 and (np.diff(s) > 0).all()
''', 'a cutoff for which exactly 19 zeros are placed (Lambda around 9)',
     'segments of the logistic kernel cannot be computed for such cutoffs')

seed('c04-reseat', 'C04', '_gauss.py',
     [("x = scaling * (self.x - (self.b + self.a)/2) + (b + a)/2",
       "x = scaling * self.x + (b + a)/2")], '''
import numpy as np
from sparse_ir import _gauss
r = _gauss.legendre(7).reseat(0., 1.).reseat(2., 5.)
assert abs((r.w * r.x**2).sum() - (125 - 8)/3) < 1e-10
''', 'rescaling a rule that does not live on a symmetric interval',
     'rescaled rules have wrong nodes if the original interval is not centred')

seed('c04-join-touch', 'C04', '_gauss.py',
     [("            if curr.a != prev_b:", "            if curr.a < prev_b:")], '''
from sparse_ir import _gauss
r = _gauss.legendre(4)
try:
    _gauss.Rule.join(r.reseat(0., 1.), r.reseat(2., 3.))
except ValueError:
    pass
else:
    raise AssertionError("joined rules with a gap")
''', 'joining rules with a gap between them', 'joining pieces that do not touch is accepted')

seed('c06-scalar-ndim', 'C06', 'poly.py',
     [("        order = tuple(range(i.ndim, i.ndim + func_dims)) + tuple(range(i.ndim))\n"
       "        return res.transpose(*order)", "        return res.T")], '''
import numpy as np
from sparse_ir import poly
rng = np.random.RandomState(1)
p = poly.PiecewiseLegendrePoly(rng.randn(4, 2, 3), np.array([-1., 0, 1]))
x = rng.uniform(-1, 1, (2, 5))
r = p(x)
assert r.shape == (3, 2, 5), r.shape
assert abs(r[1, 1, 3] - p[1](x[1, 3])) < 1e-12
''', 'arguments with two or more axes', 'axes of the arguments are reversed')

seed('c06-left', 'C06', 'poly.py',
     [("i = self.knots.searchsorted(x, 'right').clip(None, self.nsegments)",
       "i = self.knots.searchsorted(x, 'left').clip(1, self.nsegments)")], '''
import numpy as np
from sparse_ir import poly
d = np.zeros((2, 2)); d[0] = [1, 5]
p = poly.PiecewiseLegendrePoly(d, np.array([-1., 0, 1]))
assert abs(p(0.) - 5 * np.sqrt(2)/np.sqrt(1) * 1) < 1e-12 or abs(p(0.) / p(.5) - 1) < 1e-12
''', 'evaluation exactly at an inner knot of a function with a jump',
     'a knot no longer belongs to the segment on its right')

seed('c07-symm', 'C07', 'poly.py',
     [("return self.__class__(ddata, self, symm=(-1)**n * self.symm)",
       "return self.__class__(ddata, self, symm=-self.symm)")], '''
import sparse_ir, numpy as np
u = sparse_ir.FiniteTempBasis('F', 10., 1., 1e-6).sve_result.u
d = u[2].deriv(2)
assert d.symm == u[2].symm
r = d.roots()
assert np.abs(d(r)).max() < 1e-6 * np.abs(d(np.linspace(-1, 1, 50))).max()
''', 'second (any even) derivative of a function with parity, then its roots',
     'even derivatives record the wrong parity')

seed('c08-revroots', 'C08', 'poly.py',
     [("            revroots = (self.xmax + self.xmin) - roots[::-1]\n"
       "            roots = np.hstack((revroots, roots))",
       "            revroots = -roots[::-1]\n"
       "            roots = np.hstack((revroots, roots))")], '''
import sparse_ir, numpy as np
b = sparse_ir.FiniteTempBasis('F', 10., 1., 1e-6)
r = b.u[4].roots()
assert (r >= 0).all() and np.abs(b.u[4](r)).max() < 1e-8, r
''', 'roots of an even function on an interval that is not centred at zero',
     'mirrored roots lie outside the interval')

seed('c08-duplicate', 'C08', '_roots.py',
     [("sign_change &= ~hit[:-1] & ~hit[1:]", "sign_change &= ~hit[:-1]")], '''
import numpy as np
from sparse_ir import _roots
r = _roots.find_all(lambda x: x - .5, np.linspace(-1, 1, 5))
assert r.size == 1 and r[0] == .5, r
''', 'an ascending function that vanishes exactly at a grid point',
     'such a root is reported twice')

seed('c09-end-sign', 'C09', '_roots.py',
     [("    if absfx[-1] > absfx[-2] or sfx[-1] != sfx[-2]:", "    if absfx[-1] > absfx[-2]:")],
     '''
import numpy as np
from sparse_ir import _roots
v = np.array([3., 1., 2., 4., -1.])
r = _roots.discrete_extrema(lambda n: v[n], np.arange(5))
assert r[-1] == 4, r
''', 'sign change with falling magnitude at the last grid cell',
     'the end point of the grid is no longer reported')

seed('c09-mirror-zero', 'C09', 'poly.py',
     [("        x0 = np.hstack([-x0[::-1], x0[1:]])", "        x0 = np.hstack([-x0[:0:-1], x0[1:]])")],
     '''
import numpy as np
from sparse_ir import poly
k = np.linspace(-1, 1, 3)
d = np.zeros((3, 2)); d[0] = 1.
p = poly.PiecewiseLegendreFT(poly.PiecewiseLegendrePoly(d, k, symm=1), 'even')
r = p.extrema(grid=np.arange(12))
assert 0 in r and (r == -r[::-1]).all(), r
''', 'an even bosonic function whose extremum lies at frequency zero',
     'zero is lost when mirroring the extrema')
