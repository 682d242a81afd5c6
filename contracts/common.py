"""Building blocks shared by the contracts."""
from fractions import Fraction
import z3
from engine import terms as T
from engine import symarr as S
from engine.symarr import E, SArr, mk, scalar, asarr, dexpr, lin, wdb, Flat
from engine.scenario import Scenario, fresh_array, PathEnd
from engine.prover import EqGoal
from engine.symscipy import LEG, DLEG, JN
from engine.sums import make_sum
from engine.runtime import LoopContract
from engine.terms import Cx, Unsupported

Fr = Fraction


def rsum(dim, f):
    """Σ_{k<dim} f(k), f returning a scalar"""
    return make_sum([dim], lambda rx: E(f(rx[0])), False).val


def rsum2(d1, d2, f):
    return make_sum([d1, d2], lambda rx: E(f(rx[0], rx[1])), False).val


def R(x):
    return T.to_real(x)


def knots_array(cx, n, name='knots', lo=None, hi=None, strict=True):
    """n+1 increasing knots"""
    a = cx.array(name, (T.simp(n + 1),))
    cmp = T.lt if strict else T.le
    cx.assume_all([n], lambda i: cmp(a.v(i), a.v(T.add(lin(i), 1))))
    # consequence by induction (transitivity), usable at any pair
    cx.assume_all([n + 1, n + 1], lambda i, j: T.implies(
        T.lt(lin(i), lin(j)), cmp(a.v(i), a.v(j))))
    if lo is not None:
        cx.assume(T.eq(a.v(0), lo))
    if hi is not None:
        cx.assume(T.eq(a.v(n), hi))
    return a


def make_poly(cx, extra=('L',), lo=None, hi=None, symm=False, with_dx=False, name=''):
    """PiecewiseLegendrePoly built by its own constructor from arbitrary data"""
    poly = cx.m('poly')
    P = cx.dim(name + 'P', 1)
    I = cx.dim(name + 'I', 1)
    L = tuple(cx.dim(name + e, 1) if isinstance(e, str) else e for e in extra)
    data = cx.array(name + 'data', (P, I) + L)
    knots = knots_array(cx, I, name + 'knots', lo, hi)
    kw = {}
    if symm:
        kw['symm'] = cx.array(name + 'symm', L, 'i')
    if with_dx:
        dx = cx.array(name + 'dx', (I,))
        cx.assume_all([I], lambda i: T.eq(dx.v(i), T.sub(knots.v(T.add(lin(i), 1)), knots.v(i))))
        kw['dx'] = dx
    p = cx.run(poly.PiecewiseLegendrePoly, data, knots, label='constructor', **kw)
    p._c = (P, I, L, data, knots)
    return p


def seg_value(P, data, knots, i, l, x):
    """value of segment i of function l at x: sqrt(2/h) sum_p c_p P_p(2(x-m)/h)"""
    i1 = T.add(lin(i), 1)
    a, b = knots.v(i), knots.v(i1)
    h = T.sub(b, a)
    m = T.mul(Fr(1, 2), T.add(a, b))
    xt = T.mul(T.sub(x, m), T.div(Fr(2), h))
    s = rsum(P, lambda p: T.mul(data.v(p, i, *l), LEG(T.z(lin(p)), T.z(xt))))
    return T.mul(T.func('sqrt', T.div(Fr(2), h)), s)
