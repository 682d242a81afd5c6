"""Contracts for C18: evaluation at sampling points."""
import warnings
from .common import *

LEVEL = 'proof'
UR = T.fn('Ure', T.IS, T.RS, T.RS)
FR, FI = T.fn('Fre', T.IS, T.IS, T.RS), T.fn('Fim', T.IS, T.IS, T.RS)


class Basis:
    """contract of a basis: its functions at any points (C06, C10), default points"""
    is_well_conditioned = True
    statistics = 'F'

    def __init__(self, cx):
        self.cx = cx
        self.L = cx.dim('L', 1)
        self.size = cx.dimval(self.L)
        self.shape = self.size,
        self.asked = []

    def default_tau_sampling_points(self, npoints=None):
        self.asked.append('tau')
        return self.cx.array('default_tau', (self.cx.dim('M', 1),))

    def default_matsubara_sampling_points(self, npoints=None, positive_only=False):
        self.asked.append(positive_only)
        x = self.cx.array('default_wn', (self.cx.dim('M', 1),), 'i')
        return x

    def u(self, tau):
        s = asarr(tau).snap()
        return mk(lambda ix: E(UR(T.z(lin(ix[0])), T.z(R(s(ix[1:]).val)))),
                  (self.L,) + tuple(asarr(tau)._shape), S.F64)

    def uhat(self, n):
        s = asarr(n).snap()
        return mk(lambda ix: E(hat(ix[0], s(ix[1:]).val)), (self.L,) + tuple(asarr(n)._shape),
                  S.C128)


def hat(l, n):
    return Cx(FR(T.z(lin(l)), T.z(n)), FI(T.z(lin(l)), T.z(n)))


def tau_value(l, x):
    return UR(T.z(lin(l)), T.z(R(x)))


def build(cx, kind, given, b=None):
    """sampling object, its points (as given), value of function l at point m"""
    sm = cx.m('sampling')
    b = b or Basis(cx)
    pts = None
    if given:
        M = cx.dim('M', 1)
        pts = cx.array('points', (M,), 'f' if kind == 'tau' else 'i')
        if kind == 'positive':
            cx.assume_all([M], lambda i: T.ge(pts.v(i), 0))
    a = () if pts is None else (pts,)
    if kind == 'tau':
        s = cx.run(sm.TauSampling, b, *a, label='constructor')
    elif kind == 'positive':
        s = cx.run(sm.MatsubaraSampling, b, *a, positive_only=True, label='constructor')
    else:
        s = cx.run(sm.MatsubaraSampling, b, *a, label='constructor')
    f = tau_value if kind == 'tau' else hat
    return b, s, pts, f


def wmul(a, b):
    return T.mul(a, b)


def evaluate(kind, given, rank, axis, coef, shared=False):
    def f(cx):
        b, s, pts, fun = build(cx, kind, given)
        p = asarr(s.sampling_points)
        if given:
            i = cx.idx(p._shape[0])
            cx.prove_shape('points reported', p, (pts._shape[0],))
            cx.prove_elem('points reported as given', p.at(i), pts.v(i))
        else:
            cx.prove('default points', b.asked == ['tau' if kind == 'tau' else kind == 'positive']
                     and p._shape[0] is not None)
            i = cx.idx(p._shape[0])
            nm = 'default_tau' if kind == 'tau' else 'default_wn'
            cx.prove_elem('default points reported', p.at(i), fresh_array(
                cx.ctx, nm, p._shape, p.dtype).v(i))
        al2 = s.tau if kind == 'tau' else s.wn
        cx.prove_elem('alias', asarr(al2).at(i), p.v(i))
        cx.prove('basis reported', s.basis is b)
        if kind != 'tau':
            cx.prove('restriction reported', s.positive_only is (kind == 'positive'))
        M, L = p._shape[0], b.L
        A = asarr(s.matrix.a)
        m, l = cx.idx(M), cx.idx(L)
        cx.prove_shape('matrix', A, (M, L))
        cx.prove_elem('matrix entry', A.at(m, l), fun(l, p.v(m)))
        ax = axis if axis >= 0 else rank + axis
        dims = [L if d == ax else cx.dim(f'd{d}') for d in range(rank)]
        al = cx.array('al', dims, coef)
        r = cx.run(s.evaluate, al, axis)
        out = [M if d == ax else q for d, q in enumerate(dims)]
        cx.prove_shape('shape', r, out)
        ix = [cx.idx(q) for q in out]
        spec = rsum(L, lambda l: wmul(fun(l, p.v(ix[ax])),
                                      al.v(*ix[:ax], l, *ix[ax + 1:])))
        cx.prove_elem('sum of coefficient times function', asarr(r).at(*ix), spec)
        if rank == 1:
            r = cx.run(s.evaluate, al)
            cx.prove_elem('without axis', asarr(r).at(*ix), spec)
    return f


def other_points(kind):
    """evaluate(..., points=): as a sampling object of those points"""
    def f(cx):
        b, s, pts, fun = build(cx, kind, True)
        K = cx.dim('K', 1)
        q = cx.array('other', (K,), 'f' if kind == 'tau' else 'i')
        if kind == 'positive':
            cx.assume_all([K], lambda i: T.ge(q.v(i), 0))
        al = cx.array('al', (cx.dim('d0'), b.L), 'f')
        r = asarr(cx.run(s.evaluate, al, 1, points=q))
        cx.prove_shape('shape', r, (al._shape[0], K))
        i, m = cx.idx(al._shape[0]), cx.idx(K)
        cx.prove_elem('values at those points', r.at(i, m), rsum(
            b.L, lambda l: wmul(fun(l, q.v(m)), al.v(i, l))))
        p = asarr(s.sampling_points)
        k = cx.idx(p._shape[0])
        cx.prove_elem('own points kept', p.at(k), pts.v(k))
    return f


def wrong_length(kind):
    def f(cx):
        b, s, pts, fun = build(cx, kind, True)
        K = cx.dim('K')
        cx.assume(T.ne(K, b.L))
        d0 = cx.dim('d0', 1)
        for rank, axis, dims in ((1, 0, (K,)), (1, -1, (K,)), (2, 0, (K, d0)), (2, 1, (d0, K)),
                                 (3, -2, (d0, K, d0))):
            al = cx.array(f'al{rank}{axis}', dims)
            cx.raises(f'rank {rank} axis {axis}', ValueError, s.evaluate, al, axis)
    return f


def refused(cx):
    sm = cx.m('sampling')
    b = Basis(cx)
    M = cx.dim('M', 1)
    two = cx.array('two', (M, M))
    sc = cx.real('sc')
    cx.raises('times: matrix', ValueError, sm.TauSampling, b, two)
    cx.raises('times: scalar', ValueError, sm.TauSampling, b, sc)
    cx.raises('frequencies: matrix', ValueError, sm.MatsubaraSampling, b,
              cx.array('itwo', (M, M), 'i'))
    cx.raises('frequencies: scalar', ValueError, sm.MatsubaraSampling, b, cx.int('isc'))
    x = cx.array('x', (M,), 'i')
    k = cx.idx(M)
    cx.assume(T.lt(x.v(k), 0))
    cx.raises('negative frequency', ValueError, sm.MatsubaraSampling, b, x, positive_only=True)
    y = cx.array('y', (M,))
    j = z3.Int('j')
    cx.assume(T.and_(T.lt(z3.ToReal(j), y.v(k)), T.lt(y.v(k), z3.ToReal(j) + 1)))
    cx.decide(T.ge(y.v(k), 0))
    # ghost: distance of the truncated value from j
    cx.assume(T.eq(z3.Int('q'), T.sub(S.trunc(T.z(y.v(k))), j)))
    cx.raises('fractional frequency', ValueError, sm.MatsubaraSampling, b, y)


def matmul(split):
    """the decomposed matrices on their own: A @ x, matmul, conversion to an array"""
    def f(cx):
        sm = cx.m('sampling')
        M, L = cx.dim('M', 1), cx.dim('L', 1)
        a = cx.array('a', (M, L), 'c' if split else 'f')
        if split:
            K = cx.dim('K', 1)
            d = cx.run(sm.SplitDecomposedMatrix, a, (
                cx.array('su', (M, K), 'c'), cx.array('ss', (K,)), cx.array('sv', (K, L))))
        else:
            d = cx.run(sm.DecomposedMatrix, a)
        m, l = cx.idx(M), cx.idx(L)
        x, y = cx.array('x', (L,)), cx.array('y', (L, cx.dim('d')))
        j = cx.idx(y._shape[1])
        one = rsum(L, lambda l: wmul(a.v(m, l), x.v(l)))
        two = rsum(L, lambda l: wmul(a.v(m, l), y.v(l, j)))
        for nm, op in (('matmul', d.matmul), ('operator', d.__matmul__)):
            cx.prove_elem(nm + ': vector', asarr(cx.run(op, x)).at(m), one)
            cx.prove_elem(nm + ': matrix', asarr(cx.run(op, y)).at(m, j), two)
        cx.prove_elem('as array', asarr(cx.run(d.__array__)).at(m, l), a.v(m, l))
        cx.prove_elem('full matrix', asarr(d.a).at(m, l), a.v(m, l))
    return f


E_ = ['sampling.AbstractSampling.evaluate', 'sampling._matop_along_axis']
CLS = {'tau': ['sampling.TauSampling', 'sampling.DecomposedMatrix'],
       'freq': ['sampling.MatsubaraSampling', 'sampling.DecomposedMatrix',
                '_util.check_reduced_matsubara'],
       'positive': ['sampling.MatsubaraSampling', 'sampling.SplitDecomposedMatrix',
                    'sampling._split_complex', '_util.check_svd_result']}
SCENARIOS = []
for k_ in ('tau', 'freq', 'positive'):
    n_ = 0
    for r_ in (1, 2, 3, 4):
        for x_ in list(range(r_)) + [-1 - q for q in range(r_)]:
            n_ += 1
            SCENARIOS.append(Scenario(
                f'{k_}-rank{r_}-axis{x_}', evaluate(k_, n_ % 2 == 0, r_, x_, 'fc'[(n_ // 2) % 2]),
                functions=E_ + CLS[k_]))
    SCENARIOS += [Scenario(f'{k_}-points', other_points(k_), functions=E_ + CLS[k_]),
                  Scenario(f'{k_}-length', wrong_length(k_), functions=E_ + CLS[k_])]
SCENARIOS += [Scenario('refused', refused, functions=CLS['tau'][:1] + CLS['freq'][:1]),
              Scenario('matrix', matmul(False), functions=CLS['tau'][1:]),
              Scenario('split-matrix', matmul(True), functions=CLS['positive'][1:2])]
ASSUMED = ["values of the basis functions (C06, C10, C15)"]
BOUNDED = ["rank of the coefficient array: 1 to 4, every axis (lengths unbounded)"]
