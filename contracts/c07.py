"""C07 derivatives and sub-selection of piecewise polynomials."""
from .common import *
from .c06 import segment_ok, in_domain

LEVEL = 'proof'
PP = 'poly.PiecewiseLegendrePoly.'


def dseg_value(P, data, knots, i, l, x, n):
    """n-th derivative of the expansion on segment i (chain rule)"""
    a, b = knots.v(i), knots.v(T.add(lin(i), 1))
    h = T.sub(b, a)
    m = T.mul(Fr(1, 2), T.add(a, b))
    s = T.div(Fr(2), h)
    xt = T.mul(T.sub(x, m), s)
    f = rsum(P, lambda p: T.mul(data.v(p, i, *l), DLEG(T.z(n), T.z(lin(p)), T.z(xt))))
    r = T.mul(T.func('sqrt', s), f)
    for _ in range(n):
        r = T.mul(r, s)
    return r


def unchanged(cx, p, label=''):
    """the object keeps its attributes"""
    P, I, L, data, knots = p._c
    i, q = cx.idx(I), cx.idx(P)
    l = tuple(cx.idx(d) for d in L)
    cx.prove_eq(label + 'original data unchanged', p.data.v(q, i, *l),
                fresh_array(cx.ctx, 'data', (P, I) + L, S.F64).v(q, i, *l))
    cx.prove_eq(label + 'original knots unchanged', p.knots.v(i),
                fresh_array(cx.ctx, 'knots', (T.simp(I + 1),), S.F64).v(i))
    cx.prove_eq(label + 'original parity unchanged', p.symm.v(*l),
                fresh_array(cx.ctx, 'symm', L, S.INT64).v(*l))


def same_grid(cx, p, q):
    P, I, L, data, knots = p._c
    cx.prove_shape('knots', q.knots, (I + 1,))
    i, j = cx.idx(I), cx.idx(I + 1)
    cx.prove_eq('knots kept', q.knots.v(j), knots.v(j))
    cx.prove_eq('segment lengths kept', q.dx.v(i), p.dx.v(i))
    cx.prove('interval kept', T.and_(T.eq(cx.val(q.xmin), knots.v(0)),
                                     T.eq(cx.val(q.xmax), knots.v(I))))


def deriv(n, extra, default=False):
    def f(cx):
        p = make_poly(cx, extra, symm=True)
        P, I, L, data, knots = p._c
        cx.assume(T.gt(lin(P), n))
        q = cx.run(p.deriv) if default else cx.run(p.deriv, n)
        same_grid(cx, p, q)
        l = tuple(cx.idx(d, 'l') for d in L)
        cx.prove_shape('number of functions', q.symm, L)
        cx.prove_eq('parity flips with every derivative', q.symm.v(*l),
                    T.mul((-1)**n, p.symm.v(*l)))
        nx = cx.dim('nx', 0)
        x = cx.array('x', (nx,))
        in_domain(cx, knots, I, x)
        r = cx.run(q, x)
        k = cx.idx(nx)
        iv = cx.idx(I, 'seg')
        cx.assume(segment_ok(knots, I, iv, x.v(k)))
        cx.unify(iv)
        cx.prove_elem('value is the derivative of the expansion of the segment', r.at(*l, k),
                      dseg_value(P, data, knots, iv, l, x.v(k), n) if n else
                      seg_value(P, data, knots, iv, l, x.v(k)))
        unchanged(cx, p)
    return f


def deriv_high(cx):
    """more derivatives than the degree: zero"""
    p = make_poly(cx, ('L',), symm=True)
    P, I, L, data, knots = p._c
    cx.assume(T.le(lin(P), 2))
    q = cx.run(p.deriv, 2)
    x = cx.real('x')
    in_domain(cx, knots, I, x)
    r = cx.run(q, x)
    l = cx.idx(L[0])
    cx.prove_elem('zero', r.at(l), 0)
    same_grid(cx, p, q)


def deriv_twice(cx):
    """deriv(2) is deriv().deriv()"""
    p = make_poly(cx, ('L',), symm=True)
    P, I, L, data, knots = p._c
    cx.assume(T.gt(lin(P), 2))
    a, b = cx.run(p.deriv, 2), cx.run(cx.run(p.deriv).deriv)
    l, i = cx.idx(L[0]), cx.idx(I)
    x = cx.real('x')
    in_domain(cx, knots, I, x)
    iv = cx.idx(I, 'seg')
    cx.assume(segment_ok(knots, I, iv, x.v()))
    cx.unify(iv)
    cx.prove_eq('parity', a.symm.v(l), b.symm.v(l))
    same_grid(cx, p, b)


def selector(cx, kind, L):
    """-> selection object, axes of the result, index of selected functions"""
    if kind == 'int':
        l = cx.int('l')
        cx.assume(T.and_(T.le(T.neg(L), l.v()), T.lt(l.v(), L)))
        return l, (), lambda: T.ite(T.lt(l.v(), 0), T.add(l.v(), L), l.v())
    if kind == 'slice':
        k = cx.int('k')
        cx.assume(T.and_(T.le(0, k.v()), T.le(k.v(), L)))
        return slice(None, k), (k.v(),), lambda q: lin(q)
    if kind == 'slice-both':
        a, b = cx.int('a'), cx.int('b')
        cx.assume(T.and_(T.le(0, a.v()), T.le(a.v(), b.v()), T.le(b.v(), L)))
        return slice(a, b), (T.sub(b.v(), a.v()),), lambda q: T.add(lin(q), a.v())
    if kind == 'reverse':
        return slice(None, None, -1), (L,), lambda q: T.sub(T.sub(L, 1), lin(q))
    if kind == 'list':
        n = cx.dim('nsel', 0)
        a = cx.array('sel', (n,), 'i')
        cx.assume_all([n], lambda k: T.and_(T.le(0, a.v(k)), T.lt(a.v(k), L)))
        return a, (n,), lambda q: a.v(q)
    if kind == 'list2':
        a, b = cx.int('l0'), cx.int('l1')
        for t in (a, b):
            cx.assume(T.and_(T.le(0, t.v()), T.lt(t.v(), L)))
        return [a, b], (2,), lambda q: T.ite(T.eq(lin(q), 0), a.v(), b.v())
    if kind == 'all':
        return slice(None), (L,), lambda q: lin(q)
    raise ValueError(kind)


def select(kind, what='eval'):
    def f(cx):
        p = make_poly(cx, ('L',), symm=True)
        P, I, (L,), data, knots = p._c
        sel, ax, at = selector(cx, kind, L)
        s = cx.run(lambda: p[sel])
        q = tuple(cx.idx(d, 'q') for d in ax)
        lv = at(*q)
        same_grid(cx, p, s)
        cx.prove_shape('selected functions', s.data, (P, I) + ax)
        cx.prove_shape('selected parities', s.symm, ax)
        cx.prove('a new polynomial of the same kind', type(s) is type(p) and s is not p)
        i, pp = cx.idx(I), cx.idx(P)
        cx.prove_elem('expansion of the selected function', s.data.at(pp, i, *q),
                      data.v(pp, i, lv))
        cx.prove_eq('parity of the selected function', s.symm.v(*q), p.symm.v(lv))
        nx = cx.dim('nx', 0)
        x = cx.array('x', (nx,))
        in_domain(cx, knots, I, x)
        k = cx.idx(nx)
        iv = cx.idx(I, 'seg')
        cx.assume(segment_ok(knots, I, iv, x.v(k)))
        cx.unify(iv)
        if what == 'eval':
            r = cx.run(s, x)
            cx.prove_shape('evaluated selection', r, ax + (nx,))
            cx.prove_elem('selecting commutes with evaluation', r.at(*q, k),
                          seg_value(P, data, knots, iv, (lv,), x.v(k)))
            unchanged(cx, p)
        else:
            cx.assume(T.gt(lin(P), 1))
            d = cx.run(s.deriv)
            r = cx.run(d, x)
            cx.prove_eq('parity of the derivative', d.symm.v(*q), T.neg(p.symm.v(lv)))
            cx.prove_elem('selecting commutes with differentiation', r.at(*q, k),
                          dseg_value(P, data, knots, iv, (lv,), x.v(k), 1))
            d2 = cx.run(lambda: cx.run(p.deriv)[sel])
            cx.prove_eq('selection of the derivative: parity', d2.symm.v(*q), d.symm.v(*q))
            r2 = cx.run(d2, x)
            cx.prove_elem('selection of the derivative', r2.at(*q, k),
                          dseg_value(P, data, knots, iv, (lv,), x.v(k), 1))
    return f


def select_mask(cx):
    p = make_poly(cx, ('L',), symm=True)
    P, I, (L,), data, knots = p._c
    m = cx.array('mask', (L,), 'b')
    s = cx.run(lambda: p[m])
    ref = cx.run(lambda: data[:, :, m])
    sy = cx.run(lambda: p.symm[m])
    q = cx.idx(sy._shape[0])
    i, pp = cx.idx(I), cx.idx(P)
    cx.prove_shape('as many functions as the mask has', s.data, (P, I, sy._shape[0]))
    cx.prove_elem('functions where the mask is set, in order', s.data.at(pp, i, q),
                  ref.v(pp, i, q))
    cx.prove_eq('their parities', s.symm.v(q), sy.v(q))
    same_grid(cx, p, s)


def select_2d(kind):
    def f(cx):
        p = make_poly(cx, ('L', 'M'), symm=True)
        P, I, (L, M), data, knots = p._c
        a = cx.int('la')
        cx.assume(T.and_(T.le(0, a.v()), T.lt(a.v(), L)))
        b = cx.int('lb')
        cx.assume(T.and_(T.le(0, b.v()), T.lt(b.v(), M)))
        if kind == 'both':
            sel, ax, at = (a, b), (), lambda: (a.v(), b.v())
        elif kind == 'first':
            sel, ax, at = a, (M,), lambda q: (a.v(), lin(q))
        elif kind == 'second':
            sel, ax, at = (slice(None), b), (L,), lambda q: (lin(q), b.v())
        else:
            sel, ax, at = (slice(None, b), slice(a, None)), None, None
            cx.assume(T.and_(T.le(b.v(), L), T.le(a.v(), M)))
            ax = (b.v(), T.sub(M, a.v()))
            at = lambda q, r: (lin(q), T.add(lin(r), a.v()))
        s = cx.run(lambda: p[sel])
        q = tuple(cx.idx(d, 'q') for d in ax)
        i, pp = cx.idx(I), cx.idx(P)
        cx.prove_shape('selected functions', s.data, (P, I) + ax)
        cx.prove_shape('selected parities', s.symm, ax)
        cx.prove_elem('expansion of the selected function', s.data.at(pp, i, *q),
                      data.v(pp, i, *at(*q)))
        cx.prove_eq('parity of the selected function', s.symm.v(*q), p.symm.v(*at(*q)))
        same_grid(cx, p, s)
        unchanged(cx, p)
    return f


def select_ft(cx):
    """selection of Fourier transforms: same polynomial selection, same
    statistics and cutoff, model of the selected functions"""
    poly = cx.m('poly')
    for freq, zeta in (('even', 0), ('odd', 1)):
        p = make_poly(cx, ('L',), lo=-1, hi=1, symm=True)
        P, I, (L,), data, knots = p._c
        nm = cx.dim('nm', 1)
        mom = cx.array('moments', (nm, L))
        model = cx.run(poly._PowerModel, mom)
        na = cx.real('n_asymp')
        ft = cx.run(poly.PiecewiseLegendreFT, p, freq, na, model)
        cx.prove('given model kept', ft._model is model)
        k = cx.int('k')
        cx.assume(T.and_(T.le(0, k.v()), T.le(k.v(), L)))
        s = cx.run(lambda: ft[:k])
        i, pp, q, m = cx.idx(I), cx.idx(P), cx.idx(k.v()), cx.idx(nm)
        cx.prove('a new object of the same kind', type(s) is type(ft) and s is not ft)
        cx.prove('statistics kept', s.freq == freq and s.zeta == zeta)
        cx.prove('cutoff kept', T.eq(cx.val(s.n_asymp), na.v()))
        cx.prove_shape('selected functions', s.poly.data, (P, I, k.v()))
        cx.prove_elem('polynomials selected', s.poly.data.at(pp, i, q), data.v(pp, i, q))
        cx.prove_shape('moments', s._model.moments, (nm, k.v()))
        cx.prove_elem('moments selected', s._model.moments.at(m, q), mom.v(m, q))
        l = cx.int('l')
        cx.assume(T.and_(T.le(0, l.v()), T.lt(l.v(), L)))
        s = cx.run(lambda: ft[l])
        cx.prove_shape('single function', s.poly.data, (P, I))
        cx.prove_elem('single polynomial', s.poly.data.at(pp, i), data.v(pp, i, l.v()))
        cx.prove_shape('moments of one function', s._model.moments, (nm, 1))
        cx.prove_elem('moments of that function', s._model.moments.at(m, 0), mom.v(m, l.v()))
        cx.prove_shape('scalar shape', s.poly.symm, ())
        # without asymptotic model: infinite cutoff
        cx.patch('poly', '_power_model', lambda freq, poly: 'unused model')
        ft = cx.run(poly.PiecewiseLegendreFT, p, freq)
        s = cx.run(lambda: ft[:k])
        cx.prove('never uses a model', s.n_asymp == ft.n_asymp == float('inf'))
        cx.prove_elem('polynomials selected (no model)', s.poly.data.at(pp, i, q),
                      data.v(pp, i, q))


DER = [PP + 'deriv', PP + '__init__', PP + '__call__', PP + '_split']
GET = [PP + '__getitem__', PP + '__init__', PP + '__call__', PP + '_split']
SCENARIOS = [Scenario(f'deriv-{n}-{len(e)}d', deriv(n, e), functions=DER)
             for n, e in ((0, ('L',)), (1, ('L',)), (2, ('L',)), (3, ('L',)), (1, ()),
                          (2, ('L', 'M')))] + [
    Scenario('deriv-default', deriv(1, ('L',), True), functions=DER),
    Scenario('deriv-above-degree', deriv_high, functions=DER),
    Scenario('deriv-twice', deriv_twice, functions=DER)] + [
    Scenario('select-' + k, select(k), functions=GET)
    for k in ('int', 'slice', 'slice-both', 'reverse', 'list', 'list2', 'all')] + [
    Scenario('select-mask', select_mask, functions=GET)] + [
    Scenario('select-deriv-' + k, select(k, 'deriv'), functions=GET + DER[:1])
    for k in ('int', 'slice', 'list')] + [
    Scenario('select-2d-' + k, select_2d(k), functions=GET)
    for k in ('both', 'first', 'second', 'ranges')] + [
    Scenario('select-transform', select_ft, functions=[
        'poly.PiecewiseLegendreFT.__getitem__', 'poly._PowerModel.__getitem__',
        'poly.PiecewiseLegendreFT.__init__'])]
ASSUMED = ["chain rule: d/dx of P_p(2 (x - m) / h) is (2 / h) P_p'(...)"]
BOUNDED = ["derivative orders above 3 (battery)"]
