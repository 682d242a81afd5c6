"""C06 piecewise polynomial evaluation."""
from .common import *

LEVEL = 'proof'


def segment_ok(knots, I, i, x):
    """the chosen segment contains x, half-open except the last"""
    lo = knots.v(i)
    hi = knots.v(T.add(lin(i), 1))
    return T.and_(T.le(0, lin(i)), T.lt(lin(i), I), T.le(lo, x),
                  T.or_(T.lt(x, hi), T.and_(T.eq(x, hi), T.eq(T.add(lin(i), 1), I))))


def in_domain(cx, knots, I, x):
    cx.assume_all(x._shape, lambda *k: T.and_(T.le(knots.v(0), x.v(*k)),
                                              T.le(x.v(*k), knots.v(I))))


def split(cx):
    p = make_poly(cx, ())
    P, I, L, data, knots = p._c
    n = cx.dim('nx', 0)
    x = cx.array('x', (n,))
    in_domain(cx, knots, I, x)
    i, xt = cx.run(p._split, x)
    k = cx.idx(n, 'k')
    iv = i.v(k)
    cx.prove('segment index selects the segment containing x', segment_ok(knots, I, iv, x.v(k)))
    cx.prove('local coordinate in [-1, 1]', T.and_(T.le(-1, xt.v(k)), T.le(xt.v(k), 1)))


def evaluate(extra, nd):
    def f(cx):
        p = make_poly(cx, extra)
        P, I, L, data, knots = p._c
        xs = tuple(cx.dim('n%d' % q, 0) for q in range(nd))
        x = cx.array('x', xs) if nd else cx.real('x')
        in_domain(cx, knots, I, x)
        r = cx.run(p, x)
        cx.prove_shape('function axes first, argument axes last', r, L + xs)
        l = tuple(cx.idx(d, 'l') for d in L)
        k = tuple(cx.idx(d, 'k') for d in xs)
        iv = cx.idx(I, 'seg')
        cx.assume(segment_ok(knots, I, iv, x.v(*k)))
        cx.unify(iv)
        cx.prove_elem('value is the normalised expansion of the segment containing x',
                      cx.at(r, *l, *k), seg_value(P, data, knots, iv, l, x.v(*k)))
        cx.prove('argument not modified', T.eq(x.v(*k), fresh_array(
            cx.ctx, 'x', xs, S.F64).v(*k)))
    return f


def value(mode):
    def f(cx):
        p = make_poly(cx)
        P, I, (L,), data, knots = p._c
        if mode == 'scalar':
            l, x, xs = cx.int('l'), cx.real('x'), ()
            ls = ()
        elif mode == 'scalar-l':
            n = cx.dim('n', 0)
            l, x, xs = cx.int('l'), cx.array('x', (n,)), (n,)
            ls = ()
        else:
            n = cx.dim('n', 0)
            l, x, xs = cx.array('l', (n,), 'i'), cx.array('x', (n,)), (n,)
            ls = (n,)
        cx.assume_all(ls, lambda *k: T.and_(T.le(0, l.v(*k)), T.lt(l.v(*k), L)))
        in_domain(cx, knots, I, x)
        r = cx.run(p.value, l, x)
        cx.prove_shape('shape of the broadcast arguments', r, xs)
        k = tuple(cx.idx(d, 'k') for d in xs)
        iv = cx.idx(I, 'seg')
        cx.assume(segment_ok(knots, I, iv, x.v(*k)))
        cx.unify(iv)
        lv = l.v(*k) if ls else l.v()
        cx.prove_elem('value(l, x) is function l at x', cx.at(r, *k),
                      seg_value(P, data, knots, iv, (lv,), x.v(*k)))
    return f


def rejects(cx):
    """outside the interval: ValueError, whatever the other arguments are"""
    p = make_poly(cx, ())
    P, I, L, data, knots = p._c
    n = cx.dim('nx', 1)
    x = cx.array('x', (n,))
    k = cx.idx(n, 'bad')
    cx.assume(T.or_(T.lt(x.v(k), knots.v(0)), T.gt(x.v(k), knots.v(I))))
    cx.raises('argument outside the interval', ValueError, p, x)


def rejects_nan(cx):
    p = make_poly(cx, ())
    P, I, L, data, knots = p._c
    n = cx.dim('nx', 1)
    x = cx.array('x', (n,), nan=True)
    k = cx.idx(n, 'bad')
    cx.assume(x.at(k).nan)
    cx.raises('NaN argument', ValueError, p, x)


def ctor(what):
    def f(cx):
        poly = cx.m('poly')
        P, I, L = cx.dim('P', 1), cx.dim('I', 1), cx.dim('L', 1)
        data = cx.array('data', (P, I, L), nan=(what == 'nan'))
        kw = {}
        if what == 'nan':
            ix = (cx.idx(P), cx.idx(I), cx.idx(L))
            cx.assume(data.at(*ix).nan)
            knots = knots_array(cx, I)
        elif what == 'nknots':
            K = cx.dim('K', 1)
            cx.assume(T.ne(K, I + 1))
            knots = cx.array('knots', (K,))
        elif what == 'unsorted':
            knots = cx.array('knots', (I + 1,))
            j = cx.idx(I)
            cx.assume(T.gt(knots.v(j), knots.v(T.add(lin(j), 1))))
        elif what == 'dx':
            knots = knots_array(cx, I)
            kw['dx'] = dx = cx.array('dx', (I,))
            j = cx.idx(I)
            d = T.sub(knots.v(T.add(lin(j), 1)), knots.v(j))
            cx.assume(T.gt(T.abs_(T.sub(dx.v(j), d)), T.mul(Fr(1, 100), T.add(1, T.abs_(d)))))
        elif what == 'symm':
            knots = knots_array(cx, I)
            M = cx.dim('M', 0)
            cx.assume(T.ne(M, L))
            kw['symm'] = cx.array('symm', (M,), 'i')
        cx.raises(f'constructor rejects bad input ({what})', ValueError,
                  poly.PiecewiseLegendrePoly, data, knots, **kw)
    return f


def ctor_fields(cx):
    p = make_poly(cx, symm=True, with_dx=True)
    P, I, (L,), data, knots = p._c
    i, q, l = cx.idx(I), cx.idx(P), cx.idx(L)
    cx.prove('interval ends', T.and_(T.eq(cx.val(p.xmin), knots.v(0)),
                                     T.eq(cx.val(p.xmax), knots.v(I))))
    cx.prove_eq('data kept', p.data.v(q, i, l), data.v(q, i, l))
    cx.prove_eq('knots kept', p.knots.v(i), knots.v(i))
    cx.prove('symm kept', T.eq(p.symm.v(l), fresh_array(cx.ctx, 'symm', (L,), S.INT64).v(l)))
    cx.prove('constructor copies', not (p.data.buf is data.buf or p.knots.buf is knots.buf))


FN = ['poly.PiecewiseLegendrePoly.__init__', 'poly.PiecewiseLegendrePoly._split',
      '_util.check_range']
CALL = FN + ['poly.PiecewiseLegendrePoly.__call__']
VAL = FN + ['poly.PiecewiseLegendrePoly.value']
SCENARIOS = [
    Scenario('split', split, functions=FN),
    Scenario('call-vector-1d', evaluate(('L',), 1), functions=CALL),
    Scenario('call-vector-0d', evaluate(('L',), 0), functions=CALL),
    Scenario('call-scalar-1d', evaluate((), 1), functions=CALL),
    Scenario('call-matrix-2d', evaluate(('L', 'M'), 2), functions=CALL),
    Scenario('call-scalar-0d', evaluate((), 0), functions=CALL),
    Scenario('value-scalar', value('scalar'), functions=VAL),
    Scenario('value-scalar-l', value('scalar-l'), functions=VAL),
    Scenario('value-arrays', value('arrays'), functions=VAL),
    Scenario('reject-outside', rejects, functions=CALL),
    Scenario('reject-nan', rejects_nan, functions=CALL),
    Scenario('ctor-fields', ctor_fields, functions=FN),
] + [Scenario('ctor-reject-' + w, ctor(w), functions=FN[:1])
     for w in ('nan', 'nknots', 'unsorted', 'dx', 'symm')]
BOUNDED = ["argument ranks above 2 and function-axis ranks above 2",
           "ellipsis, lists and non-float argument types (battery)"]
