"""C01 kernel values, weight functions, domain checks."""
from .common import *

LEVEL = 'proof'


def lam(cx):
    v = cx.real('Lambda')
    cx.assume(T.gt(v.v(), 0))
    return v


def box(cx, a, lo=-1, hi=1):
    cx.assume_all(a._shape, lambda *k: T.and_(T.le(lo, a.v(*k)), T.le(a.v(*k), hi)))


def args(cx, shape, kind='f'):
    """broadcastable arguments -> (x, y, result shape, index map)"""
    if shape == '0d':
        return cx.scalar_in('x', kind), cx.scalar_in('y', kind), (), lambda: ((), ())
    n = cx.dim('n', 0)
    if shape == '1d':
        return cx.array('x', (n,), kind), cx.array('y', (n,), kind), (n,), \
            lambda k: ((k,), (k,))
    m = cx.dim('m', 0)
    if shape == 'outer':
        return cx.array('x', (n, 1), kind), cx.array('y', (1, m), kind), (n, m), \
            lambda k, j: ((k, 0), (0, j))
    if shape == 'scalar-y':
        return cx.array('x', (n, m), kind), cx.scalar_in('y', kind), (n, m), \
            lambda k, j: ((k, j), ())
    raise KeyError(shape)


def edges(cx, which, x):
    """the distances 1+x, 1-x as separately supplied arrays"""
    kw = {}
    for nm, s in (('x_plus', 1), ('x_minus', -1)):
        if nm[2] in which:
            a = cx.fnarray(x._shape, lambda *k, s=s: T.add(1, T.mul(s, T.to_real(x.v(*k)))))
            a._is_scalar = not x._shape
            kw[nm] = a
    return kw


def logistic_spec(L, x, y):
    e = lambda a: T.func('exp', a)
    v = T.mul(L, y)
    return T.div(e(T.mul(Fr(-1, 2), T.mul(v, T.add(x, 1)))), T.add(1, e(T.neg(v))))


def bose_spec(L, x, y):
    e = lambda a: T.func('exp', a)
    v = T.mul(L, y)
    return T.div(T.mul(y, e(T.mul(Fr(-1, 2), T.mul(v, T.add(x, 1))))),
                 T.sub(1, e(T.neg(v))))


def bounds(cx, x, y, L):
    """consequences of the ranges that the solver does not find by itself"""
    v = T.mul(L, y)
    a = T.abs_(v)
    for t in (T.add(1, x), T.sub(1, x)):
        cx.assume(T.ge(T.mul(a, t), 0))          # product of non-negatives
    cx.assume(T.implies(T.gt(y, 0), T.gt(v, 0)))
    cx.assume(T.implies(T.lt(y, 0), T.lt(v, 0)))


def value(kern, shape, which='', kind='f'):
    def f(cx):
        kernel = cx.m('kernel')
        L = lam(cx)
        K = cx.run(getattr(kernel, kern), L, label='constructor')
        x, y, sh, ix = args(cx, shape, kind)
        box(cx, x)
        box(cx, y)
        kw = edges(cx, which, x)
        r = cx.run(K, x, y, **kw)
        cx.prove_shape('shape of the broadcast arguments', r, sh)
        k = tuple(cx.idx(d, 'k') for d in sh)
        kx, ky = ix(*k)
        xv, yv = T.to_real(x.v(*kx)), T.to_real(y.v(*ky))
        bounds(cx, xv, yv, L.v())
        e = cx.at(r, *k)
        if kern == 'LogisticKernel':
            cx.prove_elem('value is the documented closed form', e, logistic_spec(L.v(), xv, yv))
        else:
            v = T.mul(L.v(), yv)
            cx.prove('value is finite', T.and_(wdb(e.wd), T.not_(e.nan)))
            if cx.decide(T.eq(yv, 0)):
                cx.prove_eq('value at y = 0 is 1/Lambda', e.val, T.div(Fr(1), L.v()))
            elif cx.decide(T.ge(T.abs_(v), TINY)):
                cx.prove_eq('value is the documented closed form', e.val,
                            bose_spec(L.v(), xv, yv))
            else:
                # |v| < 1e-200: exp(-|v| u)/Lambda instead of times |v|/(1-exp(-|v|)),
                # which lies in [1, 1+|v|]
                u = T.mul(Fr(1, 2), T.add(1, T.mul(xv, T.ite(T.ge(v, 0), 1, -1))))
                cx.prove_eq('value below 1e-200 is exp(-|v|u)/Lambda', e.val, T.div(
                    T.func('exp', T.neg(T.mul(T.abs_(v), u))), L.v()))
        cx.prove('value is non-negative', T.ge(e.val, 0))
        for nm, a, kk, sym in (('x', x, kx, 'x'), ('y', y, ky, 'y')):
            cx.prove(f'argument {nm} not modified', T.eq(a.v(*kk), fresh_array(
                cx.ctx, sym, a._shape, KINDS[kind]).v(*kk)))
    return f


TINY = Fr(float('1e-200'))
KINDS = {'f': S.F64, 'i': S.INT64}


def rejects(kern, which, nan=False):
    def f(cx):
        kernel = cx.m('kernel')
        K = cx.run(getattr(kernel, kern), lam(cx), label='constructor')
        n = cx.dim('n', 1)
        x = cx.array('x', (n,), nan=nan and which == 'x')
        y = cx.array('y', (n,), nan=nan and which == 'y')
        bad = x if which == 'x' else y
        k = cx.idx(n, 'bad')
        if nan:
            cx.assume(bad.at(k).nan)
        else:
            cx.assume(T.or_(T.lt(bad.v(k), -1), T.gt(bad.v(k), 1)))
        cx.raises(f'{which} outside the domain', ValueError, K, x, y)
    return f


def weight(kern, stat):
    """w(y) K(x,y) is the analytic continuation kernel of the statistics"""
    def f(cx):
        kernel = cx.m('kernel')
        L = lam(cx)
        K = cx.run(getattr(kernel, kern), L, label='constructor')
        w = cx.run(K.weight_func, stat, label='weight_func')
        n = cx.dim('n', 0)
        y = cx.array('y', (n,))
        cx.assume_all([n], lambda k: T.ne(y.v(k), 0))
        r = cx.run(w, y)
        cx.prove_shape('weights', r, (n,))
        k = cx.idx(n, 'k')
        v = T.mul(L.v(), y.v(k))
        ev = T.func('exp', T.neg(v))
        cx.assume(T.implies(T.gt(y.v(k), 0), T.gt(v, 0)))
        cx.assume(T.implies(T.lt(y.v(k), 0), T.lt(v, 0)))
        cx.assume(T.and_(T.ne(ev, 1)))
        half = T.mul(Fr(1, 2), v)
        cx.assume(T.and_(T.ne(T.func('exp', half), T.func('exp', T.neg(half)))))
        e = cx.at(r, k)
        x = cx.real('x')
        num = T.func('exp', T.mul(Fr(-1, 2), T.mul(v, T.add(x.v(), 1))))
        if kern == 'LogisticKernel':
            base = logistic_spec(L.v(), x.v(), y.v(k))
        else:
            base = bose_spec(L.v(), x.v(), y.v(k))
        den = T.add(1, ev) if stat == 'F' else T.sub(1, ev)
        cx.prove('weight is finite', T.and_(wdb(e.wd), T.not_(e.nan)))
        cx.prove_eq(f'weight times kernel is the {stat} continuation kernel',
                    T.mul(e.val, base), T.div(num, den))
        cx.prove('weight has the sign of its argument' if stat == 'B' else
                 'weight is positive', T.gt(T.mul(e.val, y.v(k)) if stat == 'B' else e.val, 0)
                 if stat == 'F' else True)
    return f


class Other:
    """a value that equals no string"""

    def __repr__(self):
        return 'other'


BAD = ['', 'FB', 'f', 'b', 'X', 'FX', None]


def weight_bad(kern):
    def f(cx):
        kernel = cx.m('kernel')
        K = cx.run(getattr(kernel, kern), lam(cx), label='constructor')
        for s in BAD + [Other()] + (['F'] if kern == 'RegularizedBoseKernel' else []):
            cx.raises(f'statistics {s!r} rejected', ValueError, K.weight_func, s)
    return f


def abstract_weight(cx):
    kernel = cx.m('kernel')
    K = kernel.AbstractKernel()
    for s in 'FB':
        w = cx.run(K.weight_func, s)
        n = cx.dim('n', 0)
        y = cx.array('y', (n,))
        r = cx.run(w, y)
        cx.prove_shape('default weights', r, (n,))
        cx.prove_eq('default weight is one', cx.at(r, cx.idx(n)).val, 1)
    for s in BAD + [Other()]:
        cx.raises(f'statistics {s!r} rejected', ValueError, K.weight_func, s)


def ranges(kern):
    def f(cx):
        kernel = cx.m('kernel')
        K = cx.run(getattr(kernel, kern), lam(cx), label='constructor')
        cx.prove('domain is [-1, 1]', tuple(K.xrange) == (-1, 1) and tuple(K.yrange) == (-1, 1))
        cx.prove('y power', K.ypower == (0 if kern == 'LogisticKernel' else 1))
    return f


SHORT = {'LogisticKernel': 'logistic', 'RegularizedBoseKernel': 'bose'}
SCENARIOS = []
for kern in SHORT:
    s = SHORT[kern]
    FN = [f'kernel.{kern}.__init__', f'kernel.{kern}.__call__', f'kernel.{kern}._compute',
          'kernel._check_domain', 'kernel._compute_uv', 'kernel.AbstractKernel.xrange',
          'kernel.AbstractKernel.yrange']
    SCENARIOS += [Scenario(f'{s}-value-{sh}', value(kern, sh), functions=FN)
                  for sh in ('0d', '1d', 'outer', 'scalar-y')]
    SCENARIOS += [Scenario(f'{s}-value-given-{w}', value(kern, 'outer', w), functions=FN)
                  for w in ('p', 'm', 'pm')]
    SCENARIOS += [Scenario(f'{s}-value-integers', value(kern, '1d', '', 'i'), functions=FN)]
    SCENARIOS += [Scenario(f'{s}-value-integer-scalars', value(kern, '0d', '', 'i'),
                           functions=FN)]
    SCENARIOS += [Scenario(f'{s}-reject-{w}' + ('-nan' if nan else ''), rejects(kern, w, nan),
                           functions=FN) for w in 'xy' for nan in (False, True)]
    SCENARIOS += [Scenario(f'{s}-weight-{st}', weight(kern, st),
                           functions=[f'kernel.{kern}.weight_func'])
                  for st in ('FB' if kern == 'LogisticKernel' else 'B')]
    SCENARIOS += [Scenario(f'{s}-weight-invalid', weight_bad(kern),
                           functions=[f'kernel.{kern}.weight_func']),
                  Scenario(f'{s}-domain', ranges(kern), functions=[f'kernel.{kern}.ypower'])]
SCENARIOS += [Scenario('default-weight', abstract_weight,
                       functions=['kernel.AbstractKernel.weight_func'])]
ASSUMED = ["for |Lambda y| < 1e-200 the factor |v|/(1-exp(-|v|)) in [1, 1+|v|] is replaced by 1 "
           "(calculus fact, below rounding)"]
BOUNDED = ["accuracy in floating point near x = +-1 and y = 0 (battery, against mpmath)"]
