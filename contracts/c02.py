"""C02 reduced (even, odd) kernels."""
from .common import *
from .c01 import (lam, args, edges, bounds, box, logistic_spec, bose_spec, TINY, KINDS, SHORT)

LEVEL = 'proof'


def reduced(kern, sign, shape, which='', kind='f'):
    def f(cx):
        kernel = cx.m('kernel')
        L = lam(cx)
        K = cx.run(getattr(kernel, kern), L, label='constructor')
        Kr = cx.run(K.get_symmetrized, sign, label='get_symmetrized')
        x, y, sh, ix = args(cx, shape, kind)
        box(cx, x, 0)
        box(cx, y, 0)
        kw = {}
        for nm, fn in (('x_plus', lambda *k: T.to_real(x.v(*k))),
                       ('x_minus', lambda *k: T.sub(1, T.to_real(x.v(*k))))):
            if nm[2] in which:
                kw[nm] = cx.fnarray(x._shape, fn)
                kw[nm]._is_scalar = not x._shape
        r = cx.run(Kr, x, y, **kw)
        cx.prove_shape('shape of the broadcast arguments', r, sh)
        k = tuple(cx.idx(d, 'k') for d in sh)
        kx, ky = ix(*k)
        xv, yv = T.to_real(x.v(*kx)), T.to_real(y.v(*ky))
        bounds(cx, xv, yv, L.v())
        ev = lambda a: T.func('exp', a)
        v = T.mul(L.v(), yv)
        cx.assume(T.ge(T.mul(xv, v), 0))
        e = cx.at(r, *k)
        if kern == 'LogisticKernel':
            spec = T.add(logistic_spec(L.v(), xv, yv),
                         T.mul(sign, logistic_spec(L.v(), xv, T.neg(yv))))
            cx.prove_elem('value is K(x,y) + sign K(x,-y)', e, spec)
        else:
            cx.prove('value is finite', T.and_(wdb(e.wd), T.not_(e.nan)))
            if cx.decide(T.eq(yv, 0)):
                cx.prove_eq('value at y = 0', e.val,
                            T.div(Fr(2), L.v()) if sign == 1 else 0)
            elif cx.decide(T.ge(v, TINY)):
                h = T.mul(Fr(1, 2), v)
                cx.assume(T.and_(T.ne(ev(v), 1), T.ne(ev(T.neg(v)), 1),
                                 T.ne(ev(h), ev(T.neg(h)))))
                spec = T.add(bose_spec(L.v(), xv, yv),
                             T.mul(sign, bose_spec(L.v(), xv, T.neg(yv))))
                cx.prove_eq('value is K(x,y) + sign K(x,-y)', e.val, spec)
            else:
                up = T.mul(Fr(1, 2), T.add(1, xv))
                um = T.mul(Fr(1, 2), T.sub(1, xv))
                cx.prove_eq('value below 1e-200 is the sum of the two limits', e.val, T.div(
                    T.add(ev(T.neg(T.mul(v, up))), T.mul(sign, ev(T.neg(T.mul(v, um))))),
                    L.v()))
        if sign == 1:
            cx.prove('even kernel is non-negative', T.ge(e.val, 0))
        for a, kk, sym in ((x, kx, 'x'), (y, ky, 'y')):
            cx.prove(f'argument {sym} not modified', T.eq(a.v(*kk), fresh_array(
                cx.ctx, sym, a._shape, KINDS[kind]).v(*kk)))
    return f


def rejects(kern, sign, which, nan=False):
    def f(cx):
        kernel = cx.m('kernel')
        K = cx.run(getattr(kernel, kern), lam(cx), label='constructor')
        Kr = cx.run(K.get_symmetrized, sign, label='get_symmetrized')
        n = cx.dim('n', 1)
        x = cx.array('x', (n,), nan=nan and which == 'x')
        y = cx.array('y', (n,), nan=nan and which == 'y')
        bad = x if which == 'x' else y
        k = cx.idx(n, 'bad')
        cx.assume(bad.at(k).nan if nan else T.or_(T.lt(bad.v(k), 0), T.gt(bad.v(k), 1)))
        cx.raises(f'{which} outside the quadrant', ValueError, Kr, x, y)
    return f


def centro(kern):
    """K(x, y) = K(-x, -y), from the code's own values"""
    def f(cx):
        kernel = cx.m('kernel')
        L = lam(cx)
        K = cx.run(getattr(kernel, kern), L, label='constructor')
        cx.prove('declared centrosymmetric', bool(K.is_centrosymmetric))
        x, y = cx.real('x'), cx.real('y')
        box(cx, x)
        box(cx, y)
        a = cx.run(K, x, y)
        b = cx.run(K, -x, -y)
        bounds(cx, x.v(), y.v(), L.v())
        cx.prove_eq('K(x,y) = K(-x,-y)', cx.at(a).val, cx.at(b).val)
    return f


def signs(kern):
    def f(cx):
        kernel = cx.m('kernel')
        K = cx.run(getattr(kernel, kern), lam(cx), label='constructor')
        s = cx.real('sign')
        cx.assume(T.ne(T.abs_(s.v()), 1))
        cx.raises('other sign', ValueError, K.get_symmetrized, s)
    return f


def sign_ok(kern):
    def f(cx):
        """1 and -1 given as any number equal to them"""
        kernel = cx.m('kernel')
        K = cx.run(getattr(kernel, kern), lam(cx), label='constructor')
        s = cx.real('sign')
        cx.assume(T.eq(T.abs_(s.v()), 1))
        Kr = cx.run(K.get_symmetrized, s)
        cx.prove('sign kept', T.eq(cx.val(Kr.sign), s.v()))
        cx.prove('inner kept', Kr.inner is K)
        cx.prove('domain is [0, 1]', tuple(Kr.xrange) == (0, 1) and tuple(Kr.yrange) == (0, 1))
        cx.prove('not centrosymmetric', Kr.is_centrosymmetric is False)
        cx.prove('scaling properties are those of the inner kernel', Kr.ypower == K.ypower)
        cx.prove('convergence radius', T.eq(cx.val(Kr.conv_radius), cx.val(K.conv_radius)))
        for t in (1, -1):
            cx.raises('second reduction', (RuntimeError, ValueError), Kr.get_symmetrized, t)
            cx.raises('second reduction by constructor', ValueError, kernel.ReducedKernel,
                      Kr, t)
    return f


def generic(sign, given):
    """any centrosymmetric kernel with the default reduction"""
    def f(cx):
        kernel = cx.m('kernel')
        KF = T.fn('KF', T.RS, T.RS, T.RS)
        seen = []

        class Any(kernel.AbstractKernel):
            is_centrosymmetric = True

            def __call__(self, x, y, x_plus=None, x_minus=None):
                seen.append((x, y, x_plus, x_minus))
                x, y = asarr(x), asarr(y)
                sh = S.broadcast_shape(x._shape, y._shape)
                return mk(lambda ix: E(KF(
                    T.z(T.to_real(x.at(*S.align_idx(ix, x._shape, sh)).val)),
                    T.z(T.to_real(y.at(*S.align_idx(ix, y._shape, sh)).val)))), sh, S.F64)
        K = Any()
        Kr = cx.run(K.get_symmetrized, sign, label='get_symmetrized')
        n, m = cx.dim('n', 0), cx.dim('m', 0)
        x, y = cx.array('x', (n, 1)), cx.array('y', (1, m))
        box(cx, x, 0)
        box(cx, y, 0)
        kw = {}
        if 'p' in given:
            kw['x_plus'] = cx.fnarray((n, 1), lambda *k: x.v(*k))
        if 'm' in given:
            kw['x_minus'] = cx.fnarray((n, 1), lambda *k: T.sub(1, x.v(*k)))
        r = cx.run(Kr, x, y, **kw)
        cx.prove_shape('shape', r, (n, m))
        k, j = cx.idx(n), cx.idx(m)
        xv, yv = x.v(k, 0), y.v(0, j)
        cx.prove_elem('value is K(x,y) + sign K(x,-y)', cx.at(r, k, j), T.add(
            KF(xv, yv), T.mul(sign, KF(xv, T.neg(yv)))))
        for a, b, p, q in seen:
            if p is not None:
                cx.prove_eq('inner kernel is told 1 + x', asarr(p).v(k, 0), T.add(1, xv))
            if q is not None:
                cx.prove_eq('inner kernel is told 1 - x', asarr(q).v(k, 0), T.sub(1, xv))
    return f


def not_centro(cx):
    kernel = cx.m('kernel')

    class Any(kernel.AbstractKernel):
        pass
    for s in (1, -1):
        cx.raises('kernel without symmetry', ValueError, Any().get_symmetrized, s)


SCENARIOS = []
for kern in SHORT:
    s = SHORT[kern]
    odd = {'LogisticKernel': '_LogisticKernelOdd',
           'RegularizedBoseKernel': '_RegularizedBoseKernelOdd'}[kern]
    FN = [f'kernel.{kern}.get_symmetrized', 'kernel.AbstractKernel.get_symmetrized',
          'kernel.ReducedKernel.__init__', 'kernel.ReducedKernel.__call__',
          'kernel.ReducedKernel.xrange', 'kernel.ReducedKernel.yrange',
          f'kernel.{kern}.__call__', f'kernel.{kern}._compute', 'kernel._check_domain',
          'kernel._compute_uv']
    for sg, nm in ((1, 'even'), (-1, 'odd')):
        fn = FN + ([f'kernel.{odd}.__call__'] if sg < 0 else [])
        SCENARIOS += [Scenario(f'{s}-{nm}-{sh}', reduced(kern, sg, sh), functions=fn)
                      for sh in ('0d', '1d', 'outer', 'scalar-y')]
        SCENARIOS += [Scenario(f'{s}-{nm}-given-{w}', reduced(kern, sg, 'outer', w),
                               functions=fn) for w in ('p', 'm', 'pm')]
        SCENARIOS += [Scenario(f'{s}-{nm}-integers-{sh}', reduced(kern, sg, sh, '', 'i'),
                               functions=fn) for sh in ('0d', '1d')]
        SCENARIOS += [Scenario(f'{s}-{nm}-reject-{w}' + ('-nan' if nan else ''),
                               rejects(kern, sg, w, nan), functions=fn)
                      for w in 'xy' for nan in (False, True)]
    SCENARIOS += [Scenario(f'{s}-centrosymmetric', centro(kern),
                           functions=[f'kernel.{kern}.is_centrosymmetric']),
                  Scenario(f'{s}-other-sign', signs(kern), functions=FN[:3]),
                  Scenario(f'{s}-unit-sign', sign_ok(kern),
                           functions=FN[:3] + ['kernel.ReducedKernel.get_symmetrized'])]
SCENARIOS += [Scenario(f'generic-{sg}-{g}', generic(sg, g),
                       functions=['kernel.ReducedKernel.__call__'])
              for sg in (1, -1) for g in ('', 'p', 'm', 'pm')]
SCENARIOS += [Scenario('not-centrosymmetric', not_centro,
                       functions=['kernel.ReducedKernel.__init__'])]
ASSUMED = ["for |Lambda y| < 1e-200 the factor |v|/(1-exp(-|v|)) in [1, 1+|v|] is replaced by 1 "
           "(calculus fact, below rounding)"]
BOUNDED = ["relative accuracy of the odd kernels near x y = 0 in floating point (battery)"]
