"""C10 Fourier transform of piecewise polynomials."""
from .common import *

LEVEL = 'proof'
SP = 'poly.'
Q = z3.RealVal


def ft_poly(cx, extra=('L',), **kw):
    return make_poly(cx, extra, lo=-1, hi=1, **kw)


def mid(knots, i):
    return T.mul(Fr(1, 2), T.add(knots.v(i), knots.v(T.add(lin(i), 1))))


def width(knots, i):
    return T.sub(knots.v(T.add(lin(i), 1)), knots.v(i))


def cis(phi):
    return T.func('exp', Cx(Fr(0), phi))


def ipow(p):
    """i^p"""
    return cis(T.mul(T.mul(Fr(1, 2), T.PI), R(p)))


def leg_integral(p, w, neg=None):
    """∫_{-1}^{1} exp(iwx) P_p(x) dx = 2 i^p j_p(w); j_p(-w) = (-1)^p j_p(w)"""
    neg = T.lt(w, 0) if neg is None else neg
    j = JN(T.z(lin(p)), T.z(T.ite(neg, T.neg(w), w)))
    t = ipow(lin(p))
    return T.mul(T.mul(Fr(2), Cx(t.re, T.ite(neg, T.neg(t.im), t.im))), j)


def seg_integral(P, data, knots, i, l, n):
    """1/sqrt(2) ∫_segment exp(i pi n (x+1)/2) p(x) dx"""
    h, m = width(knots, i), mid(knots, i)
    w = T.mul(T.mul(Fr(1, 4), T.PI), T.mul(R(n), h))
    ph = cis(T.mul(T.mul(Fr(1, 2), T.PI), T.mul(R(n), T.add(m, 1))))
    return T.func('sqrt', T.mul(Fr(1, 4), h)), ph, w


def normalisation(cx):
    """sqrt(2/h) (of the polynomial) * h/2 (dx = h/2 dt) / sqrt(2) = sqrt(h/4)"""
    h = cx.real('h').v()
    cx.assume(T.gt(h, 0))
    a = T.mul(T.mul(T.func('sqrt', T.div(Fr(2), h)), T.mul(Fr(1, 2), h)),
              T.func('sqrt', Fr(1, 2)))
    cx.prove_eq('normalisation of the segment integral', a, T.func('sqrt', T.mul(Fr(1, 4), h)))


def csum(dims, f):
    return make_sum(list(dims), lambda rx: E(f(*rx)), False).val


def integral(P, I, data, knots, l, n):
    t = term(P, I, data, knots, l, n)
    return csum((I, P), lambda i, p: t(i, p)[0])


def prove_cx(cx, label, e, spec):
    cx.prove_elem(label, e, spec)


def imag_power(cx):
    poly = cx.m('poly')
    n = cx.dim('n', 0)
    k = cx.array('k', (n,), 'i')
    r = cx.run(poly._imag_power, k)
    cx.prove_shape('shape', r, (n,))
    i = cx.idx(n)
    prove_cx(cx, 'power of i', r.at(i), ipow(k.v(i)))
    for q, v in ((0, (1, 0)), (1, (0, 1)), (2, (-1, 0)), (3, (0, -1))):
        e = ipow(q)
        cx.prove_eq('period four', T.re(e), Fr(v[0]))
        cx.prove_eq('period four', T.im(e), Fr(v[1]))
    cx.raises('non-integer powers', ValueError, poly._imag_power, cx.array('f', (n,)))


def tnl(cx):
    poly = cx.m('poly')
    P, n = cx.dim('P', 1), cx.dim('n', 0)
    w = cx.array('w', (n,))
    l = cx.array('l', (P, 1), 'i')
    cx.assume_all([P], lambda i: T.le(0, l.v(i, 0)))
    r = cx.run(poly._get_tnl, l, w)
    cx.prove_shape('shape', r, (P, n))
    p, k = cx.idx(P), cx.idx(n)
    prove_cx(cx, 'integral of a Legendre polynomial', r.at(p, k),
             leg_integral(l.v(p, 0), w.v(k)))
    cx.prove_eq('argument unchanged', w.v(k), fresh_array(cx.ctx, 'w', (n,), S.F64).v(k))


def shift_xmid(cx):
    poly = cx.m('poly')
    p = ft_poly(cx)
    P, I, L, data, knots = p._c
    diff, shift = cx.run(poly._shift_xmid, p.knots, p.dx)
    cx.telescope(lambda j: knots.v(j), lambda j: T.neg(knots.v(T.sub(I, lin(j)))))
    cx.prove_shape('difference', diff, (I,))
    cx.prove_shape('shift', shift, (I,))
    i = cx.idx(I)
    s = shift.v(i)
    cx.prove('shift is -1, 0 or 1', T.and_(T.le(-1, s), T.le(s, 1)))
    cx.prove_elem('shift plus difference is the midpoint', diff.at(i),
                  T.sub(mid(knots, i), R(s)))
    cx.prove_eq('knots unchanged', p.knots.v(i), knots.v(i))


def phase(cx):
    poly = cx.m('poly')
    p = ft_poly(cx)
    P, I, L, data, knots = p._c
    n = cx.dim('n', 0)
    wn = cx.array('wn', (n,), 'i')
    sh = cx.array('shift', (I,), 'i')

    def stub(kn, dx):
        j = cx.idx(I)
        cx.prove_eq('knots of the polynomial', kn.v(j), knots.v(j))
        cx.prove_eq('segment lengths of the polynomial', dx.v(j), width(knots, j))
        return cx.fnarray((I,), lambda i: T.sub(mid(knots, i), R(sh.v(i)))), sh
    cx.patch('poly', '_shift_xmid', stub)
    r = cx.run(poly._phase_stable, p, wn)
    cx.prove_shape('shape', r, (I, n))
    i, k = cx.idx(I), cx.idx(n)
    prove_cx(cx, 'phase of the midpoint', r.at(i, k), cis(
        T.mul(T.mul(Fr(1, 2), T.PI), T.mul(R(wn.v(k)), T.add(mid(knots, i), 1)))))


def inner(extra):
    def f(cx):
        poly = cx.m('poly')
        p = ft_poly(cx, extra)
        P, I, L, data, knots = p._c
        n = cx.dim('n', 0)
        wn = cx.array('wn', (n,), 'i')

        def phase_stub(q, w):
            cx.prove('phase of the same polynomial and frequencies', q is p and w is wn)
            return mk(lambda ix: E(cis(T.mul(T.mul(Fr(1, 2), T.PI), T.mul(
                R(wn.v(ix[1])), T.add(mid(knots, ix[0]), 1))))), (I, n), S.C128)
        cx.patch('poly', '_phase_stable', phase_stub)

        def tnl_stub(l, w):
            l, w = asarr(l), asarr(w)
            g, h = l.snap(), w.snap()
            from engine.symarr import broadcast_shape, align_idx
            sh = broadcast_shape(l._shape, w._shape)
            return mk(lambda ix: E(leg_integral(g(align_idx(ix, l._shape, sh)).val,
                                                h(align_idx(ix, w._shape, sh)).val)), sh, S.C128)
        cx.patch('poly', '_get_tnl', tnl_stub)
        r = cx.run(poly._compute_unl_inner, p, wn)
        cx.prove_shape('shape', r, L + (n,))
        l, k = tuple(cx.idx(d) for d in L), cx.idx(n)
        prove_cx(cx, 'sum over segments of the Fourier integrals', r.at(*l, k),
                 integral(P, I, data, knots, l, wn.v(k)))
        i, q = cx.idx(I), cx.idx(P)
        cx.prove_eq('polynomial unchanged', p.data.v(q, i, *l),
                    fresh_array(cx.ctx, 'data', (P, I) + L, S.F64).v(q, i, *l))
        cx.prove_eq('frequencies unchanged', wn.v(k), fresh_array(
            cx.ctx, 'wn', (n,), S.INT64).v(k))
    return f


def term(P, I, data, knots, l, n):
    def f(i, p):
        pre, ph, w = seg_integral(P, data, knots, i, l, n)
        return T.mul(T.mul(T.mul(pre, data.v(p, i, *l)), ph), leg_integral(p, w)), w
    return f


def positive_freq(cx, n, h):
    """pi n h / 4 has the sign of n"""
    w = T.mul(T.mul(Fr(1, 4), T.PI), T.mul(R(n), h))
    a, b = z3.Real('la'), z3.Real('lb')
    pos = cx.prove('product of positive numbers', z3.Implies(z3.And(a > 0, b > 0), a * b > 0))
    if pos:
        k = T.mul(T.mul(Fr(1, 4), T.PI), h)
        cx.prove('pi h / 4 is positive', T.gt(k, 0))
        cx.assume(z3.Implies(z3.And(T.z(R(n)) > 0, T.z(k) > 0), T.z(w) > 0))
        cx.assume(z3.Implies(z3.And(T.z(R(n)) > 0, T.z(k) > 0), T.z(T.neg(w)) < 0))
        m = T.neg(n)
        cx.assume(z3.Implies(z3.And(T.z(R(n)) > 0, T.z(k) > 0), T.z(T.mul(
            T.mul(Fr(1, 4), T.PI), T.mul(R(m), h))) < 0))


def conjugate(cx):
    """uhat(-n) = conj(uhat(n)), term by term"""
    p = ft_poly(cx)
    P, I, L, data, knots = p._c
    n = cx.int('n')
    cx.assume(T.gt(n.v(), 0))
    l, i, q = cx.idx(L[0]), cx.idx(I), cx.idx(P)
    positive_freq(cx, n.v(), width(knots, i))
    a, _ = term(P, I, data, knots, (l,), n.v())(i, q)
    b, _ = term(P, I, data, knots, (l,), T.neg(n.v()))(i, q)
    cx.prove_eq('real part', T.re(a), T.re(b))
    cx.prove_eq('imaginary part', T.im(a), T.neg(T.im(b)))


def parity(zeta, symm):
    """f(-x) = s f(x): F = s (-1)^n conj(F), segment by mirrored segment (n > 0); hence
    F is real if s = (-1)^n and imaginary otherwise.  The mirrored segment has the same
    width, the opposite midpoint, and coefficients s (-1)^p times those of the segment."""
    def f(cx):
        k, h = cx.int('k').v(), cx.int('h').v()
        n = T.add(T.mul(2, k), zeta)
        cx.assume(T.gt(n, 0))
        d, m, wd = cx.real('d').v(), cx.real('m').v(), cx.real('width').v()
        cx.assume(T.gt(wd, 0))
        for odd in (0, 1):
            p = T.add(T.mul(2, h), odd)

            def term(d, m):
                ph = cis(T.mul(T.mul(Fr(1, 2), T.PI), T.mul(R(n), T.add(m, 1))))
                w = T.mul(T.mul(Fr(1, 4), T.PI), T.mul(R(n), wd))
                pre = T.func('sqrt', T.mul(Fr(1, 4), wd))
                return T.mul(T.mul(T.mul(pre, d), ph), leg_integral(p, w, False))
            a = term(d, m)
            b = term(T.mul(symm * (-1)**odd, d), T.neg(m))
            s = symm * (-1)**zeta
            cx.prove_eq('real part', T.re(b), T.mul(s, T.re(a)))
            cx.prove_eq('imaginary part', T.im(b), T.mul(-s, T.im(a)))
    return f


UNR, UNI = T.fn('unl_re', T.IS, T.IS, T.RS), T.fn('unl_im', T.IS, T.IS, T.RS)
MDR, MDI = T.fn('mod_re', T.IS, T.IS, T.RS), T.fn('mod_im', T.IS, T.IS, T.RS)


class Model:
    """contract of the asymptotic model (C11)"""

    def __init__(self, cx, L):
        self.cx, self.L = cx, L

    def giw(self, wn):
        s = asarr(wn).snap()
        return mk(lambda ix: E(Cx(MDR(T.z(lin(ix[1])), T.z(s((ix[0],)).val)),
                                  MDI(T.z(lin(ix[1])), T.z(s((ix[0],)).val)))),
                  (asarr(wn)._shape[0], self.L), S.C128)


def call(freq, rank, asymp, kind='i'):
    def f(cx):
        poly = cx.m('poly')
        p = ft_poly(cx)
        P, I, (L,), data, knots = p._c
        if asymp:
            na = cx.int('n_asymp')
            ft = cx.run(poly.PiecewiseLegendreFT, p, freq, na, Model(cx, L), label='constructor')
        else:
            ft = cx.run(poly.PiecewiseLegendreFT, p, freq, label='constructor')
        seen = []

        def inner_stub(q, n):
            cx.prove('transforms its own polynomial', q is p)
            s = asarr(n).snap()
            return mk(lambda ix: E(Cx(UNR(T.z(lin(ix[0])), T.z(s((ix[1],)).val)),
                                      UNI(T.z(lin(ix[0])), T.z(s((ix[1],)).val)))),
                      (L, asarr(n)._shape[0]), S.C128)
        cx.patch('poly', '_compute_unl_inner', inner_stub)
        sh = tuple(cx.dim(f'n{k}', 0) for k in range(rank))
        n = cx.array('n', sh, kind) if rank else cx.scalar_in('n', kind)
        zeta = {'even': 0, 'odd': 1, 'any': None}[freq]
        q = tuple(cx.idx(d) for d in sh)
        if kind == 'f':
            cx.assume_all(sh, lambda *ix: z3.IsInt(T.z(n.v(*ix)))) if rank else \
                cx.assume(z3.IsInt(T.z(n.v())))
        iv = (lambda v: v) if kind == 'i' else (lambda v: z3.ToInt(T.z(v)))
        if zeta is not None:
            par = lambda *ix: T.eq(iv(n.v(*ix)) % 2, zeta)
            cx.assume_all(sh, par) if rank else cx.assume(par())
        r = cx.run(ft, n)
        cx.prove_shape('shape', r, (L,) + sh)
        l = cx.idx(L, 'l')
        v = iv(n.v(*q))
        mag = T.ite(T.lt(v, 0), T.neg(v), v)
        args = (T.z(l), T.z(v))
        e = r.at(l, *q)
        if asymp and cx.decide(T.ge(mag, na.v())):
            prove_cx(cx, 'asymptotic model at and beyond the cutoff', e,
                     Cx(MDR(*args), MDI(*args)))
        else:
            prove_cx(cx, 'Fourier integral below the cutoff', e, Cx(UNR(*args), UNI(*args)))
        o = fresh_array(cx.ctx, 'n', sh, S.INT64 if kind == 'i' else S.F64, scalar=not rank)
        cx.prove_eq('argument unchanged', n.v(*q), o.v(*q))
    return f


def rejects(freq, rank, kind):
    def f(cx):
        poly = cx.m('poly')
        p = ft_poly(cx)
        P, I, (L,), data, knots = p._c
        ft = cx.run(poly.PiecewiseLegendreFT, p, freq, label='constructor')
        sh = tuple(cx.dim(f'n{k}', 1) for k in range(rank))
        q = tuple(cx.idx(d) for d in sh)
        if kind == 'parity':
            n = cx.array('n', sh, 'i') if rank else cx.int('n')
            cx.assume(T.ne(n.v(*q) % 2, {'even': 0, 'odd': 1}[freq]))
        else:
            n = cx.array('n', sh, 'f', nan=kind == 'nan') if rank else cx.real('n')
            if kind == 'nan':
                cx.assume(n.at(*q).nan)
            else:
                v = T.z(n.v(*q))
                v = v if cx.decide(v >= 0) else -v
                cx.assume(z3.Not(z3.IsInt(v)))
                cx.assume(z3.ToReal(z3.ToInt(v)) != v)
        cx.raises(f'bad frequency ({kind})', ValueError, ft, n)
    return f


def interval(end):
    def f(cx):
        poly = cx.m('poly')
        p = make_poly(cx, ('L',))
        P, I, L, data, knots = p._c
        cx.assume(T.ne(knots.v(0), -1) if end == 'lower' else T.ne(knots.v(I), 1))
        cx.raises('interval other than [-1, 1]', NotImplementedError,
                  poly.PiecewiseLegendreFT, p, 'odd')
    return f


def unknown(cx):
    poly = cx.m('poly')
    p = ft_poly(cx)
    cx.raises('unknown kind of frequencies', (KeyError, ValueError),
              poly.PiecewiseLegendreFT, p, 'other')


def check_freq(zeta, kind):
    def f(cx):
        u = cx.m('_util')
        d = cx.dim('n', 0)
        n = cx.array('n', (d,), kind)
        if zeta is not None:
            cx.assume_all([d], lambda i: T.eq(
                (n.v(i) if kind == 'i' else z3.ToInt(T.z(n.v(i)))) % 2, zeta))
        if kind == 'f':
            cx.assume_all([d], lambda i: z3.IsInt(T.z(n.v(i))))
        r = cx.run(u.check_reduced_matsubara, n, *([] if zeta is None else [zeta]))
        cx.prove_shape('shape', r, (d,))
        i = cx.idx(d)
        cx.prove('integer type', np_int(r))
        cx.prove_elem('same frequencies', r.at(i), n.v(i))
    return f


def np_int(r):
    return r.dtype.kind == 'i'


IN = ['poly._compute_unl_inner']
CA = ['poly.PiecewiseLegendreFT.__call__', 'poly.PiecewiseLegendreFT.__init__',
      '_util.RavelArgumentDecorator.__call__', '_util.check_reduced_matsubara']
SCENARIOS = [Scenario('imag-power', imag_power, functions=['poly._imag_power']),
             Scenario('legendre-integral', tnl, functions=['poly._get_tnl']),
             Scenario('midpoints', shift_xmid, functions=['poly._shift_xmid']),
             Scenario('phase', phase, functions=['poly._phase_stable']),
             Scenario('transform-single', inner(()), functions=IN),
             Scenario('transform-vector', inner(('L',)), functions=IN),
             Scenario('transform-matrix', inner(('L', 'M')), functions=IN),
             Scenario('normalisation', normalisation, functions=[]),
             Scenario('conjugate', conjugate, functions=[]),
             *[Scenario(f'parity-{z}-{s}', parity(z, s), functions=[])
               for z in (0, 1) for s in (1, -1)],
             Scenario('interval-lower', interval('lower'), functions=CA[1:2]),
             Scenario('interval-upper', interval('upper'), functions=CA[1:2]),
             Scenario('unknown-kind', unknown, functions=CA[1:2])]
for z_ in (0, 1, None):
    for k_ in 'if':
        SCENARIOS.append(Scenario(f'frequencies-{z_}-{k_}', check_freq(z_, k_), functions=CA[3:]))
for fr_ in ('even', 'odd', 'any'):
    for rk_ in (0, 1, 2):
        for as_ in (False, True):
            if fr_ == 'any' and rk_ != 1:
                continue
            SCENARIOS.append(Scenario(f"call-{fr_}-{rk_}{'-asymp' if as_ else ''}",
                                      call(fr_, rk_, as_), functions=CA))
SCENARIOS.append(Scenario("call-odd-1-float", call('odd', 1, True, 'f'), functions=CA))
for rk_ in (0, 1, 2):
    for fr_ in ('even', 'odd'):
        SCENARIOS.append(Scenario(f'reject-parity-{fr_}-{rk_}', rejects(fr_, rk_, 'parity'),
                                  functions=CA))
    SCENARIOS.append(Scenario(f'reject-noninteger-{rk_}', rejects('any', rk_, 'frac'),
                              functions=CA))
SCENARIOS.append(Scenario('reject-nan', rejects('any', 1, 'nan'), functions=CA))
ASSUMED = ["integral of exp(iwx) P_p(x) over [-1,1] is 2 i^p j_p(w) (DLMF 18.17.19)",
           "telescoping sums (induction)",
           "frequencies fit into the machine integer"]
BOUNDED = ["accuracy in floating point (battery)",
           "transform of the basis functions of actual bases (battery; composition in C15)"]
