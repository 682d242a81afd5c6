"""Contracts for C15: the scaled basis."""
from .common import *

LEVEL = 'proof'


class Kern:
    """a kernel as far as the basis knows it: cutoff and power of the frequency"""

    def __init__(self, lam, ypower):
        if lam is not None:
            self.lambda_ = lam
        self.ypower = ypower


class FT:
    """records how the Fourier transform is set up; C10 says what it then computes"""

    def __init__(self, poly, freq='even', n_asymp=None, power_model=None):
        self.poly, self.freq, self.n_asymp, self.sel = poly, freq, n_asymp, None

    def __getitem__(self, l):
        r = FT(self.poly, self.freq, self.n_asymp)
        r.sel = l
        return r

    def functions(self):
        return self.poly if self.sel is None else self.poly[self.sel]


class Sve:
    """contract of SVEResult: u, s, v and `part` = the leading k of each (C13)"""

    def __init__(self, cx, k=None):
        self.N = cx.dim('N', 1)
        self.k = cx.dim('k', 1) if k is None else k
        cx.assume(T.le(lin(self.k), lin(self.N)))
        self.s = cx.array('s', (self.N,))
        cx.assume_all([self.N], lambda i: T.gt(self.s.v(i), 0))
        self.u = make_poly(cx, (self.N,), name='u', lo=-1, hi=1, symm=True, with_dx=True)
        self.v = make_poly(cx, (self.N,), name='v', lo=-1, hi=1, symm=True, with_dx=True)
        self.calls = []
        self.cx = cx

    def part(self, eps=None, max_size=None):
        self.calls.append((eps, max_size))
        k = self.cx.dimval(self.k)
        return self.u[:k], self.s[:k], self.v[:k]


def build(cx, stat, ypower, given):
    b = cx.m('basis')
    sv = Sve(cx)
    beta, wmax = cx.real('beta'), cx.real('wmax')
    cx.assume(T.and_(T.gt(beta.v(), 0), T.gt(wmax.v(), 0)))
    lam = cx.real('lam')
    cx.assume(T.eq(lam.v(), T.mul(beta.v(), wmax.v())))
    made, comp = [], []

    def logistic(x):
        made.append(x)
        return Kern(asarr(x), ypower)

    def compute(K, eps=None, *a, **kw):
        comp.append((K, eps, a, kw))
        return sv
    cx.patch('kernel', 'LogisticKernel', logistic)
    cx.patch('sve', 'compute', compute)
    cx.patch('poly', 'PiecewiseLegendreFT', FT)
    eps, ms = cx.real('eps'), cx.int('max_size')
    K = Kern(lam, ypower)
    kw = {}
    if given != 'default':
        kw.update(kernel=K, sve_result=sv, max_size=ms)
    r = cx.run(b.FiniteTempBasis, stat, beta, wmax, eps, **kw, label='constructor')
    if given == 'default':
        cx.prove('default kernel has Lambda = beta wmax', len(made) == 1 and T.eq(
            asarr(made[0]).v(), T.mul(beta.v(), wmax.v())))
        cx.prove('expansion of that kernel to that accuracy', len(comp) == 1 and
                 comp[0][0] is r.kernel and comp[0][1] is eps and not comp[0][2]
                 and not comp[0][3])
    else:
        cx.prove('nothing is recomputed', not made and not comp)
        cx.prove('kernel recorded', r.kernel is K)
    cx.prove('cut at the accuracy and size asked for', len(sv.calls) == 1 and
             sv.calls[0][0] is eps and sv.calls[0][1] is kw.get('max_size'))
    return sv, beta, wmax, r, K


def scaled(stat, ypower, given):
    def f(cx):
        sv, beta, wmax, r, K = build(cx, stat, ypower, given)
        N, k = sv.N, sv.k
        bt, wm = beta.v(), wmax.v()
        cx.prove_eq('beta', asarr(r.beta).v(), bt)
        cx.prove_eq('wmax', asarr(r.wmax).v(), wm)
        cx.prove_eq('Lambda', asarr(r.lambda_).v(), T.mul(bt, wm))
        cx.prove('statistics', r.statistics == stat)
        cx.prove('expansion recorded', r.sve_result is sv)
        cx.prove('size', T.eq(dexpr(S.as_dim(r.size)), k))
        cx.prove('shape', len(r.shape) == 1 and T.eq(dexpr(S.as_dim(r.shape[0])), k))
        l = cx.idx(k, 'l')
        cx.prove_shape('singular values', r.s, (k,))
        # s = sqrt(beta wmax / 2) wmax^-ypower S
        fac = T.func('sqrt', T.mul(T.mul(bt, wm), Fr(1, 2)))
        for _ in range(ypower):
            fac = T.div(fac, wm)
        cx.prove_elem('s scaled', r.s.at(l), T.mul(fac, sv.s.v(l)))
        cx.prove_shape('significance', r.significance, (k,))
        cx.prove_elem('significance is s / s[0]', r.significance.at(l),
                      T.div(sv.s.v(l), sv.s.v(0)))
        if cx.decide(T.lt(lin(k), lin(N))):
            cx.prove_elem('accuracy: first value left out', asarr(r.accuracy).at(),
                          T.div(sv.s.v(k), sv.s.v(0)))
        else:
            cx.prove_elem('accuracy: last value', asarr(r.accuracy).at(),
                          T.div(sv.s.v(T.sub(lin(k), 1)), sv.s.v(0)))
        jac = {'u': T.mul(bt, Fr(1, 2)), 'v': wm}
        vals = {}
        for nm, p, base, off in (('u', r.u, sv.u, 1), ('v', r.v, sv.v, 0)):
            P, I, _, data, knots = base._c
            j = jac[nm]
            q = cx.idx(I, 'q' + nm)
            q1 = T.add(lin(q), 1)
            c, kk = cx.idx(P, 'c' + nm), cx.idx(T.simp(T.add(I, 1)), 'k' + nm)
            cx.prove_shape(f'{nm}: coefficients', p.data, (P, I, k))
            cx.prove_elem(f'{nm}: coefficients unchanged', p.data.at(c, q, l), data.v(c, q, l))
            cx.prove_shape(f'{nm}: knots', p.knots, (T.add(I, 1),))
            cx.prove_elem(f'{nm}: knots scaled', p.knots.at(kk),
                          T.mul(j, T.add(knots.v(kk), off)))
            cx.prove_elem(f'{nm}: widths consistent', p.dx.at(q),
                          T.sub(p.knots.v(q1), p.knots.v(q)))
            cx.prove_elem(f'{nm}: parity kept', p.symm.at(l), base.symm.v(l))
            cx.prove_elem(f'{nm}: left end', asarr(p.xmin).at(), T.mul(j, -1 + off))
            cx.prove_elem(f'{nm}: right end', asarr(p.xmax).at(), T.mul(j, 1 + off))
            # value on segment q, by the contract of evaluation (C06)
            t = z3.Real('t_' + nm)
            x = T.mul(j, T.add(t, off))
            w = z3.Real('h_' + nm)
            cx.assume(T.and_(T.gt(w, 0), T.eq(w, T.sub(knots.v(q1), knots.v(q)))))
            cx.rewrite(knots.v(q1), T.add(knots.v(q), w))
            mine = seg_value(P, p.data, p.knots, q, (l,), x)
            dimless = seg_value(P, data, knots, q, (l,), t)
            cx.prove_eq(f'{nm}(x) = {nm.upper()}(scaled x) / sqrt(scale)', mine,
                        T.div(dimless, T.func('sqrt', j)))
            vals[nm] = mine, dimless
        tot = T.mul(T.mul(vals['u'][0], r.s.v(l)), vals['v'][0])
        spec = T.mul(T.mul(vals['u'][1], sv.s.v(l)), vals['v'][1])
        for _ in range(ypower):
            spec = T.div(spec, wm)
        cx.prove_eq('u s v = wmax^-ypower U S V', tot, spec)
        # Fourier transform: uhat_l(n) = int_-1^1 base(x) exp(i pi n (x+1)/2) / sqrt 2 (C10)
        h = r.uhat
        cx.prove('parity of the frequencies', h.freq == {'F': 'odd', 'B': 'even'}[stat])
        P, I, _, data, knots = sv.u._c
        base = cx.run(h.functions)
        c, q, i = cx.idx(P), cx.idx(I), cx.idx(k)
        kk = cx.idx(T.simp(T.add(I, 1)))
        cx.prove_shape('uhat: coefficients', base.data, (P, I, k))
        # sqrt(beta)/sqrt(2) int_-1^1 U(x) e^(..) dx = int_0^beta u(tau) e^(i pi n tau/beta) dtau
        cx.prove_elem('uhat: transforms sqrt(beta) U', base.data.at(c, q, i),
                      T.mul(T.func('sqrt', bt), data.v(c, q, i)))
        cx.prove_elem('uhat: on the unit interval', base.knots.at(kk), knots.v(kk))
        cx.prove_elem('uhat: parity', base.symm.at(i), sv.u.symm.v(i))
        cx.prove_eq('normalisation of the transform', T.div(T.func('sqrt', bt),
                    T.func('sqrt', Fr(2))), T.div(T.mul(bt, Fr(1, 2)), T.func(
                        'sqrt', T.mul(bt, Fr(1, 2)))))
    return f


def gram(cx):
    """orthonormality: on each segment the scaled functions integrate like the
    dimensionless ones, so their Gram matrix is the one of the coefficients"""
    sv, beta, wmax, r, K = build(cx, 'F', 0, 'default')
    for nm, p, base in (('u', r.u, sv.u), ('v', r.v, sv.v)):
        P, I, _, data, knots = base._c
        l, m = cx.idx(sv.k), cx.idx(sv.k)
        q = cx.idx(I)
        # int over segment q of sqrt(2/h) P_c sqrt(2/h) P_c' = 2/h h/2 int_-1^1 = 2/(2c+1) delta
        w = z3.Real('h_' + nm)
        q1 = T.add(lin(q), 1)
        cx.assume(T.and_(T.gt(w, 0), T.eq(w, T.sub(p.knots.v(q1), p.knots.v(q)))))
        jac = T.mul(Fr(1, 2), w)
        nrm = T.func('sqrt', T.div(Fr(2), w))
        cx.prove_eq(f'{nm}: weight of a segment', T.mul(jac, T.mul(nrm, nrm)), Fr(1))

        def g(d):
            return rsum2(P, I, lambda c, s: T.mul(
                T.div(Fr(2), T.add(T.mul(2, R(lin(c))), 1)),
                T.mul(d.v(c, s, l), d.v(c, s, m))))
        cx.prove_eq(f'{nm}: same Gram matrix', g(p.data), g(data))


def rejected(what):
    def f(cx):
        b = cx.m('basis')
        sv = Sve(cx)
        cx.patch('poly', 'PiecewiseLegendreFT', FT)
        cx.patch('sve', 'compute', lambda *a, **k: sv)
        beta, wmax = cx.real('beta'), cx.real('wmax')
        lam = cx.real('lam')
        stat, kw = 'F', {}
        pos = T.and_(T.gt(beta.v(), 0), T.ge(wmax.v(), 0))
        K = Kern(lam, 0)
        if what == 'beta':
            cx.assume(T.le(beta.v(), 0))
        elif what == 'wmax':
            cx.assume(T.and_(T.gt(beta.v(), 0), T.lt(wmax.v(), 0)))
        elif what in ('nan-beta', 'nan-wmax'):
            n = cx.array('nanv', (), nan=True)
            n._is_scalar = True
            cx.assume(n.at().nan)
            if what == 'nan-beta':
                beta = n
            else:
                cx.assume(T.gt(beta.v(), 0))
                wmax = n
        elif what == 'statistics':
            cx.assume(pos)
            for s in ('f', 'b', 'X', 'FB', '', None, 0):
                cx.raises(repr(s), ValueError, b.FiniteTempBasis, s, beta, wmax, None,
                          sve_result=sv)
            return
        elif what == 'kernel':
            cx.assume(pos)
            L = T.mul(beta.v(), wmax.v())
            d = T.sub(lam.v(), L)
            # another Lambda: more than a few units in the last place away
            tol = T.mul(Fr(1, 10**12), L)
            cx.assume(T.or_(T.gt(d, tol), T.lt(d, T.neg(tol))))
            kw['kernel'] = K
        cx.raises(what, ValueError, b.FiniteTempBasis, stat, beta, wmax, None,
                  sve_result=sv, **kw)
    return f


def accepted(cx):
    """a kernel with exactly the Lambda of the basis is accepted, as is one without"""
    b = cx.m('basis')
    beta, wmax = cx.real('beta'), cx.real('wmax')
    cx.assume(T.and_(T.gt(beta.v(), 0), T.gt(wmax.v(), 0)))
    K = Kern(scalar(T.mul(beta.v(), wmax.v())), 0)
    for s in 'FB':
        r = cx.run(b._get_kernel, s, beta * wmax, K)
        cx.prove('kernel used as given ' + s, r is K)
        K2 = Kern(None, 0)
        r = cx.run(b._get_kernel, s, beta * wmax, K2)
        cx.prove('kernel without Lambda used as given ' + s, r is K2)


def real_kernels(cx):
    """the attributes the basis relies on, of the kernels themselves"""
    k = cx.m('kernel')
    lam = cx.real('lam')
    cx.assume(T.gt(lam.v(), 0))
    for cls, yp in ((k.LogisticKernel, 0), (k.RegularizedBoseKernel, 1)):
        K = cx.run(cls, lam)
        cx.prove_eq(f'Lambda {yp}', asarr(K.lambda_).v(), lam.v())
        cx.prove(f'power of the frequency {yp}', K.ypower == yp)


B = ['basis.FiniteTempBasis.__init__', 'basis._get_kernel', 'basis.FiniteTempBasis properties']
SCENARIOS = [
    Scenario('scaled-F', scaled('F', 0, 'default'), functions=B),
    Scenario('scaled-B', scaled('B', 0, 'default'), functions=B),
    Scenario('scaled-B-bose', scaled('B', 1, 'given'), functions=B),
    Scenario('scaled-F-power2', scaled('F', 2, 'given'), functions=B),
    Scenario('orthonormal', gram, functions=B),
    Scenario('accepted', accepted, functions=['basis._get_kernel']),
    Scenario('real-kernels', real_kernels, functions=[
        'kernel.LogisticKernel.__init__', 'kernel.RegularizedBoseKernel.__init__',
        'kernel.*.ypower'])] + [
    Scenario('rejected-' + w, rejected(w), functions=['basis.FiniteTempBasis.__init__',
                                                      'basis._get_kernel'])
    for w in ('beta', 'wmax', 'nan-beta', 'nan-wmax', 'statistics', 'kernel')]
ASSUMED = ["U, S, V of the SVE result are an expansion of the dimensionless kernel (C14); "
           "`part` returns its leading functions (C13)",
           "evaluation of a piecewise polynomial (C06) and its Fourier transform (C10)"]
BOUNDED = []
