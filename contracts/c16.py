"""Contracts for C16: truncation, rescaling, pairs of bases."""
from .common import *
from . import c15

LEVEL = 'proof'


def original(cx, stat='F', ypower=0):
    """a basis of arbitrary size k0, built by its own constructor from an arbitrary
    expansion (real SVEResult) with arbitrary accuracies"""
    b, sve = cx.m('basis'), cx.m('sve')
    cx.patch('poly', 'PiecewiseLegendreFT', c15.FT)
    N = cx.dim('N', 1)
    s = cx.array('s', (N,))
    cx.assume_all([N], lambda i: T.gt(s.v(i), 0))
    cx.assume_all([N, N], lambda i, j: T.implies(T.lt(lin(i), lin(j)), T.ge(s.v(i), s.v(j))))
    u = make_poly(cx, (N,), name='u', lo=-1, hi=1, symm=True, with_dx=True)
    v = make_poly(cx, (N,), name='v', lo=-1, hi=1, symm=True, with_dx=True)
    beta, wmax, own, eps = (cx.real(q) for q in ('beta', 'wmax', 'own', 'eps'))
    cx.assume(T.and_(T.gt(beta.v(), 0), T.gt(wmax.v(), 0)))
    K = c15.Kern(scalar(T.mul(beta.v(), wmax.v())), ypower)
    sv = cx.run(sve.SVEResult, u, s, v, K, own)
    ms = cx.int('max_size')
    cx.assume(T.ge(ms.v(), 1))
    cx.assume(T.le(eps.v(), 1))
    k0 = cx.dim('k0', 1)
    cx.assume(T.le(lin(k0), lin(N)))
    orig_part = sv.part

    class First:
        """the first construction keeps an arbitrary number of functions (C13)"""
        s, u, v = sv.s, sv.u, sv.v

        @staticmethod
        def part(e, m):
            k = cx.dimval(k0)
            return u[:k], s[:k], v[:k]
    r = cx.run(b.FiniteTempBasis, stat, beta, wmax, eps, kernel=K, sve_result=First, max_size=ms)
    # from here on the expansion behaves as it is
    r._sve_result = sv
    return r, k0, N, beta, wmax, K, sv


def same(cx, c, b, k, l, label, jac=None):
    """function l of c is function l of b; `jac`: other temperature"""
    for nm in 'uv':
        p, q = getattr(c, nm), getattr(b, nm)
        P, I, _, data, knots = getattr(b.sve_result, nm)._c
        i, j = cx.idx(P), cx.idx(I)
        kk = cx.idx(T.simp(T.add(I, 1)))
        cx.prove_shape(f'{label}: {nm} functions', p.data, (P, I, k))
        cx.prove_elem(f'{label}: {nm} coefficients', p.data.at(i, j, l), q.data.v(i, j, l))
        sc = jac[nm] if jac else 1
        cx.prove_shape(f'{label}: {nm} knots', p.knots, (T.add(I, 1),))
        cx.prove_elem(f'{label}: {nm} knots', p.knots.at(kk), T.mul(sc, q.knots.v(kk)))
        cx.prove_elem(f'{label}: {nm} widths', p.dx.at(j), T.mul(sc, q.dx.v(j)))
        cx.prove_elem(f'{label}: {nm} parity', p.symm.at(l), q.symm.v(l))
    cx.prove_shape(f'{label}: values', c.s, (k,))
    sc = jac['s'] if jac else 1
    cx.prove_elem(f'{label}: values', c.s.at(l), T.mul(sc, b.s.v(l)))
    cx.prove_elem(f'{label}: significance', c.significance.at(l), b.significance.v(l))
    cx.prove(f'{label}: statistics', c.statistics == b.statistics)
    cx.prove(f'{label}: parity of the frequencies', c.uhat.freq == b.uhat.freq)
    P, I, _, data, knots = b.sve_result.u._c
    h, g = cx.run(c.uhat.functions), cx.run(b.uhat.functions)
    i, j = cx.idx(P), cx.idx(I)
    kk = cx.idx(T.simp(T.add(I, 1)))
    cx.prove_shape(f'{label}: uhat functions', h.data, (P, I, k))
    sc = jac['uhat'] if jac else 1
    cx.prove_elem(f'{label}: uhat coefficients', h.data.at(i, j, l), T.mul(sc, g.data.v(i, j, l)))
    cx.prove_elem(f'{label}: uhat knots', h.knots.at(kk), g.knots.v(kk))
    cx.prove_elem(f'{label}: uhat asymptotics start', asarr(c.uhat.n_asymp).at(),
                  asarr(b.uhat.n_asymp).v())


def truncated(form):
    def f(cx):
        b, k0, N, beta, wmax, K, sv = original(cx)
        n = cx.int('n')
        sl = {'stop': slice(None, n), 'zero': slice(0, n, 1), 'all': slice(None),
              'negative': slice(None, n)}[form]
        if form == 'negative':
            cx.assume(T.and_(T.lt(n.v(), 0), T.gt(T.add(lin(k0), n.v()), 0)))
            want = T.add(lin(k0), n.v())
        elif form == 'all':
            want = lin(k0)
        else:
            cx.assume(T.ge(n.v(), 1))
            want = T.ite(T.le(n.v(), lin(k0)), n.v(), lin(k0))
        c = cx.run(lambda: b[sl])
        cx.prove('exactly min(k, size) functions', T.eq(lin(S.as_dim(c.size)), want))
        k = dexpr(c.s._shape[0])
        cx.prove('as many values', T.eq(lin(k), want))
        l = cx.idx(k, 'l')
        cx.assume(T.lt(lin(l), lin(k0)))
        same(cx, c, b, k, l, 'cut')
        cx.prove_eq('beta', asarr(c.beta).v(), beta.v())
        cx.prove_eq('wmax', asarr(c.wmax).v(), wmax.v())
        cx.prove('kernel and expansion', c.kernel is K and c.sve_result is sv)
        if cx.decide(T.lt(lin(k), lin(N))):
            cx.prove_elem('accuracy', asarr(c.accuracy).at(), T.div(sv.s.v(k), sv.s.v(0)))
        else:
            cx.prove_elem('accuracy', asarr(c.accuracy).at(),
                          T.div(sv.s.v(T.sub(lin(k), 1)), sv.s.v(0)))
    return f


def refused(cx):
    b, k0, *_ = original(cx)
    n, m = cx.int('n'), cx.int('m')
    cx.assume(T.and_(T.ne(m.v(), 0), T.ne(m.v(), 1)))
    for nm, ix in (('start', slice(m, n)), ('start one', slice(1, n)), ('step', slice(None, n, m)),
                   ('step zero', slice(0, n, 2)), ('reversed', slice(None, None, -1)),
                   ('index', n), ('list', [0, 1]), ('tuple', (slice(None, 2),)),
                   ('array', cx.array('ix', (2,), 'i')), ('mask', cx.array('mask', (k0,), 'b')),
                   ('empty', slice(0)), ('ellipsis', Ellipsis), ('none', None)):
        cx.raises(nm, ValueError, b.__getitem__, ix)
    cx.assume(T.le(T.add(n.v(), lin(k0)), 0))
    cx.raises('negative beyond the start', ValueError, b.__getitem__, slice(None, n))


def rescaled(ypower):
    def f(cx):
        b, k0, N, beta, wmax, K, sv = original(cx, 'B', ypower)
        nb = cx.real('new_beta')
        cx.assume(T.gt(nb.v(), 0))
        c = cx.run(b.rescale, nb)
        bt, wm = beta.v(), wmax.v()
        cx.prove_eq('given beta', asarr(c.beta).v(), nb.v())
        cx.prove_eq('same Lambda', asarr(c.lambda_).v(), T.mul(bt, wm))
        cx.prove('size', T.eq(lin(S.as_dim(c.size)), lin(k0)))
        k = dexpr(c.s._shape[0])
        l = cx.idx(k, 'l')
        cx.assume(T.lt(lin(l), lin(k0)))
        r = T.div(nb.v(), bt)
        # s = sqrt(beta wmax / 2) wmax^-ypower S with wmax' = wmax / r
        js = 1
        for _ in range(ypower):
            js = T.mul(js, r)
        same(cx, c, b, k0, l, 'rescaled', {'u': r, 'v': T.div(1, r), 's': js,
                                           'uhat': T.func('sqrt', r)})
        cx.prove('kernel and expansion', c.kernel is K and c.sve_result is sv)
        cx.prove_eq('accuracy', asarr(c.accuracy).v(), asarr(b.accuracy).v())
    return f


class Rec:
    """constructor arguments by name"""
    names = ('statistics', 'beta', 'wmax', 'eps')
    made = None

    def __init__(self, *a, **kw):
        self.args = dict(dict(eps=None, max_size=None, kernel=None, sve_result=None),
                         **dict(zip(self.names, a)), **kw)
        assert len(a) <= 4
        self.made.append(self)
        for q in ('lambda_', 'beta', 'wmax', 'accuracy', 'sve_result'):
            setattr(self, q, object())


def eqv(a, b):
    if a is b:
        return True
    return T.eq(asarr(a).v(), asarr(b).v())


def pairs(given, bset):
    """the pair, or the basis set, consists of separately constructed bases"""
    def f(cx):
        bm, sm = cx.m('basis'), cx.m('basis_set')
        made = []
        Basis = type('Basis', (Rec,), {'made': made})
        cx.patch('basis', 'FiniteTempBasis', Basis)
        comp, kern = [], []

        class Kern:
            def __init__(self, lam):
                kern.append(self)
                self.lam = lam

        class Res:
            def __init__(self, *a, **kw):
                comp.append(self)
                self.args = dict(zip(('K', 'eps'), a), **kw)
        cx.patch('kernel', 'LogisticKernel', Kern)
        cx.patch('sve', 'compute', Res)
        beta, wmax, eps = cx.real('beta'), cx.real('wmax'), cx.real('eps')
        sv = Kern(None) if given else None
        kern.clear()
        smp = []

        class Sampling:
            def __init__(self, basis, *a, **kw):
                assert not a and not kw
                self.basis = basis
                self.sampling_points = object()
                smp.append(self)
        Tau, Mat = type('Tau', (Sampling,), {}), type('Mat', (Sampling,), {})
        if bset:
            cx.patch('sampling', 'TauSampling', Tau)
            cx.patch('sampling', 'MatsubaraSampling', Mat)
            r = cx.run(sm.FiniteTempBasisSet, beta, wmax, eps, sv)
            F, B = r.basis_f, r.basis_b
        else:
            F, B = cx.run(bm.finite_temp_bases, beta, wmax, eps, sv)
        for q, s in ((F, 'F'), (B, 'B')):
            cx.prove('constructed ' + s, isinstance(q, Basis))
            cx.prove('statistics ' + s, q.args['statistics'] == s)
            cx.prove('beta ' + s, eqv(q.args['beta'], beta))
            cx.prove('wmax ' + s, eqv(q.args['wmax'], wmax))
            cx.prove('accuracy ' + s, q.args['eps'] is not None and eqv(q.args['eps'], eps))
            cx.prove('no other restriction ' + s, q.args['max_size'] is None)
            e, k = q.args['sve_result'], q.args['kernel']
            # either its own expansion by the constructor, the one given, or one of
            # exactly what the constructor would compute (C15)
            if given:
                cx.prove('given expansion ' + s, e is sv)
            elif e is not None:
                cx.prove('expansion ' + s, any(e is c for c in comp))
                cx.prove('of the logistic kernel ' + s, isinstance(e.args['K'], Kern))
                cx.prove('Lambda ' + s, T.eq(asarr(e.args['K'].lam).v(),
                                             T.mul(beta.v(), wmax.v())))
                cx.prove('to the accuracy ' + s, set(e.args) == {'K', 'eps'}
                         and eqv(e.args['eps'], eps))
            cx.prove('logistic kernel ' + s, k is None or k in kern)
            if k in kern:
                cx.prove('its Lambda ' + s, T.eq(asarr(k.lam).v(), T.mul(beta.v(), wmax.v())))
        if not bset:
            return
        for q, cls, bb in ((r.smpl_tau_f, Tau, F), (r.smpl_tau_b, Tau, B),
                           (r.smpl_wn_f, Mat, F), (r.smpl_wn_b, Mat, B)):
            cx.prove('default sampling of its basis', type(q) is cls and q.basis is bb)
        for nm in ('lambda_', 'beta', 'wmax', 'accuracy', 'sve_result'):
            cx.prove('set reports ' + nm, getattr(r, nm) is getattr(F, nm))
        cx.prove('points', r.tau is r.smpl_tau_f.sampling_points and
                 r.wn_f is r.smpl_wn_f.sampling_points and
                 r.wn_b is r.smpl_wn_b.sampling_points)
    return f


G = ['basis.FiniteTempBasis.__getitem__', 'basis._slice_to_size', 'basis.FiniteTempBasis.__init__',
     'sve.SVEResult.part']
SCENARIOS = [Scenario('cut-' + q, truncated(q), functions=G)
             for q in ('stop', 'zero', 'all', 'negative')] + [
    Scenario('refused', refused, functions=G[:2]),
    Scenario('rescaled', rescaled(0), functions=['basis.FiniteTempBasis.rescale'] + G[2:]),
    Scenario('rescaled-bose', rescaled(1), functions=['basis.FiniteTempBasis.rescale'] + G[2:]),
    Scenario('pair', pairs(False, False), functions=['basis.finite_temp_bases']),
    Scenario('pair-given', pairs(True, False), functions=['basis.finite_temp_bases']),
    Scenario('set', pairs(False, True), functions=['basis_set.FiniteTempBasisSet']),
    Scenario('set-given', pairs(True, True), functions=['basis_set.FiniteTempBasisSet'])]
ASSUMED = ["chains of operations: each operation is proved from an arbitrary basis (any size, "
           "accuracy and expansion), so chains follow by induction"]
BOUNDED = []
