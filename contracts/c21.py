"""Contracts for C21: augmented bases."""
import numpy as np
from .common import *
from . import c20

LEVEL = 'proof'
UR = T.fn('u_l', T.IS, T.IS, T.RS, T.RS)                  # derivative order, function, time
HR, HI = T.fn('uhat_re', T.IS, T.RS, T.RS), T.fn('uhat_im', T.IS, T.RS, T.RS)
GR = T.fn('aug', T.IS, T.IS, T.RS, T.RS)                  # order, augmentation, time
GHR, GHI = T.fn('aughat_re', T.IS, T.RS, T.RS), T.fn('aughat_im', T.IS, T.RS, T.RS)


def tau_args(cx, rank, beta=None):
    sh = tuple(cx.dim(f't{k}', 0) for k in range(rank))
    tau = cx.array('tau', sh) if rank else cx.scalar_in('tau', 'f')
    if beta is not None:
        ins = lambda *ix: T.and_(T.le(0, tau.v(*ix)), T.le(tau.v(*ix), beta))
        cx.assume_all(sh, ins) if rank else cx.assume(ins())
    return sh, tau


# ---- the augmentations by themselves ------------------------------------------------
def make(cx, cls, how='direct', stat='B'):
    a = cx.m('augment')
    beta = cx.real('beta')
    cx.assume(T.gt(beta.v(), 0))
    if how == 'direct':
        return cx.run(getattr(a, cls), beta, label='constructor'), beta.v()

    class B:
        pass
    B.statistics, B.beta = stat, beta
    return cx.run(getattr(a, cls).create, B, label='factory'), beta.v()


def value(cls, beta, t):
    """documented function of imaginary time"""
    if cls == 'TauConst':
        return T.div(Fr(1), T.func('sqrt', beta))
    return T.mul(T.func('sqrt', T.div(Fr(3), beta)), T.sub(T.div(T.mul(2, t), beta), 1))


def slope(cls, beta, n):
    if n == 1 and cls == 'TauLinear':
        return T.div(T.mul(2, T.func('sqrt', T.div(Fr(3), beta))), beta)
    return Fr(0)


def hat(cls, beta, n, zero):
    if cls == 'MatsubaraConst':
        return Fr(1)
    if cls == 'TauConst':
        return T.func('sqrt', beta) if zero else Fr(0)
    if zero:
        return Fr(0)
    # 2/(i w_n)
    return Cx(Fr(0), T.neg(T.div(T.mul(2, T.mul(T.func('sqrt', T.div(Fr(3), beta)), beta)),
                                 T.mul(T.PI, R(n)))))


def in_time(cls, rank, how):
    def f(cx):
        g, beta = make(cx, cls, how)
        sh, tau = tau_args(cx, rank, beta)
        r = asarr(cx.run(g, tau))
        cx.prove_shape('shape', r, sh)
        q = tuple(cx.idx(k) for k in sh)
        if cls == 'MatsubaraConst':
            cx.prove('not a number in time', r.at(*q).nan)
        else:
            cx.prove_elem('value', r.at(*q), value(cls, beta, tau.v(*q)))
        cx.prove_elem('argument unchanged', tau.at(*q), fresh_array(
            cx.ctx, 'tau', sh, S.F64, scalar=not rank).v(*q))
    return f


def outside(cls, side):
    def f(cx):
        g, beta = make(cx, cls)
        m = cx.dim('m', 1)
        tau = cx.array('tau', (m,), nan=side == 'nan')
        k = cx.idx(m)
        cx.assume({'below': T.lt(tau.v(k), 0), 'above': T.gt(tau.v(k), beta),
                   'nan': tau.at(k).nan}[side])
        cx.raises('outside of the interval', ValueError, g, tau)
    return f


def derivative(cls, rank):
    def f(cx):
        g, beta = make(cx, cls)
        sh, tau = tau_args(cx, rank, beta)
        q = tuple(cx.idx(k) for k in sh)
        n = cx.int('n')
        cx.assume(T.ge(n.v(), 2))
        for nm, order in (('none', 0), ('first', 1), ('higher', n)):
            d = cx.run(g.deriv, order)
            r = asarr(cx.run(d, tau))
            cx.prove_shape(f'{nm}: shape', r, sh)
            if cls == 'MatsubaraConst':
                cx.prove(f'{nm}: not a number', r.at(*q).nan)
            elif nm == 'none':
                cx.prove_elem(f'{nm}: the function', r.at(*q), value(cls, beta, tau.v(*q)))
            else:
                cx.prove_elem(f'{nm} derivative', r.at(*q), slope(cls, beta, order))
        d = asarr(cx.run(cx.run(g.deriv), tau))
        if cls != 'MatsubaraConst':
            cx.prove_elem('first by default', d.at(*q), slope(cls, beta, 1))
        # the documented time derivative
        t, h = tau.v(*q), cx.real('h').v()
        if cls != 'MatsubaraConst':
            cx.prove_eq('derivative of the function', T.sub(
                value(cls, beta, T.add(t, h)), value(cls, beta, t)),
                T.mul(h, slope(cls, beta, 1)))
    return f


def in_frequency(cls, rank, kind):
    def f(cx):
        g, beta = make(cx, cls)
        if cls == 'MatsubaraConst':
            sh = tuple(cx.dim(f'n{k}', 0) for k in range(rank))
            n = cx.array('n', sh, kind) if rank else cx.scalar_in('n', kind)
            iv = (lambda v: v) if kind == 'i' else (lambda v: z3.ToInt(T.z(v)))
            if kind == 'f':
                c = lambda *ix: z3.IsInt(T.z(n.v(*ix)))
                cx.assume_all(sh, c) if rank else cx.assume(c())
        else:
            sh, n, iv = c20.freq_args(cx, 'B', rank, kind)
        r = asarr(cx.run(g.hat, n))
        cx.prove_shape('shape', r, sh)
        q = tuple(cx.idx(k) for k in sh)
        v = iv(n.v(*q))
        zero = cx.decide(T.eq(v, 0))
        cx.prove_elem('at zero' if zero else 'away from zero', r.at(*q),
                      hat(cls, beta, v, zero))
        cx.prove_elem('argument unchanged', n.at(*q), fresh_array(
            cx.ctx, 'n', sh, S.INT64 if kind == 'i' else S.F64, scalar=not rank).v(*q))
    return f


def wrong_frequency(cls, kind):
    def f(cx):
        g, beta = make(cx, cls)
        m = cx.dim('m', 1)
        n = cx.array('n', (m,), kind)
        k = cx.idx(m)
        if kind == 'i':
            cx.assume(T.eq(n.v(k) % 2, 1))
        else:
            v = T.z(n.v(k))
            v = v if cx.decide(v >= 0) else -v
            cx.assume(z3.Not(z3.IsInt(v)))
            cx.assume(z3.ToReal(z3.ToInt(v)) != v)
        cx.raises('wrong frequency', ValueError, g.hat, n)
    return f


def transform(cls):
    """int_0^beta f(tau) e^{i w tau} dtau by antiderivatives; w = 2 pi k/beta"""
    def f(cx):
        beta, k = cx.real('beta').v(), cx.int('k').v()
        cx.assume(T.gt(beta, 0))
        n = T.mul(2, k)
        zero = cx.decide(T.eq(k, 0))
        spec = T.cx(hat(cls, beta, n, zero))
        c = value(cls, beta, beta) if cls == 'TauLinear' else value(cls, beta, Fr(0))
        w = T.div(T.mul(T.PI, R(n)), beta)

        def F(t):
            x = T.sub(T.div(T.mul(2, t), beta), 1)
            if zero:
                # antiderivatives of 1 and of x
                return Cx(T.mul(c, t if cls == 'TauConst' else T.mul(
                    T.div(beta, Fr(4)), T.mul(x, x))), Fr(0))
            e = Cx(T.func('cos', T.mul(w, t)), T.func('sin', T.mul(w, t)))
            iw = Cx(Fr(0), T.neg(T.div(Fr(1), w)))          # 1/(i w)
            r = T.mul(e, iw)
            if cls == 'TauLinear':
                # x e/(iw) - (2/beta) e/(iw)^2
                r = T.sub(T.mul(x, r), T.mul(T.div(Fr(2), beta), T.mul(r, iw)))
            return T.mul(c, r)
        d = T.sub(F(beta), F(Fr(0)))
        cx.prove_eq('real part', T.re(d), T.re(spec))
        cx.prove_eq('imaginary part', T.im(d), T.im(spec))
        # normalised: antiderivatives of c^2 and of c^2 x^2
        if cls == 'TauConst':
            cx.prove_eq('normalised', T.mul(beta, T.mul(c, c)), 1)
        else:
            cx.prove_eq('normalised', T.mul(T.mul(c, c), T.mul(T.div(beta, Fr(6)), 2)), 1)
    return f


def creation(cls):
    def f(cx):
        a = cx.m('augment')
        beta = cx.real('beta')
        cx.assume(T.le(beta.v(), 0))
        cx.raises('temperature', ValueError, getattr(a, cls), beta)

        class B:
            pass
        B.beta = cx.real('b')
        cx.assume(T.gt(B.beta.v(), 0))
        if cls != 'MatsubaraConst':
            for s in ('F', 'x', None):
                B.statistics = s
                cx.raises('bosonic only', ValueError, getattr(a, cls).create, B)
                cx.raises('bosonic only, in a basis', ValueError, a.AugmentedBasis, B,
                          getattr(a, cls))
        else:
            for s in 'FB':
                B.statistics = s
                cx.run(getattr(a, cls).create, B)
    return f


# ---- bases ---------------------------------------------------------------------------
class Fns:
    """vector of functions (contracts C06, C10)"""
    ndim = 1
    zeta = 1
    xmin, xmax = 'xmin', 'xmax'

    def __init__(self, cx, L, kind, order=0, cut=None):
        self.cx, self.L, self.kind, self.order, self.cut = cx, L, kind, order, cut
        self.size = cx.dimval(L)

    def val(self, l, x):
        if self.kind == 'u':
            return UR(T.z(self.order), T.z(lin(l)), T.z(R(x)))
        return Cx(HR(T.z(lin(l)), T.z(R(x))), HI(T.z(lin(l)), T.z(R(x))))

    def __call__(self, x):
        x = asarr(x)
        s = x.snap()
        return mk(lambda ix: E(self.val(ix[0], s(ix[1:]).val)), (self.L,) + tuple(x._shape),
                  S.F64 if self.kind == 'u' else S.C128)

    def deriv(self, n=1):
        return Fns(self.cx, self.L, self.kind, T.add(self.order, asarr(n).scalar().val))

    def __getitem__(self, l):
        if isinstance(l, slice):
            return Fns(self.cx, cut(self.cx, l, self.L), self.kind, self.order)
        return Single(self, asarr(l).scalar().val)


class Single:
    def __init__(self, of, l):
        self.of, self.l = of, l


def cut(cx, l, L):
    """leading functions l of L"""
    cx.prove('underlying basis: leading functions', l.start in (None, 0) and
             l.step in (None, 1))
    if l.stop is None:
        return L
    k = asarr(l.stop).scalar().val
    cx.prove('underlying basis: at least one function', T.ge(k, 1))
    d = cx.dim('cut', 1)
    cx.assume(T.eq(lin(d), T.ite(T.le(k, lin(L)), k, lin(L))))
    return d


class Basis:
    is_well_conditioned = True

    def __init__(self, cx, stat='B', L=None, of=None):
        self.cx, self.of = cx, of
        self.L = cx.dim('L', 1) if L is None else L
        self.size = cx.dimval(self.L)
        self.u, self.uhat = Fns(cx, self.L, 'u'), Fns(cx, self.L, 'uhat')
        self.statistics = stat
        self.beta, self.wmax, self.lambda_, self.accuracy = (
            cx.real(q) for q in ('beta', 'wmax', 'lambda', 'accuracy'))
        cx.assume(T.gt(self.beta.v(), 0))
        self.significance = cx.array('significance', (self.L,))

    def __getitem__(self, l):
        b = Basis(self.cx, self.statistics, cut(self.cx, l, self.L), self)
        return b

    def default_tau_sampling_points(self, *, npoints=None):
        return ('tau', npoints)

    def default_matsubara_sampling_points(self, *, npoints=None, positive_only=False):
        return ('wn', npoints, positive_only)


def augs(cx, n):
    """n arbitrary augmentations; the first one is given as a factory"""
    a = cx.m('augment')

    class Aug(a.AbstractAugmentation):
        def __init__(self, k, order=0):
            self.k, self.order = k, order

        def __call__(self, tau):
            t = asarr(tau)
            s = t.snap()
            return mk(lambda ix: E(self.val(s(ix).val)), t._shape, S.F64)

        def val(self, t):
            return GR(T.z(self.order), T.z(self.k), T.z(R(t)))

        def deriv(self, n=1):
            return Aug(self.k, T.add(self.order, asarr(n).scalar().val))

        def hat(self, n):
            t = asarr(n)
            s = t.snap()
            return mk(lambda ix: E(self.hval(s(ix).val)), t._shape, S.C128)

        def hval(self, n):
            return Cx(GHR(T.z(self.k), T.z(R(n))), GHI(T.z(self.k), T.z(R(n))))
    objs = [Aug(k) for k in range(n)]

    class Factory:
        asked = []

        @classmethod
        def create(cls, basis):
            cls.asked.append(basis)
            return objs[0]
    return objs, ([Factory] + objs[1:]) if n else [], Factory


def build(cx, n, stat='B'):
    a = cx.m('augment')
    b = Basis(cx, stat)
    objs, given, fac = augs(cx, n)
    ab = cx.run(a.AugmentedBasis, b, *given, label='constructor')
    if n:
        cx.prove('factory is asked for this basis', fac.asked == [b])
    return ab, b, objs


def concatenated(cx, label, r, sh, L, objs, of_aug, of_basis, q):
    n = len(objs)
    r = asarr(r)
    cx.prove_shape(label, r, (T.add(n, lin(L)),) + tuple(sh))
    for k, g in enumerate(objs):
        cx.prove_elem(f'{label}: augmentation {k}', r.at(k, *q), of_aug(g))
    l = cx.idx(L, 'l')
    cx.prove_elem(f'{label}: function of the basis', r.at(T.simp(T.add(n, lin(l))), *q),
                  of_basis(l))


def evaluation(n, rank):
    def f(cx):
        ab, b, objs = build(cx, n)
        sh, tau = tau_args(cx, rank)
        q = tuple(cx.idx(k) for k in sh)
        t = tau.v(*q)
        concatenated(cx, 'u', cx.run(ab.u, tau), sh, b.L, objs, lambda g: g.val(t),
                     lambda l: b.u.val(l, t), q)
        m = cx.int('order')
        d = cx.run(ab.u.deriv, m)
        concatenated(cx, 'derivative', cx.run(d, tau), sh, b.L, objs,
                     lambda g: GR(T.z(m.v()), T.z(g.k), T.z(R(t))),
                     lambda l: UR(T.z(m.v()), T.z(lin(l)), T.z(R(t))), q)
        cx.prove('derivative: interval', d.xmin == 'xmin' and d.xmax == 'xmax')
        d = cx.run(ab.u.deriv)
        concatenated(cx, 'first derivative', cx.run(d, tau), sh, b.L, objs,
                     lambda g: GR(T.z(1), T.z(g.k), T.z(R(t))),
                     lambda l: UR(T.z(1), T.z(lin(l)), T.z(R(t))), q)
        wn = cx.array('n', sh, 'i') if rank else cx.int('n')
        v = wn.v(*q)
        concatenated(cx, 'uhat', cx.run(ab.uhat, wn), sh, b.L, objs, lambda g: g.hval(v),
                     lambda l: b.uhat.val(l, v), q)
        concatenated(cx, 'u again', cx.run(ab.u, tau), sh, b.L, objs, lambda g: g.val(t),
                     lambda l: b.u.val(l, t), q)
    return f


def size_is(cx, label, got, want):
    cx.prove(label, T.eq(asarr(got).scalar().val, want))


def attributes(n, stat):
    def f(cx):
        ab, b, objs = build(cx, n, stat)
        N = T.add(n, lin(b.L))
        for nm, o in (('basis', ab), ('u', ab.u), ('uhat', ab.uhat)):
            size_is(cx, f'{nm}: size', o.size, N)
            cx.prove(f'{nm}: shape', len(o.shape) == 1)
            size_is(cx, f'{nm}: shape', o.shape[0], N)
        cx.prove('vector of functions', ab.u.ndim == 1 and ab.uhat.ndim == 1)
        cx.prove('statistics', ab.statistics == stat)
        for nm in ('beta', 'wmax', 'lambda_', 'accuracy'):
            cx.prove_eq(nm, asarr(getattr(ab, nm)), getattr(b, nm))
        cx.prove('interval', ab.u.xmin == 'xmin' and ab.u.xmax == 'xmax')
        cx.prove('kind of frequencies', ab.uhat.zeta == 1)
        sg = asarr(ab.significance)
        l = cx.idx(b.L, 'l')
        cx.prove_shape('significance', sg, (N,))
        for k in range(n):
            cx.prove_elem('significance of the augmentations', sg.at(k), Fr(1))
        cx.prove_elem('significance of the basis', sg.at(T.simp(T.add(n, lin(l)))),
                      b.significance.v(l))
        kind, m = cx.run(ab.default_tau_sampling_points)
        cx.prove('times', kind == 'tau')
        size_is(cx, 'times: as many as functions', m, N)
        for pos in (False, True):
            kind, m, p = cx.run(ab.default_matsubara_sampling_points, positive_only=pos)
            cx.prove('frequencies', kind == 'wn' and p is pos)
            size_is(cx, 'frequencies: as many as functions', m, N)
        g = cx.int('given')
        size_is(cx, 'times: as many as given',
                cx.run(ab.default_tau_sampling_points, npoints=g)[1], g.v())
        size_is(cx, 'frequencies: as many as given',
                cx.run(ab.default_matsubara_sampling_points, npoints=g)[1], g.v())
        cx.prove('conditioning of other augmentations', not ab.is_well_conditioned)
    return f


def conditioning(cx):
    a = cx.m('augment')
    for kinds, good in ((('MatsubaraConst',), True), ((), False), (('TauConst',), False),
                        (('TauLinear',), False), (('MatsubaraConst', 'TauConst'), False),
                        (('TauConst', 'MatsubaraConst'), False)):
        b = Basis(cx)
        ab = cx.run(a.AugmentedBasis, b, *[getattr(a, q) for q in kinds])
        cx.prove(f'{kinds}', bool(ab.is_well_conditioned) is good)
        b.is_well_conditioned = False
        cx.prove(f'{kinds}: of a poorly conditioned basis', not ab.is_well_conditioned)


def selection(n, form):
    def f(cx):
        ab, b, objs = build(cx, n)
        N = T.add(n, lin(b.L))
        k = cx.int('k')
        sl = {'stop': slice(None, k), 'zero': slice(0, k, 1), 'all': slice(None),
              'negative': slice(None, k)}[form]
        if form == 'negative':
            cx.assume(T.and_(T.lt(k.v(), 0), T.gt(T.add(N, k.v()), n)))
            want = T.add(N, k.v())
        elif form == 'all':
            want = N
        else:
            cx.assume(T.gt(k.v(), n))
            want = T.ite(T.le(k.v(), N), k.v(), N)
        tau, wn = cx.real('tau'), cx.int('n')
        t, v = tau.v(), wn.v()
        for nm, o in (('basis', cx.run(lambda: ab[sl])), ('u', cx.run(lambda: ab.u[sl])),
                      ('uhat', cx.run(lambda: ab.uhat[sl]))):
            size_is(cx, f'{nm}: exactly min(k, size) functions', o.size, want)
            L = T.simp(T.sub(want, n))
            m = cx.dim('cut_size', 1)
            cx.assume(T.eq(lin(m), L))
            if nm in ('basis', 'u'):
                g = o.u if nm == 'basis' else o
                concatenated(cx, f'{nm}: u', cx.run(g, tau), (), m, objs,
                             lambda h: h.val(t), lambda l: b.u.val(l, t), ())
                cx.prove(f'{nm}: interval', g.xmin == 'xmin' and g.xmax == 'xmax')
            if nm in ('basis', 'uhat'):
                g = o.uhat if nm == 'basis' else o
                concatenated(cx, f'{nm}: uhat', cx.run(g, wn), (), m, objs,
                             lambda h: h.hval(v), lambda l: b.uhat.val(l, v), ())
            if nm == 'basis':
                cx.prove('statistics', o.statistics == 'B')
                size_is(cx, 'significance', o.significance.shape[0], want)
        size_is(cx, 'original unchanged', ab.size, N)
    return f


def single(n):
    def f(cx):
        ab, b, objs = build(cx, n)
        N = T.add(n, lin(b.L))
        for nm, vec, own, mine in (('u', ab.u, b.u, objs), ('uhat', ab.uhat, b.uhat, None)):
            for k in range(n):
                for ix in (k, cx.int(f'k{nm}{k}')):
                    if not isinstance(ix, int):
                        cx.assume(T.eq(ix.v(), T.sub(k, N)))
                    g = cx.run(lambda: vec[ix])
                    if mine:
                        cx.prove(f'{nm}: augmentation {k}', g is objs[k])
                    else:
                        cx.prove(f'{nm}: augmentation {k}', getattr(g, '__self__', None)
                                 is objs[k] and g.__name__ == 'hat')
            l = cx.idx(b.L, 'l')
            ix = cx.int('l_pos' + nm)
            cx.assume(T.eq(ix.v(), T.add(n, lin(l))))
            g = cx.run(lambda: vec[ix])
            cx.prove(f'{nm}: function of the basis', isinstance(g, Single) and g.of is own)
            cx.prove(f'{nm}: which one', T.eq(g.l, lin(l)))
            iy = cx.int('l_neg' + nm)
            cx.assume(T.eq(iy.v(), T.sub(T.add(n, lin(l)), N)))
            g = cx.run(lambda: vec[iy])
            cx.prove(f'{nm}: from the end', T.eq(g.l, lin(l)) if isinstance(g, Single)
                     else False)
            far = cx.int('far' + nm)
            if cx.decide(T.ge(far.v(), 0)):
                cx.assume(T.ge(far.v(), N))
            else:
                cx.assume(T.lt(far.v(), T.neg(N)))
            cx.raises(f'{nm}: no such function', IndexError, vec.__getitem__, far)
    return f


def refused(n):
    def f(cx):
        ab, b, objs = build(cx, n)
        k, m = cx.int('k'), cx.int('m')
        cx.assume(T.and_(T.ne(m.v(), 0), T.ne(m.v(), 1)))
        for nm, ix in (('start', slice(m, k)), ('start one', slice(1, k)),
                       ('step', slice(None, k, m)), ('index', k), ('list', [0, 1])):
            cx.raises(nm, ValueError, ab.__getitem__, ix)
            if nm not in ('index', 'list'):
                cx.raises(nm + ', u', ValueError, ab.u.__getitem__, ix)
        N = T.add(n, lin(b.L))
        cx.assume(T.ite(T.ge(k.v(), 0), T.le(k.v(), n), T.le(T.add(N, k.v()), n)))
        if n:
            exc = (ValueError, NotImplementedError)
            cx.raises('only augmentation', exc, ab.__getitem__, slice(None, k))
            cx.raises('only augmentation, u', exc, ab.u.__getitem__, slice(None, k))
        b.u.ndim = 2
        cx.raises('matrix of functions', ValueError, cx.m('augment').AugmentedTauFunction,
                  b.u, [])
    return f


SCENARIOS = []
for c_ in ('TauConst', 'TauLinear', 'MatsubaraConst'):
    AU = [f'augment.{c_}.{q}' for q in ('create', '__init__', '__call__', 'deriv', 'hat')]
    U_ = ['_util.check_range', '_util.check_reduced_matsubara', 'augment._check_bosonic_statistics']
    for r_ in (0, 1, 2):
        SCENARIOS += [
            Scenario(f'{c_}-time-rank{r_}', in_time(c_, r_, 'create' if r_ else 'direct'),
                     functions=AU[:3] + U_[:1]),
            Scenario(f'{c_}-frequency-rank{r_}', in_frequency(c_, r_, 'i'),
                     functions=AU[1:2] + AU[4:] + U_[1:2]),
            Scenario(f'{c_}-derivatives-rank{r_}', derivative(c_, r_), functions=AU[1:4])]
    SCENARIOS += [Scenario(f'{c_}-frequency-floats', in_frequency(c_, 1, 'f'), functions=AU[4:]),
                  Scenario(f'{c_}-creation', creation(c_), functions=AU[:2] + U_[2:])]
    for s_ in ('below', 'above', 'nan'):
        SCENARIOS.append(Scenario(f'{c_}-{s_}', outside(c_, s_), functions=AU[2:3] + U_[:1]))
    if c_ != 'MatsubaraConst':
        SCENARIOS += [Scenario(f'{c_}-transform', transform(c_)),
                      Scenario(f'{c_}-wrong-parity', wrong_frequency(c_, 'i'),
                               functions=AU[4:] + U_[1:2])]
    SCENARIOS.append(Scenario(f'{c_}-not-integer', wrong_frequency(c_, 'f'),
                              functions=AU[4:] + U_[1:2]))
AF = ['augment._AugmentedFunction.' + q for q in ('__init__', '__call__', '__getitem__', 'size',
                                                  'shape', 'ndim')]
AB = ['augment.AugmentedBasis.' + q for q in (
    '__init__', 'u', 'uhat', 'statistics', '__getitem__', 'shape', 'size', 'significance',
    'accuracy', 'lambda_', 'beta', 'wmax', 'default_tau_sampling_points',
    'default_matsubara_sampling_points', 'is_well_conditioned')]
for n_ in range(4):
    for r_ in (0, 1, 2):
        SCENARIOS.append(Scenario(f'evaluation-{n_}-rank{r_}', evaluation(n_, r_), functions=AF[:2] + [
            'augment.AugmentedTauFunction.deriv', 'augment._augmentation_factory'] + AB[:3]))
    SCENARIOS.append(Scenario(f'attributes-{n_}', attributes(n_, 'FB'[n_ % 2]), functions=AB + AF[3:]))
    for f_ in ('stop', 'zero', 'all', 'negative'):
        SCENARIOS.append(Scenario(f'selection-{n_}-{f_}', selection(n_, f_),
                                  functions=[AB[4], AF[2], 'basis._slice_to_size']))
    SCENARIOS.append(Scenario(f'single-{n_}', single(n_), functions=[AF[2]]))
    SCENARIOS.append(Scenario(f'refused-{n_}', refused(n_), functions=[
        AB[4], AF[2], AF[0], 'basis._slice_to_size']))
SCENARIOS.append(Scenario('conditioning', conditioning, functions=[AB[-1]]))
ASSUMED = ["functions and parameters of the underlying basis (C06, C10, C15, C16)",
           "fundamental theorem of calculus for exp and polynomials"]
BOUNDED = ["number of augmentations: 0 to 3", "rank of arguments: 0 to 2 (lengths unbounded)"]
