"""Contracts for C20: discrete Lehmann representation."""
from .common import *
from . import c17, c19
from engine import linalg

LEVEL = 'proof'
V = T.fn('v_l', T.IS, T.RS, T.RS)
KL = T.fn('logistic', T.RS, T.RS, T.RS, T.RS)


def ex(x):
    return T.func('exp', x)


def zeta_of(stat):
    return 1 if stat == 'F' else 0


# ---- frequency functions --------------------------------------------------------
def hat(stat, beta, w, n):
    """weight over (i w_n - pole); the bosonic pole at zero has a finite limit"""
    wn = T.div(T.mul(T.PI, R(n)), beta)
    den = T.add(T.mul(w, w), T.mul(wn, wn))
    one = Fr(1) if stat == 'F' else T.func('tanh', T.mul(Fr(1, 2), T.mul(beta, w)))
    return Cx(T.div(T.mul(one, T.neg(w)), den), T.div(T.mul(one, T.neg(wn)), den)), den


def poles(cx, name='poles'):
    p = cx.dim('p', 1)
    return p, cx.array(name, (p,))


def freq_args(cx, stat, rank, kind='i'):
    sh = tuple(cx.dim(f'n{k}', 0) for k in range(rank))
    n = cx.array('n', sh, kind) if rank else cx.scalar_in('n', kind)
    iv = (lambda v: v) if kind == 'i' else (lambda v: z3.ToInt(T.z(v)))
    par = lambda *ix: T.eq(iv(n.v(*ix)) % 2, zeta_of(stat))
    for c in ([lambda *ix: z3.IsInt(T.z(n.v(*ix)))] if kind == 'f' else []) + [par]:
        cx.assume_all(sh, c) if rank else cx.assume(c())
    return sh, n, iv


def matsubara(stat, rank, kind):
    def f(cx):
        d = cx.m('dlr')
        beta = cx.real('beta')
        cx.assume(T.gt(beta.v(), 0))
        P, w = poles(cx)
        sh, n, iv = freq_args(cx, stat, rank, kind)
        o = cx.run(d.MatsubaraPoles, stat, beta, w, label='constructor')
        r = cx.run(o, n)
        cx.prove_shape('shape', r, (P,) + sh)
        p, q = cx.idx(P), tuple(cx.idx(k) for k in sh)
        e = r.at(p, *q)
        v, pole = iv(n.v(*q)), w.v(p)
        # odd frequencies are not zero
        if stat == 'F':
            cx.prove('fermionic frequencies are not zero', T.not_(T.eq(v, 0)))
        zero = cx.decide(T.and_(T.eq(v, 0), T.eq(pole, 0)))
        if zero:
            cx.prove('finite limit: bosonic only', stat == 'B')
            cx.prove_elem('finite limit at the zero pole', e, Cx(
                T.mul(Fr(-1, 2), beta.v()), Fr(0)))
        else:
            spec, den = hat(stat, beta.v(), pole, v)
            # sum of squares of which one is not zero (wn != 0 iff n != 0)
            for a in (T.eq(v, 0), T.eq(pole, 0)):
                cx.decide(a)
            wn = T.div(T.mul(T.PI, R(v)), beta.v())
            cx.assume(T.implies(T.not_(T.eq(v, 0)), T.gt(T.mul(wn, wn), 0)))
            cx.assume(T.gt(den, 0))
            cx.prove_elem('weight over distance to the pole', e, spec)
        cx.prove_elem('argument unchanged', n.at(*q), fresh_array(
            cx.ctx, 'n', sh, S.INT64 if kind == 'i' else S.F64, scalar=not rank).v(*q))
        cx.prove_eq('poles unchanged', w.v(p), fresh_array(
            cx.ctx, 'poles', (P,), S.F64).v(p))
    return f


def matsubara_rejects(stat, kind):
    def f(cx):
        d = cx.m('dlr')
        beta = cx.real('beta')
        cx.assume(T.gt(beta.v(), 0))
        P, w = poles(cx)
        m = cx.dim('m', 1)
        n = cx.array('n', (m,), kind)
        k = cx.idx(m)
        if kind == 'i':
            cx.assume(T.eq(n.v(k) % 2, 1 - zeta_of(stat)))
        else:
            v = T.z(n.v(k))
            v = v if cx.decide(v >= 0) else -v
            cx.assume(z3.Not(z3.IsInt(v)))
            cx.assume(z3.ToReal(z3.ToInt(v)) != v)
        o = cx.run(d.MatsubaraPoles, stat, beta, w, label='constructor')
        cx.raises('wrong frequency', ValueError, o, n)
    return f


# ---- time functions -----------------------------------------------------------------
class Kernel:
    """contract of the logistic kernel (C01)"""

    def __init__(self, cx, lam):
        self.cx, self.lam = cx, lam

    def __call__(self, x, y):
        cx = self.cx
        x, y = asarr(x), asarr(y)
        shape = S.broadcast_shapes([x._shape, y._shape]) if hasattr(S, 'broadcast_shapes') \
            else None
        z = x * 0 + y * 0
        fx, fy = S.broadcast_fn(x, z._shape), S.broadcast_fn(y, z._shape)
        ix = tuple(cx.idx(k) for k in z._shape)
        for nm, g in (('x', fx), ('y', fy)):
            v = g(ix).val
            cx.prove(f'kernel argument {nm} in range', T.and_(T.le(-1, v), T.le(v, 1)))
        lam = asarr(self.lam).scalar().val
        cx.prove('kernel parameter positive', T.gt(lam, 0))

        def val(ix):
            v, y = fx(ix).val, fy(ix).val
            t = T.mul(lam, y)
            return E(T.div(ex(T.mul(Fr(-1, 2), T.mul(t, T.add(v, 1)))),
                           T.add(1, ex(T.neg(t)))))
        return mk(val, z._shape, S.F64)


def tau_poles(stat, rank):
    def f(cx):
        d = cx.m('dlr')
        beta = cx.real('beta')
        cx.assume(T.gt(beta.v(), 0))
        P, w = poles(cx)
        sh = tuple(cx.dim(f't{k}', 0) for k in range(rank))
        tau = cx.array('tau', sh) if rank else cx.scalar_in('tau', 'f')
        ins = lambda *ix: T.and_(T.le(0, tau.v(*ix)), T.le(tau.v(*ix), beta.v()))
        cx.assume_all(sh, ins) if rank else cx.assume(ins())
        o = cx.run(d.TauPoles, stat, beta, w, label='constructor')
        cx.patch('kernel', 'LogisticKernel', lambda lam: Kernel(cx, lam))
        r = cx.run(o, tau)
        cx.prove_shape('shape', r, (P,) + sh)
        p, q = cx.idx(P), tuple(cx.idx(k) for k in sh)
        t, pole = tau.v(*q), w.v(p)
        cx.prove_elem('minus kernel at the pole', r.at(p, *q), T.neg(T.div(
            ex(T.neg(T.mul(t, pole))), T.add(1, ex(T.neg(T.mul(beta.v(), pole)))))))
        cx.prove_elem('argument unchanged', tau.at(*q), fresh_array(
            cx.ctx, 'tau', sh, S.F64, scalar=not rank).v(*q))
        cx.prove_eq('poles unchanged', pole, fresh_array(cx.ctx, 'poles', (P,), S.F64).v(p))
    return f


def tau_rejects(side):
    def f(cx):
        d = cx.m('dlr')
        beta = cx.real('beta')
        cx.assume(T.gt(beta.v(), 0))
        P, w = poles(cx)
        m = cx.dim('m', 1)
        tau = cx.array('tau', (m,))
        k = cx.idx(m)
        cx.assume(T.lt(tau.v(k), 0) if side == 'below' else T.gt(tau.v(k), beta.v()))
        o = cx.run(d.TauPoles, 'F', beta, w, label='constructor')
        cx.raises('outside of the interval', (RuntimeError, ValueError), o, tau)
    return f


def transform(stat):
    """int_0^beta dtau e^{i w_n tau} (-e^{-tau w}/(1+e^{-beta w})) = F(beta) - F(0) with the
    antiderivative F = -e^{(i w_n - w) tau}/((i w_n - w)(1 + e^{-beta w})), where
    e^{i w_n beta} = (-1)^zeta; for n = w = 0 the integrand is -1/2"""
    def f(cx):
        beta, w = cx.real('beta').v(), cx.real('w').v()
        k = cx.int('k').v()
        n = T.add(T.mul(2, k), zeta_of(stat))
        cx.assume(T.gt(beta, 0))
        cx.assume(T.not_(T.and_(T.eq(n, 0), T.eq(w, 0))))
        spec, den = hat(stat, beta, w, n)
        cx.assume(T.gt(den, 0))     # sum of squares, one of them not zero
        wn = T.div(T.mul(T.PI, R(n)), beta)

        def F(tau):
            ph = T.mul(wn, tau)
            e = T.mul(ex(T.neg(T.mul(w, tau))), Cx(T.func('cos', ph), T.func('sin', ph)))
            # 1/(i wn - w) = (-w - i wn)/den
            inv = Cx(T.div(T.neg(w), den), T.div(T.neg(wn), den))
            return T.neg(T.div(T.mul(e, inv), T.add(1, ex(T.neg(T.mul(beta, w))))))
        d = T.sub(F(beta), F(Fr(0)))
        cx.prove_eq('real part', T.re(d), T.re(spec))
        cx.prove_eq('imaginary part', T.im(d), T.im(spec))
        # integrand at n = w = 0: constant -1/2
        cx.prove_eq('zero pole at zero frequency', T.mul(beta, T.neg(T.div(Fr(1), T.add(
            1, ex(Fr(0)))))), T.mul(Fr(-1, 2), beta))
    return f


# ---- the representation ------------------------------------------------------------
class Basis:
    """contract of the basis (C15, C16)"""

    def __init__(self, cx, stat):
        self.cx, self.statistics = cx, stat
        self.L = cx.dim('L', 1)
        self.beta, self.wmax = cx.real('beta'), cx.real('wmax')
        cx.assume(T.gt(self.beta.v(), 0))
        cx.assume(T.gt(self.wmax.v(), 0))
        self.lambda_ = self.beta * self.wmax
        self.s = cx.array('s', (self.L,))
        cx.assume_all([self.L], lambda k: T.gt(self.s.v(k), 0))
        self.size = cx.dimval(self.L)
        self.accuracy = cx.real('accuracy')
        self.asked = []
        k = cx.m('kernel').LogisticKernel
        self.kernel = k.__new__(k)

    def v(self, w):
        s = asarr(w).snap()
        return mk(lambda ix: E(V(T.z(lin(ix[0])), T.z(R(s(ix[1:]).val)))),
                  (self.L,) + tuple(asarr(w)._shape), S.F64)

    def default_omega_sampling_points(self):
        self.asked.append('omega')
        return self.cx.array('default_poles', (self.cx.dim('p', 1),))

    def default_tau_sampling_points(self, **kw):
        return ('tau', kw)

    def default_matsubara_sampling_points(self, **kw):
        return ('wn', kw)


class Obj:
    def __init__(self, *a):
        self.a = a


def build(cx, stat, given):
    d = cx.m('dlr')
    b = Basis(cx, stat)
    P, w = poles(cx) if given else (None, None)
    svds = []

    def compute(a, n_sv_hint=None, strategy='fast'):
        # contract of svd.compute (C14): a = u s v^T for every strategy
        svds.append(a)
        u, s, vh = linalg.svd(a, full_matrices=False)
        return u, s, vh.T
    cx.patch('svd', 'compute', compute)
    cx.patch('dlr', 'TauPoles', lambda *a: Obj('u', *a))
    cx.patch('dlr', 'MatsubaraPoles', lambda *a: Obj('uhat', *a))
    o = cx.run(d.DiscreteLehmannRepresentation, b, *([w] if given else []), label='constructor')
    if not given:
        cx.prove('default poles', b.asked == ['omega'])
        P = o.sampling_points._shape[0]
        w = fresh_array(cx.ctx, 'default_poles', (P,), S.F64)
    cx.prove('matrix decomposed once', len(svds) == 1)
    return o, b, P, w, c19.Svd(cx, cx.ctx.svds[-1])


def fitting(b, w, l, p):
    """F[l, p] = -s_l v_l(w_p)"""
    return T.neg(T.mul(b.s.v(l), V(T.z(lin(l)), T.z(w.v(p)))))


def attributes(stat, given):
    def f(cx):
        o, b, P, w, d = build(cx, stat, given)
        p, l = cx.idx(P), cx.idx(b.L)
        for nm, (u, kind) in dict(u=(o.u, 'u'), uhat=(o.uhat, 'uhat')).items():
            cx.prove(f'{nm}: functions of the poles', u.a[0] == kind and u.a[1] == stat)
            cx.prove_eq(f'{nm}: beta', u.a[2], b.beta)
            cx.prove_shape(f'{nm}: poles', u.a[3], (P,))
            cx.prove_elem(f'{nm}: poles', asarr(u.a[3]).at(p), w.v(p))
        cx.prove_shape('sampling points', o.sampling_points, (P,))
        cx.prove_elem('sampling points', asarr(o.sampling_points).at(p), w.v(p))
        cx.prove('statistics', o.statistics == stat)
        cx.prove('basis', o.basis is b)
        cx.prove_eq('beta', asarr(o.beta), b.beta)
        cx.prove_eq('wmax', asarr(o.wmax), b.wmax)
        cx.prove_eq('lambda', asarr(o.lambda_), b.lambda_)
        cx.prove_eq('accuracy', asarr(o.accuracy), b.accuracy)
        cx.prove('size', T.eq(asarr(o.size).scalar().val, dexpr(P)))
        cx.prove('shape', T.and_(len(o.shape) == 1, T.eq(asarr(o.shape[0]).scalar().val,
                                                         dexpr(P))))
        cx.prove_shape('significance', o.significance, (P,))
        cx.prove_elem('significance', asarr(o.significance).at(p), Fr(1))
        cx.prove('not well conditioned', o.is_well_conditioned is False)
        cx.prove('default times', o.default_tau_sampling_points(npoints=3) ==
                 ('tau', dict(npoints=3)))
        cx.prove('default frequencies', o.default_matsubara_sampling_points(
            positive_only=True) == ('wn', dict(positive_only=True)))
        A = asarr(o.matrix.a)
        cx.prove_shape('matrix', A, (b.L, P))
        cx.prove_elem('matrix: minus singular value times function at the pole',
                      A.at(l, p), fitting(b, w, l, p))
        cx.prove_elem('poles given unchanged', w.at(p), fresh_array(
            cx.ctx, 'poles' if given else 'default_poles', (P,), S.F64).v(p))
    return f


def convert(rank, axis, coef, what):
    def f(cx):
        o, b, P, w, d = build(cx, 'F', True)
        L = b.L
        ax = 0 if axis is None else axis if axis >= 0 else rank + axis
        a = () if axis is None else (axis,)
        dims = [cx.dim(f'd{q}') for q in range(rank)]
        ix = [cx.idx(q) for q in dims]

        def shape(n):
            return dims[:ax] + [n] + dims[ax + 1:]

        def at(q):
            return ix[:ax] + [q] + ix[ax + 1:]
        l, p = cx.idx(L), cx.idx(P)
        if what == 'to':
            g = cx.array('g', shape(P), coef)
            r = asarr(cx.run(o.to_IR, g, *a))
            cx.prove_shape('shape', r, shape(L))
            cx.prove_elem('expansion of the sum over poles', r.at(*at(l)), rsum(
                P, lambda q: T.mul(fitting(b, w, l, q), g.v(*at(q)))))
        elif what == 'from':
            x = cx.array('x', shape(L), coef)
            r = asarr(cx.run(o.from_IR, x, *a))
            cx.prove_shape('shape', r, shape(P))
            ne = rsum(L, lambda m: T.mul(d.entry(m, p), T.sub(rsum(P, lambda q: T.mul(
                d.entry(m, q), r.v(*at(q)))), x.v(*at(m)))))
            cx.prove_eq('normal equations', ne, 0)
        else:
            cx.assume(T.gt(d.s.v(T.sub(dexpr(d.K), 1)), 0))
            cx.assume_all([d.K], lambda k: T.gt(d.s.v(k), 0))
            if what == 'round':
                # as many independent expansions as poles
                cx.assume(T.le(lin(P), lin(L)))
                g = cx.array('g', shape(P), coef)
                x = mk(lambda iy: E(rsum(P, lambda q: T.mul(d.entry(iy[ax], q), g.v(
                    *iy[:ax], q, *iy[ax + 1:])))), tuple(shape(L)), S.C128 if coef == 'c'
                    else S.F64)
                r = asarr(cx.run(o.from_IR, x, *a))
                cx.prove_shape('shape', r, shape(P))
                cx.prove_elem('recovers weights of the poles', r.at(*at(p)), g.v(*at(p)))
            else:
                # no fewer independent poles than functions
                cx.assume(T.lt(lin(L), lin(P)))
                x = cx.array('x', shape(L), coef)
                r = asarr(cx.run(o.from_IR, x, *a))
                cx.prove_elem('represents the expansion', E(rsum(P, lambda q: T.mul(
                    d.entry(l, q), r.v(*at(q))))), x.v(*at(l)))
    return f


def other_kernel(cx):
    d, k = cx.m('dlr'), cx.m('kernel')
    b = Basis(cx, 'B')
    for kk in (k.RegularizedBoseKernel, k._LogisticKernelOdd, k.AbstractKernel):
        try:
            b.kernel = kk.__new__(kk)
        except TypeError:
            continue
        P, w = poles(cx)
        cx.raises('kernel other than logistic', (ValueError, TypeError),
                  d.DiscreteLehmannRepresentation, b, w)


MP = ['dlr.MatsubaraPoles.__init__', 'dlr.MatsubaraPoles.__call__',
      '_util.RavelArgumentDecorator.__call__', '_util.check_reduced_matsubara']
TP = ['dlr.TauPoles.__init__', 'dlr.TauPoles.__call__', '_util.RavelArgumentDecorator.__call__']
AT = ['dlr.DiscreteLehmannRepresentation.' + q for q in (
    '__init__', 'u', 'uhat', 'statistics', 'sampling_points', 'shape', 'size', 'basis', 'lambda_',
    'beta', 'wmax', 'significance', 'accuracy', 'default_tau_sampling_points',
    'default_matsubara_sampling_points', 'is_well_conditioned')]
CO = ['dlr.DiscreteLehmannRepresentation.' + q for q in ('__init__', 'from_IR', 'to_IR')] + [
    'sampling.DecomposedMatrix.__init__', 'sampling.DecomposedMatrix._lstsq',
    'sampling.DecomposedMatrix.lstsq', 'sampling.DecomposedMatrix.matmul',
    'sampling._matop_along_axis', '_util.check_svd_result']
SCENARIOS = []
for s_ in 'FB':
    for r_ in (0, 1, 2):
        SCENARIOS.append(Scenario(f'frequency-{s_}-rank{r_}', matsubara(s_, r_, 'i'),
                                  functions=MP))
        SCENARIOS.append(Scenario(f'time-{s_}-rank{r_}', tau_poles(s_, r_), functions=TP))
    SCENARIOS += [
        Scenario(f'frequency-{s_}-floats', matsubara(s_, 1, 'f'), functions=MP),
        Scenario(f'frequency-{s_}-wrong-parity', matsubara_rejects(s_, 'i'), functions=MP),
        Scenario(f'frequency-{s_}-not-integer', matsubara_rejects(s_, 'f'), functions=MP),
        Scenario(f'transform-{s_}', transform(s_)),
        Scenario(f'attributes-{s_}', attributes(s_, True), functions=AT),
    ]
SCENARIOS += [
    Scenario('default-poles', attributes('F', False), functions=AT),
    Scenario('time-below', tau_rejects('below'), functions=TP),
    Scenario('time-above', tau_rejects('above'), functions=TP),
    Scenario('other-kernel', other_kernel, functions=AT[:1]),
]
N_ = 0
for w_ in ('to', 'from', 'round', 'onto'):
    for r_, a_ in ((1, None), (2, None), (1, -1), (2, 1), (3, 1), (3, -1)):
        N_ += 1
        SCENARIOS.append(Scenario(f'{w_}-rank{r_}-axis{a_}', convert(r_, a_, 'cf'[N_ % 2], w_),
                                  functions=CO))
ASSUMED = ["logistic kernel values (C01)", "svd.compute: a = u s v^T (C14)",
           "values of v(omega), default poles and parameters of the basis (C15, C17)",
           "fundamental theorem of calculus for exp",
           "numeric error of the conversion between representations (battery)"]
BOUNDED = ["rank of argument and coefficient arrays: up to 2 and 3 (lengths unbounded)"]
