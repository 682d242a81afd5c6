"""C11 Asymptotic model of the Fourier transform."""
from .common import *
from .c10 import call as ft_call, MDR, MDI

LEVEL = 'proof'
HR = T.fn('horner_re', T.IS, T.IS, T.IS, T.RS)
HI = T.fn('horner_im', T.IS, T.IS, T.IS, T.RS)
DV = T.fn('derivative', T.IS, T.IS, T.RS, T.RS)          # (order, function, x)


def inv_omega(n):
    """1/(i pi n / 2) = -2i/(pi n), and zero for n = 0"""
    return Cx(Fr(0), T.ite(T.eq(R(n), 0), Fr(0), T.div(Fr(-2), T.mul(T.PI, R(n)))))


def model(cx, M, L='L'):
    poly = cx.m('poly')
    M = cx.dim('M', 1) if M is None else M
    L = cx.dim(L, 1)
    mom = cx.array('mom', (M, L))
    return cx.run(poly._PowerModel, mom, label='constructor'), mom, M, L


def init(vector):
    def f(cx):
        poly = cx.m('poly')
        M, L = cx.dim('M', 1), 1 if vector else cx.dim('L', 1)
        mom = cx.array('mom', (M,) if vector else (M, L))
        p = cx.run(poly._PowerModel, mom, label='constructor')
        cx.prove_shape('moments', p.moments, (M, L))
        m, l = cx.idx(M), cx.idx(L)
        cx.prove_elem('moments', p.moments.at(m, l), mom.v(m) if vector else mom.v(m, l))
    return f


def zero_split(cx, n):
    """a frequency is zero or not"""
    return cx.decide(T.eq(n, 0))


def giw(M, rank):
    """explicit sum for a fixed number of moments"""
    def f(cx):
        p, mom, _, L = model(cx, M)
        sh = tuple(cx.dim(f'n{k}', 0) for k in range(rank))
        n = cx.array('n', sh, 'i') if rank else cx.int('n')
        r = cx.run(p.giw, n)
        cx.prove_shape('shape', r, sh + (L,))
        q, l = tuple(cx.idx(d) for d in sh), cx.idx(L, 'l')
        v = n.v(*q)
        zero = zero_split(cx, v)
        w = Cx(Fr(0), Fr(0)) if zero else inv_omega(v)
        if not zero:
            w = Cx(Fr(0), T.div(Fr(-2), T.mul(T.PI, R(v))))
        s, pw = Cx(Fr(0), Fr(0)), Cx(Fr(1), Fr(0))
        for m in range(M):
            pw = T.mul(pw, w)
            s = T.add(s, T.mul(mom.v(m, l), pw))
        cx.prove_elem('zero at zero frequency' if zero else 'sum of the moments', r.at(*q, l), s)
        cx.prove_eq('moments unchanged', p.moments.v(0, l), mom.v(0, l))
        o = fresh_array(cx.ctx, 'n', sh, S.INT64, scalar=not rank)
        cx.prove_eq('argument unchanged', n.v(*q), o.v(*q))
    return f


def giw_any():
    """Horner recurrence for every number of moments"""
    spec = {}

    def inv(env, k):
        ctx = S.cx()
        out = []
        N, L = spec['N'], spec['L']

        def eq(ix, part, H):
            e = env.result.at(*ix).val
            g = H(T.z(k), T.z(lin(ix[0])), T.z(lin(ix[1])))
            return T.eq(part(e), g)
        ix = spec.get('at')
        for nm, part, H in (('real', T.re, HR), ('imaginary', T.im, HI)):
            out.append((f'{nm} part is the Horner sum of the last k moments', ctx.close(
                [N, L], lambda *i, part=part, H=H: eq(i[0] if len(i) == 1 else i, part, H))))
        return out

    def scen(cx):
        p, mom, M, L = model(cx, None)
        N = cx.dim('N', 0)
        n = cx.array('n', (N,), 'i')
        spec.update(N=N, L=L)
        k, i, l = z3.Int('hk'), z3.Int('hi'), z3.Int('hl')
        q = T.div(Fr(-2), T.mul(T.PI, R(n.v(i))))
        q = z3.If(T.z(n.v(i)) == 0, z3.RealVal(0), T.z(q))
        m = T.z(mom.v(T.sub(T.sub(M, 1), k), l))
        cx.assume(z3.ForAll([i, l], z3.And(HR(0, i, l) == 0, HI(0, i, l) == 0),
                            patterns=[HR(0, i, l)]))
        # H(k+1) = (H(k) + mom[M-1-k]) / (i w_n)
        cx.assume(z3.ForAll([k, i, l], z3.Implies(
            z3.And(0 <= k, k < M),
            z3.And(HR(k + 1, i, l) == -q * HI(k, i, l),
                   HI(k + 1, i, l) == q * (HR(k, i, l) + m))), patterns=[HR(k + 1, i, l)]))
        r = cx.run(p.giw, n)
        cx.prove_shape('shape', r, (N, L))
        a, b = cx.idx(N), cx.idx(L)
        e = r.at(a, b)
        cx.prove('defined', T.and_(wdb(e.wd), T.not_(e.nan)))
        cx.prove('real part', T.eq(T.re(e.val), HR(M, a, b)))
        cx.prove('imaginary part', T.eq(T.im(e.val), HI(M, a, b)))
    return Scenario('model-any', scen, loops=[LoopContract(('poly', '_PowerModel.giw', 0), inv)],
                    functions=['poly._PowerModel.giw'])


def alt(m):
    """(-1)^m"""
    return T.ite(T.eq(lin(m) % 2, 0), Fr(1), Fr(-1))


def jump(stat, d1, sym, m):
    """1/sqrt2 (-1)^m (s f^(m)(1) - f^(m)(-1)) with f^(m)(-1) = sym (-1)^m f^(m)(1)"""
    s = {'odd': -1, 'even': 1}[stat]
    dm = T.mul(T.mul(sym, alt(m)), d1)
    return T.mul(T.func('sqrt', Fr(1, 2)), T.mul(alt(m), T.sub(T.mul(s, d1), dm)))


def parity_cases(cx, m):
    cx.decide(T.eq(lin(m) % 2, 0))


def moments(stat):
    def f(cx):
        poly = cx.m('poly')
        M, L = cx.dim('M', 1), cx.dim('L', 1)
        d1, sym = cx.array('d1', (M, L)), cx.array('symm', (L,))
        cx.assume_all([L], lambda l: T.or_(T.eq(sym.v(l), 1), T.eq(sym.v(l), -1)))
        r = cx.run(poly._power_moments, stat, d1, sym)
        cx.prove_shape('shape', r, (M, L))
        m, l = cx.idx(M, 'm'), cx.idx(L, 'l')
        parity_cases(cx, m)
        cx.decide(T.eq(sym.v(l), 1))
        cx.prove_elem('jump of the derivative', r.at(m, l), jump(stat, d1.v(m, l), sym.v(l), m))
        cx.prove_eq('derivatives unchanged', d1.v(m, l),
                    fresh_array(cx.ctx, 'd1', (M, L), S.F64).v(m, l))
    return f


class Deriv:
    """contract of a piecewise polynomial as far as `_derivs` uses it (C06, C07):
    the value at x of the derivative of the given order"""

    def __init__(self, P, L, order, symm=None):
        self.polyorder, self.L, self.order, self.symm = P, L, order, symm

    def __call__(self, x):
        x = T.to_real(asarr(x).scalar().val)
        k = T.z(lin(self.order))
        L = self.L
        if L == ():
            return scalar(DV(k, T.z(0), T.z(x)), S.F64)
        return mk(lambda ix: E(DV(k, T.z(lin(ix[0])), T.z(x))), L, S.F64)

    def deriv(self, n=1):
        return Deriv(self.polyorder, self.L, T.simp(T.add(lin(self.order), n)))


def derivs(vector):
    spec = {}

    def inv(env, k):
        g = getattr(env, '__gen__')
        L, x = spec['L'], spec['x']
        out = [('current function is the k-th derivative', T.eq(lin(env.ppoly.order), k)),
               ('k + 1 results', T.eq(dexpr(g.length), T.add(k, 1)))]

        def ent(j, *l):
            v = asarr(g.item(j)).at(*l).val
            return T.eq(v, DV(T.z(lin(j)), T.z(lin(l[0]) if l else 0), T.z(x.v())))
        out.append(('results are the values of the derivatives', S.cx().close(
            [T.simp(T.add(k, 1))] + list(L), lambda ix: ent(*ix), 'all')))
        return out

    def hav_gen(ctx, old, env):
        L = spec['L']
        n = ctx.fresh_int('len')
        ctx.fact(n >= 0)
        nm = ctx.fresh('gen')
        fnn = T.fn(nm, T.IS, *([T.IS] * len(L)), T.RS)
        return S.SymList(n, lambda k: mk(lambda ix: E(fnn(
            T.z(lin(k)), *[T.z(lin(i)) for i in ix])), L, S.F64))

    def hav_poly(ctx, old, env):
        return Deriv(old.polyorder, old.L, ctx.fresh_int('order'))

    def scen(cx):
        poly = cx.m('poly')
        P = cx.dim('P', 1)
        L = (cx.dim('L', 1),) if vector else ()
        x = cx.real('x')
        spec.update(L=L, x=x)
        r = cx.run(lambda: poly._derivs(Deriv(cx.dimval(P), L, 0), x))
        a = asarr(r)
        cx.prove_shape('one value per coefficient', a, (P,) + L)
        m, l = cx.idx(P, 'm'), tuple(cx.idx(d, 'l') for d in L)
        cx.prove('derivative of that order', T.eq(
            a.v(m, *l), DV(m, T.z(l[0] if l else 0), T.z(x.v()))))
    return Scenario('derivatives' + ('-vector' if vector else ''), scen, loops=[LoopContract(
        ('poly', '_derivs', 0), inv, havoc={'__gen__': hav_gen, 'ppoly': hav_poly})],
        functions=['poly._derivs'])


def model_of(stat, vector, known):
    """the model of a function (vector) of given or unrecorded parity"""
    def f(cx):
        poly = cx.m('poly')
        P = cx.dim('P', 1)
        L = (cx.dim('L', 1),) if vector else ()
        if known:
            sym = cx.array('symm', L, 'i') if L else cx.int('symm')
            pm = lambda *l: T.or_(T.eq(sym.v(*l), 1), T.eq(sym.v(*l), -1))
            cx.assume_all(L, pm) if L else cx.assume(pm())
            sv = lambda l: sym.v(*l)
        else:
            sym = cx.fnarray(L, lambda *l: 0, 'i')
            sv = lambda l: alt(l[0]) if l else Fr(1)
        q = Deriv(cx.dimval(P), L, 0, sym)

        def stub(p, x):
            cx.prove('derivatives of the function at the upper end', T.and_(
                p is q, T.eq(asarr(x).scalar().val, 1)))
            return S.SymSeq(P, lambda k: Deriv(P, L, k)(1))
        cx.patch('poly', '_derivs', stub)
        r = cx.run(poly._power_model, stat, q)
        Lm = L if vector else (1,)
        cx.prove_shape('moments', r.moments, (P,) + Lm)
        m, l = cx.idx(P, 'm'), tuple(cx.idx(d, 'l') for d in L)
        parity_cases(cx, m)
        if known:
            cx.decide(T.eq(sym.v(*l), 1))
        elif vector:
            parity_cases(cx, l[0])
        l0 = l or (0,)
        cx.prove_elem('jump of the derivative', r.moments.at(m, *l0), jump(
            stat, DV(m, T.z(lin(l0[0])), z3.RealVal(1)), sv(l), m))
    return f


def built(stat):
    """the transform builds the model of its own function and kind of frequencies"""
    def f(cx):
        poly = cx.m('poly')
        p = make_poly(cx, ('L',), lo=-1, hi=1)
        mark = object()

        def stub(st, q):
            cx.prove('model of the polynomial and its frequencies', q is p and st == stat)
            return mark
        cx.patch('poly', '_power_model', stub)
        na = cx.int('n_asymp')
        ft = cx.run(poly.PiecewiseLegendreFT, p, stat, na)
        cx.prove('model is used', ft._model is mark)
        cx.prove_eq('cutoff', ft.n_asymp, na.v())
        other = object()
        ft = cx.run(poly.PiecewiseLegendreFT, p, stat, na, other)
        cx.prove('given model is used', ft._model is other)
    return f


def select(kind):
    def f(cx):
        p, mom, M, L = model(cx, None)
        if kind == 'int':
            j = cx.int('j')
            cx.assume(T.and_(T.le(0, j.v()), T.lt(j.v(), L)))
            r, n, src = cx.run(lambda: p[j]), 1, lambda l: j.v()
        elif kind == 'slice':
            b, e = cx.int('b'), cx.int('e')
            cx.assume(T.and_(T.le(0, b.v()), T.lt(b.v(), e.v()), T.le(e.v(), L)))
            r, n = cx.run(lambda: p[b:e]), T.sub(e.v(), b.v())
            src = lambda l: T.add(lin(l), b.v())
        else:
            K = cx.dim('K', 1)
            a = cx.array('sel', (K,), 'i')
            cx.assume_all([K], lambda k: T.and_(T.le(0, a.v(k)), T.lt(a.v(k), L)))
            r, n, src = cx.run(lambda: p[a]), K, lambda l: a.v(l)
        cx.prove_shape('moments', r.moments, (M, n))
        n = z3.Int('nsel') if not isinstance(n, int) else n
        if not isinstance(n, int):
            cx.assume(T.eq(n, dexpr(r.moments._shape[1])))
        m, l = cx.idx(M), cx.idx(n)
        cx.prove_elem('moments of the selected functions', r.moments.at(m, l), mom.v(m, src(l)))
    return f


def recurrence(cx):
    """the Horner recurrence yields the sum of moments times powers: with
    S(k) = sum_{m<k} A[M-k+m] w^(m+1), S(k+1) = (S(k) + A[M-k-1]) w; term by term"""
    M = cx.dim('M', 1)
    k, m = cx.idx(M, 'k'), cx.int('m').v()
    A = T.fn('A', T.IS, T.RS)
    PR, PI_ = T.fn('pow_re', T.IS, T.RS), T.fn('pow_im', T.IS, T.RS)
    pw = lambda q: Cx(PR(T.z(q)), PI_(T.z(q)))
    w = cx.cplx('w').v()
    # powers: pw(0) = 1, pw(q+1) = pw(q) w
    nxt = T.mul(pw(T.add(m, 1)), w)
    cx.assume(T.and_(T.eq(PR(T.z(T.add(m, 2))), nxt.re), T.eq(PI_(T.z(T.add(m, 2))), nxt.im)))
    # term m+1 of S(k+1) is w times term m of S(k)
    a = T.mul(A(T.z(T.add(T.sub(M, T.add(k, 1)), T.add(m, 1)))), pw(T.add(m, 2)))
    b = T.mul(T.mul(A(T.z(T.add(T.sub(M, k), m))), pw(T.add(m, 1))), w)
    cx.prove_eq('real part of the shifted term', T.re(a), T.re(b))
    cx.prove_eq('imaginary part of the shifted term', T.im(a), T.im(b))
    # term 0 of S(k+1) is A[M-k-1] w
    one = T.mul(Cx(Fr(1), Fr(0)), w)
    cx.prove_eq('first term', T.re(T.mul(A(T.z(M - k - 1)), one)),
                T.re(T.mul(w, A(T.z(M - k - 1)))))


IM = ['poly._PowerModel.__init__']
GI = ['poly._PowerModel.giw', '_util.RavelArgumentDecorator.__call__',
      '_util.check_reduced_matsubara']
SCENARIOS = [Scenario('moments-vector', init(True), functions=IM),
             Scenario('moments-matrix', init(False), functions=IM),
             *[Scenario(f'model-{M}-{r}', giw(M, r), functions=GI)
               for M, r in ((1, 0), (1, 1), (1, 2), (2, 1), (3, 1), (4, 0), (5, 1))],
             giw_any(), Scenario('horner', recurrence, functions=[]),
             *[Scenario(f'jumps-{s}', moments(s), functions=['poly._power_moments'])
               for s in ('odd', 'even')],
             derivs(False), derivs(True),
             *[Scenario(f"model-of-{s}{'-vector' if v else ''}{'-known' if k else ''}",
                        model_of(s, v, k), functions=['poly._power_model'])
               for s in ('odd', 'even') for v in (False, True) for k in (False, True)],
             *[Scenario(f'built-{s}', built(s), functions=['poly.PiecewiseLegendreFT.__init__'])
               for s in ('odd', 'even')],
             *[Scenario(f'select-{k}', select(k), functions=['poly._PowerModel.__getitem__'])
               for k in ('int', 'slice', 'list')]]
CA = ['poly.PiecewiseLegendreFT.__call__', 'poly.PiecewiseLegendreFT.__init__',
      '_util.RavelArgumentDecorator.__call__', '_util.check_reduced_matsubara']
for fr_, rk_ in (('even', 0), ('even', 1), ('odd', 1), ('odd', 2)):
    SCENARIOS.append(Scenario(f'cutoff-{fr_}-{rk_}', ft_call(fr_, rk_, True), functions=CA))
ASSUMED = ["integration by parts: the Fourier integral of a function with derivative jumps only "
           "at the period has the stated expansion (mathematics, not code)",
           "functions of definite parity: f^(m)(-1) = parity (-1)^m f^(m)(1)"]
BOUNDED = ["agreement of model and direct transform at the cutoff (battery)",
           "accuracy in floating point (battery)"]
