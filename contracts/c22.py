"""Contracts for C22: the adapter with the interface of irbasis."""
import warnings
from .common import *
from . import c15

LEVEL = 'proof'
U = T.fn('adapter_u', T.IS, T.RS, T.RS)
DU = T.fn('adapter_du', T.IS, T.IS, T.RS, T.RS)
UH = [T.fn('adapter_uhat_' + c, T.IS, T.IS, T.RS) for c in 'ri']
F = T.fn('adapter_f', T.RS, T.RS)


def have(cx, label, f):
    if cx.prove(label, f):
        cx.assume(f)


class Fns:
    """contract of PiecewiseLegendrePoly as the adapter uses it (C01, C03, C05)"""

    def __init__(self, cx, name, n, order=0):
        self.cx, self.name, self.n, self.order = cx, name, n, order
        self.size, self.shape = cx.dimval(n), (cx.dimval(n),)
        # functions of different families are different functions
        self.fam = {'u': 0, 'v': 1}[name]
        self.knots = ('knots of', name)
        self.nsegments = ('segments of', name)

    def val(self, l, x):
        key = T.add(T.mul(2, lin(self.order) if isinstance(self.order, int)
                          else asarr(self.order).v()), self.fam)
        return DU(T.z(key), T.z(l), T.z(R(x)))

    def deriv(self, n=1):
        return Fns(self.cx, self.name, self.n, n)

    def __call__(self, x):
        x = asarr(x)
        s = x.snap()
        return mk(lambda ix: E(self.val(lin(ix[0]), s(tuple(ix[1:])).val)),
                  (self.n,) + x._shape, S.F64)

    def value(self, l, x):
        from engine.symnp import broadcast_arrays
        l, x = broadcast_arrays(l, x)
        a, b = asarr(l).snap(), asarr(x).snap()
        r = mk(lambda ix: E(self.val(a(ix).val, b(ix).val)), asarr(x)._shape, S.F64)
        r._is_scalar = not r._shape
        return r

    def __getitem__(self, l):
        me = self

        class One:
            key = me, l

            def __call__(self, x):
                return me.value(l, x)
        return One()


class Hat:
    """contract of PiecewiseLegendreFT (C02, C10): one function per u_l, evaluated at
    reduced frequencies"""

    def __init__(self, poly, freq='even', n_asymp=None, power_model=None, sel=None):
        self.poly, self.freq, self.n_asymp, self.sel = poly, freq, n_asymp, sel
        self.model = power_model
        self.zeta = {'odd': 1, 'even': 0}[freq]

    def __getitem__(self, l):
        return Hat(self.poly, self.freq, self.n_asymp, self.model, l)

    def __call__(self, n):
        n = asarr(n)
        s = n.snap()
        me = self
        val = lambda l, k: Cx(*[f(T.z(l), T.z(k)) for f in UH])
        if self.sel is None:
            return mk(lambda ix: E(val(lin(ix[0]), s(tuple(ix[1:])).val)),
                      (me.poly.n,) + n._shape, S.C128)
        l = asarr(self.sel)
        a = l.snap()
        k = l.ndim
        return mk(lambda ix: E(val(a(tuple(ix[:k])).val, s(tuple(ix[k:])).val)),
                  l._shape + n._shape, S.C128)


class SveResult:
    def __init__(self, cx):
        self.n = cx.dim('dim', 1)
        self.s = cx.array('s', (self.n,))
        self.u, self.v = Fns(cx, 'u', self.n), Fns(cx, 'v', self.n)
        self.parts = []

    def part(self, *a, **kw):
        self.parts.append((a, kw))
        return self.u, self.s, self.v


def build(cx, stat):
    cx.patch('poly', 'PiecewiseLegendreFT', Hat)
    sv = SveResult(cx)
    lam = cx.real('Lambda')
    cx.assume(T.gt(lam.v(), 0))
    b = cx.run(cx.m('adapter').Basis, stat, lam, sv, label='constructor')
    return b, sv, lam


def constructor(stat):
    def f(cx):
        b, sv, lam = build(cx, stat)
        cx.prove('statistics', b.statistics == stat)
        cx.prove_eq('Lambda', asarr(b.Lambda).v(), lam.v())
        cx.prove('default truncation', sv.parts == [((), {})])
        cx.prove_eq('dimension', asarr(cx.run(b.dim)).v(), lin(sv.n))
        h = b._uhat
        cx.prove('transforms of u', h.poly is sv.u and h.sel is None and h.model is None)
        cx.prove('frequencies of the statistics', h.freq == ('odd' if stat == 'F' else 'even'))
        cx.prove_eq('asymptotics beyond the convergence radius', asarr(h.n_asymp).v(),
                    T.mul(40, lam.v()))
        cx.prove('edges', b.section_edges_x is sv.u.knots and b.section_edges_y is sv.v.knots)
        cx.prove('number of sections', cx.run(b.num_sections_x) is sv.u.nsegments
                 and cx.run(b.num_sections_y) is sv.v.nsegments)
    return f


def unknown_statistics(cx):
    cx.patch('poly', 'PiecewiseLegendreFT', Hat)
    for stat in ('f', 'X', None, 'FB', 'barB'):
        cx.raises(f'constructor {stat}', (KeyError, ValueError), cx.m('adapter').Basis, stat,
                  cx.real('Lambda'), SveResult(cx))
        cx.raises(f'load {stat}', (KeyError, ValueError), cx.m('adapter').load, stat,
                  cx.real('Lambda'))


def load(stat, kind):
    def f(cx):
        a = cx.m('adapter')
        made, computed = [], []

        def kern(name):
            def new(*args, **kw):
                made.append((name, args, kw))
                return made[-1]
            return new
        for name in ('LogisticKernel', 'RegularizedBoseKernel'):
            cx.patch('kernel', name, kern(name))
        sv = SveResult(cx)

        def compute(*args, **kw):
            computed.append((args, kw))
            return sv
        cx.patch('sve', 'compute', compute)
        cx.patch('poly', 'PiecewiseLegendreFT', Hat)
        lam = cx.scalar_in('Lambda', kind)
        cx.assume(T.gt(lam.v(), 0))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            b = cx.run(a.load, stat, lam)
        name = 'LogisticKernel' if stat == 'F' else 'RegularizedBoseKernel'
        cx.prove('one kernel, of the statistics', [m[0] for m in made] == [name])
        cx.prove('no options of the kernel', not made[0][2] and len(made[0][1]) == 1)
        cx.prove_eq('cutoff', asarr(made[0][1][0]).v(), R(lam.v()))
        cx.prove('expansion of this kernel', len(computed) == 1
                 and computed[0][0] == (made[0],) and not computed[0][1])
        cx.prove('basis from this expansion', b._u is sv.u and b._v is sv.v and b._s is sv.s)
        cx.prove('statistics', b.statistics == stat)
        cx.prove_eq('Lambda', asarr(b.Lambda).v(), lam.v())
    return f


def values(cx):
    b, sv, lam = build(cx, 'F')
    r = cx.run(b.sl)
    cx.prove_shape('all values', r, (sv.n,))
    i = cx.idx(sv.n)
    cx.prove_elem('all values', r.at(i), sv.s.v(i))
    l = cx.int('l')
    cx.assume(T.and_(T.le(0, l.v()), T.lt(l.v(), lin(sv.n))))
    r = cx.run(b.sl, l)
    cx.prove_shape('one value', r, ())
    cx.prove_elem('one value', asarr(r).at(), sv.s.v(l.v()))
    k = cx.dim('k', 0)
    cx.assume(T.le(lin(k), lin(sv.n)))
    r = cx.run(b.sl, slice(None, cx.dimval(k)))
    cx.prove_shape('slice', r, (k,))
    i = cx.idx(k)
    cx.prove_elem('slice', r.at(i), sv.s.v(i))


def functions(name, derivative):
    def f(cx):
        b, sv, lam = build(cx, 'B')
        p = {'u': sv.u, 'v': sv.v}[name]
        get = {'u': b.ulx, 'v': b.vly}[name]
        extra = ()
        if derivative:
            get = {'u': b.d_ulx, 'v': b.d_vly}[name]
            o = cx.int('order')
            cx.assume(T.ge(o.v(), 0))
            extra = o,
            p = p.deriv(o)
        a, c = cx.dim('a'), cx.dim('c')
        l, x = cx.int('l'), cx.real('x')
        r = cx.run(get, l, x, *extra)
        cx.prove_shape('one function, one point', r, ())
        cx.prove_elem('one function, one point', asarr(r).at(), p.val(l.v(), x.v()))
        X = cx.array('X', (a, c))
        i, j, k = cx.idx(a), cx.idx(c), cx.idx(sv.n)
        r = cx.run(get, l, X, *extra)
        cx.prove_shape('one function, many points', r, (a, c))
        cx.prove_elem('one function, many points', r.at(i, j), p.val(l.v(), X.v(i, j)))
        Lx = cx.array('Lx', (a, 1), 'i')
        r = cx.run(get, Lx, X, *extra)
        cx.prove_shape('broadcast', r, (a, c))
        cx.prove_elem('broadcast', r.at(i, j), p.val(Lx.v(i, 0), X.v(i, j)))
        r = cx.run(get, None, X, *extra)
        cx.prove_shape('all functions', r, (sv.n, a, c))
        cx.prove_elem('all functions', r.at(k, i, j), p.val(lin(k), X.v(i, j)))
        r = cx.run(get, None, x, *extra)
        cx.prove_shape('all functions, one point', r, (sv.n,))
        cx.prove_elem('all functions, one point', r.at(k), p.val(lin(k), x.v()))
    return f


def transform(stat, sel):
    """unl(n, l) = transform of u_l at the reduced frequency 2n + zeta"""
    z = 1 if stat == 'F' else 0

    def f(cx):
        b, sv, lam = build(cx, stat)
        val = lambda l, n: Cx(*[q(T.z(l), T.z(T.add(T.mul(2, n), z))) for q in UH])
        m = cx.dim('m', 1)
        n = cx.array('n', (m,), 'i')
        n1 = cx.int('n1')
        if sel == 'one':
            l = cx.int('l')
            r = asarr(cx.run(b.compute_unl, n, l))
            if cx.decide(T.eq(lin(m), 1)):
                cx.prove_shape('single', r, ())
                cx.prove_elem('transform', r.at(), val(l.v(), n.v(0)))
            else:
                cx.prove_shape('frequencies', r, (m,))
                i = cx.idx(m)
                cx.prove_elem('transform', r.at(i), val(l.v(), n.v(i)))
            r = asarr(cx.run(b.compute_unl, n1, l))
            cx.prove_shape('one frequency', r, ())
            cx.prove_elem('one frequency', r.at(), val(l.v(), n1.v()))
            return
        if sel == 'all':
            w, arg = sv.n, None
            idx = lin
        else:
            w = cx.dim('w', 1)
            arg = cx.array('ls', (w,), 'i')
            idx = arg.v
        r = asarr(cx.run(b.compute_unl, n, arg))
        one_n, one_l = cx.decide(T.eq(lin(m), 1)), cx.decide(T.eq(lin(w), 1))
        sh = (() if one_n else (m,)) + (() if one_l else (w,))
        cx.prove_shape('frequencies by functions', r, sh)
        i, k = (0 if one_n else cx.idx(m)), (0 if one_l else cx.idx(w))
        ix = (() if one_n else (i,)) + (() if one_l else (k,))
        cx.prove_elem('transform', r.at(*ix), val(idx(k), n.v(i)))
        cx.prove_eq('argument unchanged', n.v(i), fresh_array(
            cx.ctx, 'n', (m,), S.INT64).v(i))
        r = asarr(cx.run(b.compute_unl, n1, arg))
        cx.prove_shape('one frequency', r, () if one_l else (w,))
        cx.prove_elem('one frequency', r.at(*(() if one_l else (k,))), val(idx(k), n1.v()))
    return f


# ---- roots of functions of a real variable ------------------------------------------
def monotone(cx, *names):
    """numpy.tanh, sinh: strictly increasing; tanh: (-1, 1)"""
    x, y = z3.Reals('mono_x mono_y')
    for nm in names:
        f = lambda q: T.func(nm, q)
        a, b = f(x), f(y)
        cx.assume(z3.ForAll([x, y], z3.Implies(x < y, a < b),
                            patterns=[z3.MultiPattern(a, b)]))


def opposite(u, v):
    return T.or_(T.and_(T.lt(u, 0), T.gt(v, 0)), T.and_(T.gt(u, 0), T.lt(v, 0)))


def find_roots():
    rank = T.fn('changes_before', T.IS, T.IS)
    BR = T.fn('root_at', T.RS, T.BS)
    spec = {}

    def f(x):
        x = asarr(x)
        s = x.snap()
        r = mk(lambda ix: E(F(T.z(s(ix).val))), x._shape, S.F64)
        r._is_scalar = not r._shape
        return r

    X = T.fn('grid', T.IS, T.RS)

    def gr(i):
        return X(T.z(lin(i)))

    def change(i):
        return T.z(opposite(F(gr(i)), F(gr(T.add(lin(i), 1)))))

    def outer(env, k):
        ctx = S.cx()
        zs = env.zeros
        k = lin(k)
        if isinstance(zs, list):
            n, item = len(zs), lambda q: None
            return [('none yet', len(zs) == 0 and T.eq(rank(T.z(k)), 0))]
        n = dexpr(zs.length)
        val = lambda q: asarr(zs.item(q)).v()
        i, p, q = (z3.Int('inv_' + c) for c in 'ipq')
        rng = z3.And(0 <= p, p < T.z(n))
        each = lambda g: z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < T.z(k), change(i)), g(i)), patterns=[rank(i)])
        return [
            ('as many as sign changes so far', T.eq(n, rank(T.z(k)))),
            ('an entry for each sign change', each(lambda i: z3.And(
                0 <= rank(i), rank(i) < T.z(n)))),
            ('root above the lower end', each(lambda i: T.z(T.lt(gr(i), val(rank(i)))))),
            ('root below the upper end', each(lambda i: T.z(T.lt(val(rank(i)), gr(i + 1))))),
            ('sign changes at the root', each(lambda i: BR(T.z(val(rank(i)))))),
            ('up to here', z3.ForAll([p], z3.Implies(rng, z3.And(
                T.z(T.lt(gr(0), val(p))), T.z(T.le(val(p), gr(k))))))),
            ('ascending', z3.ForAll([p, q], z3.Implies(
                z3.And(0 <= p, p < q, q < T.z(n)), T.z(T.lt(val(p), val(q))))))]

    def fresh_list(ctx, old, env):
        nm = ctx.fresh('zeros')
        n = ctx.fresh_int('nzeros')
        ctx.fact(n >= 0)
        g = T.fn(nm, T.IS, T.RS)
        return S.SymList(n, lambda k: scalar(g(T.z(lin(k)))))

    def inner(env, k):
        a, b, ua = (asarr(q).v() for q in (env.a, env.b, env.u_a))
        i = asarr(env.i).v()
        fa, fb = F(T.z(a)), F(T.z(b))
        return [
            ('bracket', T.and_(T.le(gr(i), b), T.lt(b, a), T.le(a, gr(T.add(i, 1))))),
            ('sign at the upper end', T.or_(T.and_(T.gt(ua, 0), T.gt(fa, 0)),
                                            T.and_(T.lt(ua, 0), T.lt(fa, 0)))),
            ('other sign at the lower end', T.or_(T.and_(T.gt(ua, 0), T.le(fb, 0)),
                                                  T.and_(T.lt(ua, 0), T.ge(fb, 0))))]

    def scen(cx):
        a = cx.m('adapter')
        monotone(cx, 'sinh', 'tanh')
        i, u, v, r = z3.Int('ri'), z3.Real('ru'), z3.Real('rv'), z3.Real('rr')
        # midpoint of an interval, at most eps wide, between whose ends the sign changes
        cx.assume(z3.ForAll([u, v], z3.Implies(z3.And(
            u < v, v - u <= z3.RealVal('1e-12'),
            z3.Or(z3.And(F(v) > 0, F(u) <= 0), z3.And(F(v) < 0, F(u) >= 0))),
            BR((u + v) / 2)), patterns=[z3.MultiPattern(F(u), F(v))]))
        def loop_setup(x):
            N = spec['N'] = T.simp(T.sub(dexpr(x._shape[0]), 1))
            j, k = cx.idx(N, 'g'), cx.idx(N + 1, 'h')
            cx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= N), X(i) == T.z(x.v(i))),
                                patterns=[X(i)]))
            have(cx, 'grid inside the interval', T.and_(T.lt(-1, x.v(0)), T.lt(x.v(N), 1)))
            if cx.prove('grid ascending', T.implies(T.lt(lin(j), lin(k)),
                                                    T.lt(x.v(j), x.v(k)))):
                p, q = z3.Ints('gp gq')
                cx.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q <= N),
                                    X(p) < X(q)), patterns=[z3.MultiPattern(X(p), X(q))]))
            cx.assume(rank(0) == 0)
            cx.assume(z3.ForAll([i], rank(i + 1) == rank(i) + z3.If(change(i), 1, 0),
                                patterns=[rank(i + 1)]))
        spec['setup'] = loop_setup
        r = cx.run(a._find_roots, f)
        n = dexpr(r._shape[0])
        p, q = cx.idx(n, 'p'), cx.idx(n, 'q')
        cx.prove('ascending', T.implies(T.lt(lin(p), lin(q)), T.lt(r.v(p), r.v(q))))
        cx.prove('inside (-1, 1)', T.and_(T.lt(-1, r.v(p)), T.lt(r.v(p), 1)))
        cx.prove_elem('defined', r.at(p), r.v(p))
        N = spec['N']
        cx.prove('one root for each sign change of the grid', T.eq(n, rank(N)))
        k = cx.idx(N, 'cell')
        if cx.decide(change(k)):
            m = rank(T.z(lin(k)))
            cx.prove('root of each cell', T.and_(
                T.le(0, m), T.lt(m, n), T.lt(gr(k), r.v(m)),
                T.lt(r.v(m), gr(T.add(lin(k), 1)))))
            cx.prove('sign changes there', BR(T.z(r.v(m))))

    def outer_inv(env, k):
        if isinstance(env.zeros, list):
            spec['setup'](env.xvec)
        return outer(env, k)
    return Scenario('find_roots', scen, loops=[
        LoopContract(('adapter', '_find_roots', 0), outer_inv, havoc=dict(zeros=fresh_list),
                     keep=('i', 'a', 'b', 'u_a', 'half_point')),
        LoopContract(('adapter', '_find_roots', 1), inner,
                     havoc=dict(half_point=lambda ctx, old, env: None))],
        functions=['adapter._find_roots'], timeout=60)



def roots_stub(cx, seen, m):
    """contract of _find_roots (proved by `find_roots`)"""
    z = cx.array('root', (m,))
    cx.assume_all([m, m], lambda i, j: T.implies(T.lt(lin(i), lin(j)), T.lt(z.v(i), z.v(j))))
    cx.assume_all([m], lambda i: T.and_(T.lt(-1, z.v(i)), T.lt(z.v(i), 1)))

    def stub(f):
        seen.append(f)
        return z
    return z, stub


def sampling_x(method):
    def f(cx):
        b, sv, lam = build(cx, 'F')
        m, seen = cx.dim('roots', 0), []
        z, stub = roots_stub(cx, seen, m)
        cx.patch('adapter', '_find_roots', stub)
        l = cx.int('l')
        x = asarr(cx.run(b.sampling_points_x, l) if method else
                  cx.run(cx.m('adapter').sampling_points_x, b, l))
        cx.prove('roots of one function', len(seen) == 1)
        y = cx.real('y')
        cx.prove_elem('roots of u_l', asarr(cx.run(seen[0], y)).at(), sv.u.val(l.v(), y.v()))
        n = T.simp(T.add(lin(m), 1))
        cx.prove_shape('one more point than roots', x, (n,))
        i, j = cx.idx(n, 'i'), cx.idx(m, 'j')
        cx.prove_elem('defined', x.at(i), x.v(i))
        cx.prove('inside', T.and_(T.lt(-1, x.v(i)), T.lt(x.v(i), 1)))
        cx.prove('one root between neighbours', T.and_(
            T.lt(x.v(j), z.v(j)), T.lt(z.v(j), x.v(T.add(lin(j), 1)))))
        k = cx.idx(n, 'k')
        cx.prove('ascending', T.implies(T.lt(lin(i), lin(k)), T.lt(x.v(i), x.v(k))))
    return f


def sampling_y(method):
    def f(cx):
        b, sv, lam = build(cx, 'F')
        m, seen = cx.dim('roots', 0), []
        z, stub = roots_stub(cx, seen, m)
        cx.patch('adapter', '_find_roots', stub)
        l = cx.int('l')
        cx.assume(T.ge(l.v(), 0))
        odd = 0 if cx.decide(T.eq(l.v() % 2, 0)) else 1
        n = T.simp(T.add(T.mul(2, lin(m)), 1 + odd))
        half = lambda q: T.mul(Fr(1, 2), T.add(q, 1))
        # the roots, and the ends, before (A) and after (W) sorting
        tot = T.simp(T.add(n, 1))
        A, W = T.fn('unsorted', T.IS, T.RS), T.fn('sorted', T.IS, T.RS)
        p, q = T.fn('sort_perm', T.IS, T.IS), T.fn('sort_place', T.IS, T.IS)
        e, g = z3.Ints('e g')
        N, M = T.z(tot), T.z(lin(m))
        sorts = []

        def known(vs, cond, body, *pats):
            cx.assume(z3.ForAll(vs, z3.Implies(cond, T.z(body)), patterns=[
                z3.MultiPattern(*pats)]))

        def sort(v, axis=-1):
            """contract of numpy.sort: the same values in ascending order"""
            sorts.append(v)
            v = asarr(v)
            cx.prove_shape('roots and ends', v, (tot,))
            j = cx.idx(m, 'j')
            order = [T.eq(v.v(0), -1), T.eq(v.v(T.sub(tot, 1)), 1),
                     T.eq(v.v(T.add(lin(j), 1)), T.neg(half(z.v(j)))),
                     T.eq(v.v(T.add(lin(j), T.add(lin(m), 1 + odd))), half(z.v(j)))]
            if odd:
                order.append(T.eq(v.v(T.add(lin(m), 1)), 0))
            for o in order:
                # other orders are as good, but not what is described here
                if not cx.decide(o):
                    raise Unsupported("roots listed in another order")
            neg, pos = z3.And(1 <= e, e <= M), z3.And(M + 1 + odd <= e, e < N - 1)
            cx.assume(T.and_(T.eq(A(0), -1), T.eq(A(N - 1), 1)))
            if odd:
                cx.assume(T.eq(A(M + 1), 0))
            known([e], neg, T.eq(A(e), T.neg(half(z.v(e - 1)))), A(e))
            known([e], pos, T.eq(A(e), half(z.v(e - M - 1 - odd))), A(e))
            rng = z3.And(0 <= e, e < N)
            known([e], rng, z3.And(0 <= p(e), p(e) < N, q(p(e)) == e, W(e) == A(p(e))), W(e))
            known([e], rng, z3.And(0 <= q(e), q(e) < N, p(q(e)) == e, W(q(e)) == A(e)), q(e))
            known([e, g], z3.And(0 <= e, e < g, g < N), T.le(W(e), W(g)), W(e), W(g))
            return mk(lambda ix: E(W(T.z(lin(ix[0])))), (tot,), S.F64)
        cx.patch(cx.m('adapter')._np, 'sort', sort)
        x = asarr(cx.run(b.sampling_points_y, l) if method else
                  cx.run(cx.m('adapter').sampling_points_y, b, l))
        if len(sorts) != 1:
            raise Unsupported("one sort expected")
        cx.prove('roots of one function', len(seen) == 1)
        y = cx.real('y')
        cx.assume(T.and_(T.lt(-1, y.v()), T.lt(y.v(), 1)))
        # found on (-1, 1), the positive half of the axis
        cx.prove_elem('roots of v_l on the positive half', asarr(cx.run(seen[0], y)).at(),
                      sv.v.val(l.v(), half(y.v())))
        cx.prove_shape('one more point than roots', x, (n,))
        i, j = cx.idx(n, 'i'), cx.idx(m, 'j')
        cx.prove_elem('defined', x.at(i), x.v(i))
        i1 = T.add(lin(i), 1)
        w, w1 = W(T.z(lin(i))), W(T.z(i1))
        have(cx, 'mean of neighbouring roots', T.eq(x.v(i), T.mul(Fr(1, 2), T.add(w, w1))))
        c, d = cx.idx(tot, 'c'), cx.idx(tot, 'd')
        ac, ad = A(T.z(lin(c))), A(T.z(lin(d)))
        have(cx, 'roots are distinct', T.implies(T.lt(lin(c), lin(d)), T.ne(ac, ad)))
        known([e, g], z3.And(0 <= e, e < g, g < N), T.ne(A(e), A(g)), A(e), A(g))
        wc, wd = W(T.z(lin(c))), W(T.z(lin(d)))
        have(cx, 'roots ascend', T.implies(T.lt(lin(c), lin(d)), T.lt(wc, wd)))
        known([e, g], z3.And(0 <= e, e < g, g < N), T.lt(W(e), W(g)), W(e), W(g))
        cx.prove('point between neighbouring roots', T.and_(T.lt(w, x.v(i)), T.lt(x.v(i), w1)))
        # every root is one of them, hence has one point on either side
        for nm, pos, root in [('positive', T.add(lin(j), T.add(lin(m), 1 + odd)), half(z.v(j))),
                              ('negative', T.add(lin(j), 1), T.neg(half(z.v(j))))
                              ] + [('zero', T.add(lin(m), 1), 0)] * odd:
            have(cx, f'{nm} root between the ends', T.and_(T.lt(-1, root), T.lt(root, 1)))
            r = q(T.z(pos))
            have(cx, f'{nm} root among them', T.and_(T.le(0, r), T.lt(r, tot), T.eq(
                W(r), root)))
            for end, v in ((0, -1), (T.sub(tot, 1), 1)):
                s = q(T.z(end))
                have(cx, f'end {v}', T.and_(T.le(0, s), T.lt(s, tot), T.eq(W(s), v)))
                cx.prove(f'{nm} root inside the end {v}', T.lt(r, s) if v > 0 else T.lt(s, r))
        have(cx, 'before sorting: inside', T.and_(T.le(-1, ac), T.le(ac, 1)))
        known([e], z3.And(0 <= e, e < N), z3.And(-1 <= A(e), A(e) <= 1), A(e))
        cx.prove('inside', T.and_(T.le(-1, wc), T.le(wc, 1)))
    return f


# ---- frequencies ---------------------------------------------------------------------
def start_guesses(default):
    def f(cx):
        a = cx.m('adapter')
        if default:
            n = 1000
            r = cx.run(a._start_guesses)
        else:
            n = cx.int('n')
            cx.assume(T.ge(n.v(), 2))
            r = cx.run(a._start_guesses, n)
            n = n.v()
        m = dexpr(r._shape[0])
        i, j = cx.idx(m, 'i'), cx.idx(m, 'j')
        cx.prove('integers', r.dtype.kind == 'i')
        cx.prove('ascending', T.implies(T.lt(lin(i), lin(j)), T.lt(r.v(i), r.v(j))))
        cx.prove('not negative', T.ge(r.v(i), 0))
        src, cls, v = cx.ctx.uniques[-1]
        k = cx.idx(n, 'k')
        cx.prove('all small frequencies', T.and_(
            T.le(0, cls(T.z(lin(k)))), T.lt(cls(T.z(lin(k))), m),
            T.eq(r.v(cls(T.z(lin(k)))), lin(k))))
    return f


def unl_real(stat):
    z = 1 if stat == 'F' else 0

    def f(cx):
        a = cx.m('adapter')
        m = cx.dim('m', 1)
        x = cx.array('x', (m,), 'i')
        l = cx.int('l')
        cx.assume(T.ge(l.v(), 0))
        re = cx.decide(T.eq(l.v() % 2, z))
        g = T.fn('unl_part', T.IS, T.IS, T.RS)

        class B:
            statistics = stat

            @staticmethod
            def compute_unl(n, which):
                n, which = asarr(n), asarr(which)

                def el(ix):
                    # parity of the singular functions (C07)
                    q = g(T.z(which.v()), T.z(n.v(*ix)))
                    return E(Cx(q, Fr(0)) if re else Cx(Fr(0), q))
                return mk(el, n._shape, S.C128)
        r = cx.run(a._get_unl_real, B, x, l)
        cx.prove_shape('shape', r, (m,))
        i = cx.idx(m)
        cx.prove('real', asarr(r).dtype.kind == 'f')
        cx.prove_elem('the part that does not vanish', r.at(i), g(T.z(l.v()), T.z(x.v(i))))
    return f


def extrema():
    spec = {}
    B, M = T.fn('segment_start', T.IS, T.IS), T.fn('modulus', T.IS, T.RS)
    MX, AX = T.fn('largest', T.IS, T.RS), T.fn('place_of_largest', T.IS, T.IS)

    def inv(env, k):
        fn, bd, pts = env.fn, env.sign_flip_bounds, env.points
        k = lin(k)
        if isinstance(pts, list):
            spec['setup'](bd)
            return [('none yet', len(pts) == 0 and T.eq(k, 0))]
        n = dexpr(pts.length)
        val = lambda q: T.z(asarr(pts.item(q)).v())
        p, q = z3.Ints('xp xq')
        ctx = S.cx()
        for f, size, w in ctx.__dict__.pop('argmaxes', []):
            # what argmax says, for positions counted from the start of the array
            b, b1 = B(T.z(T.sub(k, 1))), B(T.z(k))
            eqs = [(T.z(bd.v(T.sub(k, 1))), b), (T.z(bd.v(k)), b1)]
            if not all(ctx.obligation('bounds of this segment', x == y) for x, y in eqs):
                continue
            for x, y in eqs:
                ctx.fact(x == y)
            sub = lambda t: z3.simplify(z3.substitute(z3.simplify(T.z(t)), *[
                (z3.simplify(x), y) for x, y in eqs]))
            q = AX(T.z(T.sub(k, 1)))
            have = z3.simplify(z3.Implies(z3.And(b <= q, sub(T.lt(q - b, size))),
                                          sub(f((q - b,)).val) <= sub(f((w,)).val)))
            # definition of M there
            mdef = [M(v) == T.z(T.abs_(env.fn.v(v))) for v in (q, b + w)]
            goal = z3.Implies(z3.And(b <= q, q < b1), M(q) <= M(b + w))
            s0 = z3.Solver()
            s0.add(have, *[x == y for x, y in eqs], *mdef, z3.Not(goal))
            s0.set('timeout', 5000)
            if s0.check() == z3.unsat:
                ctx.fact(goal)
        rng = T.and_(T.le(0, p), T.lt(p, n))
        N = T.z(n)
        return [
            ('one point per segment so far', T.eq(n, k)),
            ('inside its segment', z3.ForAll([p], T.z(T.implies(rng, T.and_(
                T.le(B(p), val(p)), T.lt(val(p), B(p + 1))))))),
            ('largest of its segment', z3.ForAll([p], T.z(T.implies(
                rng, T.ge(M(val(p)), MX(p)))), patterns=[MX(p)]))]

    def fresh_list(ctx, old, env):
        g = T.fn(ctx.fresh('points'), T.IS, T.IS)
        n = ctx.fresh_int('npoints')
        ctx.fact(n >= 0)
        return S.SymList(n, lambda k: scalar(g(T.z(lin(k))), S.INT64))

    def scen(cx):
        m = cx.dim('m', 1)
        fn = cx.array('fn', (m,))
        e, g = z3.Ints('e g')
        cx.assume(z3.ForAll([e], M(e) == T.z(T.abs_(fn.v(e))), patterns=[fn.v(e)]))

        def setup(bd):
            segs = spec['segs'] = T.simp(T.sub(dexpr(bd._shape[0]), 1))
            N = T.z(segs)
            cx.assume(z3.ForAll([e], z3.Implies(z3.And(0 <= e, e <= N), B(e) == T.z(bd.v(e))),
                                patterns=[B(e)]))
            i, j = cx.idx(segs + 1, 's'), cx.idx(segs + 1, 't')
            have(cx, 'bounds: ends', T.and_(T.eq(B(0), 0), T.eq(B(N), lin(m))))
            have(cx, 'bounds ascend', T.implies(T.lt(lin(i), lin(j)), T.lt(
                B(T.z(lin(i))), B(T.z(lin(j))))))
            cx.assume(z3.ForAll([e, g], z3.Implies(z3.And(0 <= e, e < g, g <= N), B(e) < B(g)),
                                patterns=[z3.MultiPattern(B(e), B(g))]))
            # definition of the largest modulus MX of each (nonempty) segment
            seg = z3.And(0 <= e, e < N)
            cx.assume(z3.ForAll([e], z3.Implies(seg, z3.And(
                B(e) <= AX(e), AX(e) < B(e + 1), M(AX(e)) == MX(e))), patterns=[MX(e)]))
            cx.assume(z3.ForAll([e, g], z3.Implies(z3.And(seg, B(e) <= g, g < B(e + 1)),
                                                   M(g) <= MX(e)),
                                patterns=[z3.MultiPattern(M(g), MX(e))]))
        spec['setup'] = setup
        r = cx.run(cx.m('adapter')._sampling_points, fn)
        segs = spec['segs']
        cx.prove_shape('one point per segment', r, (segs,))
        flips = [v[0] for v in cx.ctx.maskcache.values()]
        if len(flips) != 1:
            raise Unsupported("sign changes not recognised")
        fl = flips[0]
        c = dexpr(fl.count)
        cx.prove('one segment more than sign changes', T.eq(segs, T.add(c, 1)))
        i, j = cx.idx(segs, 'i'), cx.idx(segs, 'j')
        cx.prove('ascending', T.implies(T.lt(lin(i), lin(j)), T.lt(r.v(i), r.v(j))))
        cx.prove('position of a value', T.and_(T.le(0, r.v(i)), T.lt(r.v(i), lin(m))))
        k = cx.idx(T.simp(T.sub(lin(m), 1)), 'k')
        k1 = T.add(lin(k), 1)
        cx.prove('sign changes', T.eq(T.z(fl.mask(k)), T.z(opposite(fn.v(k), fn.v(k1)))))
        # between neighbouring points the sign changes exactly once
        g = cx.idx(c, 'g')
        at = fl.pos(g)
        cx.prove('each sign change lies between neighbouring points', T.and_(
            T.le(r.v(g), at), T.lt(at, r.v(T.add(lin(g), 1)))))
        cx.prove('largest modulus of the segment', T.ge(M(T.z(r.v(i))), MX(T.z(lin(i)))))
    return Scenario('extrema', scen, loops=[LoopContract(
        ('adapter', '_sampling_points', 0), inv, havoc=dict(points=fresh_list),
        keep=('segment',))], functions=['adapter._sampling_points'], timeout=60)


def full_interval(stat):
    def f(cx):
        m = cx.dim('m', 1)
        s = cx.array('sample', (m,), 'i')
        cx.assume_all([m], lambda i: T.ge(s.v(i), 0))
        cx.assume_all([m, m], lambda i, j: T.implies(T.lt(lin(i), lin(j)), T.lt(s.v(i), s.v(j))))
        r = cx.run(cx.m('adapter')._full_interval, s, stat)
        zero = stat == 'B' and cx.decide(T.eq(s.v(0), 0))
        n = T.simp(T.add(T.mul(2, lin(m)), {'F': 0, 'B': -1 if zero else 1}[stat]))
        cx.prove_shape('both halves', r, (n,))
        i, j, k = cx.idx(n, 'i'), cx.idx(n, 'j'), cx.idx(m, 'k')
        cx.prove('integers', r.dtype.kind == 'i')
        cx.prove('ascending', T.implies(T.lt(lin(i), lin(j)), T.lt(r.v(i), r.v(j))))
        mirror = T.sub(T.sub(n, 1), lin(i))
        cx.prove('symmetric', T.eq(r.v(mirror), T.sub(T.neg(r.v(i)), int(stat == 'F'))))
        cx.prove_eq('contains the samples', r.v(T.add(lin(k), T.sub(n, lin(m)))), s.v(k))
        if stat == 'B':
            cx.prove_eq('contains zero', r.v(
                T.simp(T.sub(lin(m), 1 if zero else 0))), 0)
        cx.prove_eq('argument unchanged', s.v(k), fresh_array(
            cx.ctx, 'sample', (m,), S.INT64).v(k))
    return f


def matsubara(stat, how):
    """composition: extrema of u_l on the guesses, mirrored"""
    def f(cx):
        a = cx.m('adapter')
        b, sv, lam = build(cx, stat)
        l = cx.int('l')
        cx.assume(T.ge(l.v(), 0))
        if how == 'large':
            cx.assume(T.ge(l.v(), lin(sv.n)))
            cx.raises('too large', RuntimeError, b.sampling_points_matsubara, l)
            cx.raises('too large', RuntimeError, a.sampling_points_matsubara, b, l)
            return
        cx.assume(T.lt(l.v(), lin(sv.n)))
        g, m = cx.dim('guesses', 1), cx.dim('m', 1)
        x, y = cx.array('x', (g,), 'i'), cx.array('y', (g,))
        pts = cx.array('pts', (m,), 'i')
        cx.assume_all([m], lambda i: T.and_(T.le(0, pts.v(i)), T.lt(pts.v(i), lin(g))))
        log = []

        def rec(name, r):
            def stub(*args):
                log.append((name, args))
                return r
            cx.patch('adapter', name, stub)
        rec('_start_guesses', x)
        rec('_get_unl_real', y)
        rec('_sampling_points', pts)
        out = cx.array('out', (3,), 'i')
        rec('_full_interval', out)
        if how == 'method':
            r = cx.run(b.sampling_points_matsubara, l)
        elif how == 'function':
            r = cx.run(a.sampling_points_matsubara, b, l)
        else:
            r = cx.run(a._get_mats_sampling, b)
        d = dict(log)
        cx.prove('each step once', sorted(k for k, _ in log) == [
            '_full_interval', '_get_unl_real', '_sampling_points', '_start_guesses'])
        cx.prove('default guesses', d['_start_guesses'] == ())
        q = d['_get_unl_real']
        i = cx.idx(g)
        cx.prove('of this basis', q[0] is b)
        cx.prove_eq('on the guesses', asarr(q[1]).v(i), x.v(i))
        cx.prove_eq('function', asarr(q[2]).v(), T.sub(lin(sv.n), 1) if how == 'default'
                    else l.v())
        cx.prove_eq('extrema of its values', asarr(d['_sampling_points'][0]).v(i), y.v(i))
        s, st = d['_full_interval']
        j = cx.idx(m)
        cx.prove_shape('selected frequencies', s, (m,))
        cx.prove_eq('selected frequencies', asarr(s).v(j), x.v(pts.v(j)))
        cx.prove('of the statistics', st == stat)
        cx.prove('both halves returned', r is out)
    return f


SCENARIOS = [find_roots(), extrema()]
SCENARIOS += [Scenario(f"sampling {d} {'method' if k else 'function'}", s(k), functions=[
    f'adapter.sampling_points_{d}'], timeout=60)
    for d, s in (('x', sampling_x), ('y', sampling_y)) for k in (0, 1)]
SCENARIOS += [Scenario(f"guesses {'default' if k else 'any'}", start_guesses(k), functions=[
    'adapter._start_guesses']) for k in (0, 1)]
SCENARIOS += [Scenario(f'real part {s}', unl_real(s), functions=['adapter._get_unl_real'])
              for s in 'FB']
SCENARIOS += [Scenario(f'full interval {s}', full_interval(s), functions=[
    'adapter._full_interval']) for s in 'FB']
SCENARIOS += [Scenario(f'frequencies {s} {h}', matsubara(s, h), functions=[
    'adapter._get_mats_sampling', 'adapter.sampling_points_matsubara',
    'adapter.Basis.sampling_points_matsubara'])
    for s in 'FB' for h in ('method', 'function', 'default', 'large')]
SCENARIOS += [Scenario(f'constructor {s}', constructor(s), functions=[
    'adapter.Basis.__init__', 'adapter.Basis.dim', 'adapter.Basis.section_edges_x'])
    for s in 'FB']
SCENARIOS += [Scenario('unknown statistics', unknown_statistics)]
SCENARIOS += [Scenario(f'load {s} {k}', load(s, k), functions=['adapter.load'])
              for s in 'FB' for k in 'fi']
SCENARIOS += [Scenario('values', values, functions=['adapter.Basis.sl', 'adapter._select'])]
SCENARIOS += [Scenario(f"{'derivatives' if d else 'functions'} {n}", functions(n, d), functions=[
    f"adapter.Basis.{'d_' if d else ''}{'ulx' if n == 'u' else 'vly'}", 'adapter._selectvals'])
    for n in 'uv' for d in (0, 1)]
SCENARIOS += [Scenario(f'transform {s} {q}', transform(s, q),
                       functions=['adapter.Basis.compute_unl'])
              for s in 'FB' for q in ('one', 'all', 'some')]
ASSUMED = ["values, selections, derivatives of the singular functions and their transforms "
           "(C01, C02, C03, C05, C10)", "parity of the singular functions (C07)",
           "number of functions kept by default (C13)",
           "numpy.sort, sinh and tanh increasing",
           "the transform of u_l alternates between the extrema found (battery)",
           "termination of the bisection in machine arithmetic (battery)"]
BOUNDED = ["rank of point and frequency arrays: up to 2 (lengths unbounded)",
           "roots outside or between two points of the grid in one cell: battery only"]
