"""C08 root search."""
from .common import *

LEVEL = 'proof'
BR = T.fn('Bracketed', T.RS, T.RS, T.RS, T.BS)   # root r bracketed inside [a, b]


def func(cx, kind):
    """an arbitrary vectorised function"""
    F = T.fn('F', T.RS if kind == 'f' else T.IS, T.RS)

    def f(x):
        x = asarr(x)
        s = x.snap()
        return mk(lambda ix: E(F(T.z(s(ix).val))), x._shape, S.F64)
    return F, f


def neg(v):
    return T.lt(v, 0)


def differ(u, v):
    return T.ne(neg(u), neg(v)) if False else T.or_(T.and_(neg(u), T.not_(neg(v))),
                                                    T.and_(neg(v), T.not_(neg(u))))


def bracket_axioms(cx, F, xeps):
    """definition of a bracketed root (only the directions needed)"""
    u, v, r, a, b, c, d = z3.Reals('bu bv br ba bb bc bd')
    body = z3.Implies(z3.And(a <= u, u < v, v <= b, v - u < xeps, z3.Or(r == u, r == v),
                             T.z(differ(F(u), F(v)))), BR(r, a, b))
    cx.assume(z3.ForAll([u, v, r, a, b], body,
                        patterns=[z3.MultiPattern(F(u), F(v), BR(r, a, b))]))
    cx.assume(z3.ForAll([r, a, b, c, d], z3.Implies(
        z3.And(BR(r, c, d), a <= c, d <= b), BR(r, a, b)),
        patterns=[z3.MultiPattern(BR(r, c, d), BR(r, a, b))]))


def root_ok(kind, F, r, a, b):
    if kind == 'f':
        return T.and_(T.lt(a, r), T.lt(r, b), BR(T.z(r), T.z(a), T.z(b)))
    return T.and_(T.le(a, r), T.lt(r, b), T.not_(differ(F(T.z(r)), F(T.z(a)))),
                  differ(F(T.z(r)), F(T.z(T.add(r, 1)))))


def cell_pre(kind, F, a, b, fa, fb):
    return T.and_(T.lt(a, b), T.eq(fa, F(T.z(a))), T.eq(fb, F(T.z(b))), differ(fa, fb))


def bisect_contract(cx, kind, F, used):
    """ensures of the bisection: one root per cell, in some order"""
    def stub(f, a, b, fa, fb, *xeps):
        a, b, fa, fb = map(asarr, (a, b, fa, fb))
        C = a._shape[0]
        cx.match_masks()
        for o, nm in ((b, 'b'), (fa, 'f(a)'), (fb, 'f(b)')):
            cx.prove_shape(f'bisection gets as many {nm} as a', o, (C,))
        k = cx.idx(C, 'cell')
        cx.prove('bisection: cells given with their function values and a sign change',
                 cell_pre(kind, F, a.v(k), b.v(k), fa.v(k), fb.v(k)))
        if kind == 'f':
            cx.prove('bisection: positive tolerance', T.gt(cx.val(xeps[0]), 0))
        tag = cx.ctx.fresh('bis')
        pi, inv = T.fn(tag + 'pi', T.IS, T.IS), T.fn(tag + 'inv', T.IS, T.IS)
        r = cx.array(tag + 'r', (C,), kind)
        j = z3.Int('bj')
        c = T.z(dexpr(C))
        rng = z3.And(0 <= j, j < c)
        cx.assume(z3.ForAll([j], z3.Implies(rng, z3.And(
            0 <= pi(j), pi(j) < c, inv(pi(j)) == j,
            T.z(root_ok(kind, F, r.v(j), a.v(pi(j)), b.v(pi(j)))))), patterns=[T.z(r.v(j))]))
        cx.assume(z3.ForAll([j], z3.Implies(rng, z3.And(0 <= inv(j), inv(j) < c,
                                                        pi(inv(j)) == j)), patterns=[inv(j)]))
        used.append((C, pi, inv, r, a, b))
        return r
    return stub


def bisect(kind):
    name = '_bisect_cont' if kind == 'f' else '_bisect_discr'
    spec = {}

    def inv(env, k):
        ctx = S.cx()
        C, a0, b0, F = spec['C'], spec['a'], spec['b'], spec['F']

        def cells(f):
            return ctx.close([C], lambda ix: f(*ix))
        a, b, fa, fb = env.a, env.b, env.fa, env.fb
        return [
            ('inside the given cell', cells(lambda i: T.and_(
                T.le(a0.v(i), a.v(i)), T.lt(a.v(i), b.v(i)), T.le(b.v(i), b0.v(i))))),
            ('values at the lower end', cells(lambda i: T.eq(fa.v(i), F(T.z(a.v(i)))))),
            ('values at the upper end', cells(lambda i: T.eq(fb.v(i), F(T.z(b.v(i)))))),
            ('sign change', cells(lambda i: differ(fa.v(i), fb.v(i)))),
            ('sign at the lower end', cells(lambda i: T.not_(differ(
                fa.v(i), F(T.z(a0.v(i)))))))]

    def variant(env):
        # every cell shrinks (integers: at the fixed cell 0)
        return T.sub(env.b.v(0), env.a.v(0))

    def scen(cx):
        g = cx.m('_roots')
        F, f = func(cx, kind)
        C = cx.dim('cells', 1)
        a, b = cx.array('a', (C,), kind), cx.array('b', (C,), kind)
        fa, fb = cx.array('fa', (C,)), cx.array('fb', (C,))
        cx.assume_all([C], lambda k: cell_pre(kind, F, a.v(k), b.v(k), fa.v(k), fb.v(k)))
        spec.update(C=C, a=a, b=b, F=F)
        real = getattr(g, name)
        used = []
        cx.patch('_roots', name, bisect_contract(cx, kind, F, used))
        args = (a, b, fa, fb)
        if kind == 'f':
            e = cx.real('xeps')
            cx.assume(T.gt(e.v(), 0))
            bracket_axioms(cx, F, e.v())
            args += (e,)
        r = cx.run(real, f, *args)
        cx.prove_shape('one root per cell', r, (C,))
        i = cx.idx(C, 'cell')
        masks = [v[0] for v in cx.ctx.maskcache.values()]
        if not masks:
            raise Unsupported("no selection of finished cells")
        if used:
            CB, pi, pinv, rb, _, _ = used[0]
            mb = [m for m in masks if S.same(m.count, CB)]
            ma = [m for m in masks if m not in mb[:1]]
            if not mb or not ma:
                raise Unsupported("selection of unfinished cells not recognised")
            if cx.decide(ma[0].mask(i)):
                j = ma[0].rank(i)
            else:
                j = T.add(ma[0].count, pinv(T.z(mb[0].rank(i))))
        else:
            j = i
        cx.prove('its position is within the result', T.and_(T.le(0, j), T.lt(j, C)))
        cx.prove('the root of each cell is in the result and bracketed', root_ok(
            kind, F, r.v(j), a.v(i), b.v(i)))
        cx.prove('arguments unchanged', T.and_(
            T.eq(a.v(i), fresh_array(cx.ctx, 'a', (C,), a.dtype).v(i)),
            T.eq(fb.v(i), fresh_array(cx.ctx, 'fb', (C,), fb.dtype).v(i))))
    return Scenario(name.strip('_'), scen, loops=[LoopContract(
        ('_roots', name, 0), inv, variant=variant if kind == 'i' else None)],
        functions=['_roots.' + name])


def find_all(kind):
    def f(cx):
        g = cx.m('_roots')
        F, f = func(cx, kind)
        n = cx.dim('n', 1)
        x = cx.array('x', (n,), kind)
        cx.assume_all([n, n], lambda i, j: T.implies(T.lt(lin(i), lin(j)), T.lt(x.v(i), x.v(j))))
        used = []
        name = '_bisect_cont' if kind == 'f' else '_bisect_discr'
        cx.patch('_roots', name, bisect_contract(cx, kind, F, used))
        # not every grid point is zero (else the tolerance is zero)
        Fx = lambda i: F(T.z(x.v(i)))
        typ = {} if kind == 'f' else dict(type='discrete')
        r = cx.run(g.find_all, f, x, **typ)
        hits = cx.run(lambda: x[f(x) == 0])
        nh = hits._shape[0]
        me = [v[0] for v in cx.ctx.maskcache.values()]
        cx.match_masks()
        hit = [m for m in me if S.same(m.count, nh)][0]
        i = cx.idx(n, 'gp')
        j = cx.idx(r._shape[0], 'res')
        sc = lambda i: T.and_(T.ne(Fx(i), 0), T.ne(Fx(i + 1), 0), differ(Fx(i), Fx(i + 1)))
        if not used:
            cx.prove_shape('only grid points', r, (nh,))
            cx.prove_elem('grid points where the function vanishes', r.at(j), x.v(hit.pos(j)))
            cx.prove('the function vanishes there', T.eq(Fx(hit.pos(j)), 0))
            if cx.decide(T.eq(Fx(i), 0)):
                cx.prove('every zero on the grid is found', T.eq(r.v(hit.rank(i)), x.v(i)))
            c = cx.idx(n - 1, 'cell')
            cx.prove('no sign change inside any cell', T.not_(sc(c)))
            return
        C, pi, pinv, roots, a, b = used[0]
        # cells with a sign change, enumerated
        chg = cx.fnarray((T.simp(n - 1),), lambda k: sc(lin(k)), 'b')
        ref = cx.run(lambda: x[:-1][chg])
        cx.match_masks()
        cm = [v[0] for v in cx.ctx.maskcache.values()][-1]
        cx.prove_shape('one bisection per sign change', a, (ref._shape[0],))
        k = cx.idx(C, 'chg')
        cx.prove('bisected cells are the grid cells with a sign change', T.and_(
            T.eq(a.v(k), x.v(cm.pos(k))), T.eq(b.v(k), x.v(T.add(cm.pos(k), 1)))))
        cx.prove('one result per zero and per sign change',
                 T.eq(dexpr(r._shape[0]), T.add(dexpr(nh), dexpr(C))))
        st = cx.sorts()
        if len(st) != 1:
            raise Unsupported("result is not sorted as a whole")
        p, q = st[0]
        j2 = cx.idx(r._shape[0], 'res')
        cx.prove('ascending', T.implies(T.lt(lin(j), lin(j2)), T.le(r.v(j), r.v(j2))))
        if cx.decide(T.eq(Fx(i), 0)):
            w = q(T.z(hit.rank(i)))
            cx.prove('every zero on the grid is found', T.and_(
                T.le(0, w), T.lt(w, dexpr(r._shape[0])), T.eq(r.v(w), x.v(i))))
        c = cx.idx(n - 1, 'cell')
        if cx.decide(sc(c)):
            w = q(T.z(T.add(dexpr(nh), pinv(T.z(cm.rank(c))))))
            cx.prove('position of the root of a cell', T.and_(
                T.le(0, w), T.lt(w, dexpr(r._shape[0]))))
            cx.prove('every sign change gives a bracketed root in its cell', root_ok(
                kind, F, r.v(w), x.v(c), x.v(c + 1)))
        # nothing else: by counting, every result is one of these
        cx.prove_eq('grid unchanged', x.v(i), fresh_array(cx.ctx, 'x', (n,), x.dtype).v(i))
    return f


def bad_arguments(cx):
    g = cx.m('_roots')
    F, f = func(cx, 'f')
    x = cx.array('x', (cx.dim('n', 1), cx.dim('m', 1)))
    cx.raises('grid with two axes', ValueError, g.find_all, f, x)


def bad_type(cx):
    g = cx.m('_roots')
    F, f = func(cx, 'f')
    n = cx.dim('n', 2)
    x = cx.array('x', (n,))
    k = cx.idx(n - 1)
    a, b = F(T.z(x.v(k))), F(T.z(x.v(k + 1)))
    cx.assume(T.and_(T.lt(a, 0), T.gt(b, 0)))
    cx.raises('unknown kind of search', ValueError, g.find_all, f, x, type='other')


def refine(cx):
    g = cx.m('poly')
    I = cx.dim('I', 1)
    kn = knots_array(cx, I)
    alpha = cx.dim('alpha', 1)
    r = cx.run(g._refine_grid, kn, cx.dimval(alpha))
    cx.prove('number of points', T.eq(dexpr(r._shape[0]), T.add(T.mul(I, alpha), 1)))
    i, j = cx.idx(I, 'seg'), cx.idx(alpha, 'sub')
    e = asarr(r).at(S.Part(S.Flat([i, j], [I, alpha]), 0, r._shape[0])) \
        if isinstance(r._shape[0], S.DimSum) else None
    if e is None:
        raise Unsupported("layout of the refined grid")
    cx.prove_elem('equally spaced in each cell', e, T.add(kn.v(i), T.mul(
        T.div(T.to_real(j), T.to_real(alpha)), T.sub(kn.v(i + 1), kn.v(i)))))
    cx.prove_elem('ends with the last knot', r.at(S.Part(0, 1, r._shape[0])), kn.v(I))


def poly_roots(symm, mid):
    def f(cx):
        poly = cx.m('poly')
        p = make_poly(cx, (), symm=True)
        P, I, L, data, knots = p._c
        cx.assume(T.eq(p.symm.v(), symm))
        xm = T.div(T.add(knots.v(0), knots.v(I)), 2)
        if symm:
            h = T.simp(z3.simplify(I / 2))
            if mid == 'knot':
                cx.assume(T.eq(knots.v(h), xm))
            else:
                cx.assume(T.ne(knots.v(h), xm))
        calls = []
        m = cx.dim('nroots', 0)
        rt = cx.array('roots', (m,))

        def find_all(f, grid, *a, **k):
            calls.append((f, grid))
            g0, g1 = cx.idx(grid._shape[0], 'g'), None
            cx.assume_all([m], lambda i: T.and_(T.le(grid_first[0], rt.v(i)),
                                                T.le(rt.v(i), knots.v(I))))
            cx.assume_all([m, m], lambda i, j: T.implies(T.lt(lin(i), lin(j)),
                                                         T.lt(rt.v(i), rt.v(j))))
            return rt
        grids = []

        def refine_grid(kn, alpha):
            grids.append((asarr(kn), alpha))
            return asarr(kn)
        grid_first = [xm if symm else knots.v(0)]
        cx.patch(poly._roots, 'find_all', find_all)
        cx.patch('poly', '_refine_grid', refine_grid)
        if symm == -1:
            # contracts of evaluation and derivative (C06, C07): functions of x
            Fv, Dv = T.fn('pval', T.RS, T.RS), T.fn('pder', T.RS, T.RS)
            cls = poly.PiecewiseLegendrePoly
            cx.patch(cls, '__call__', lambda self, x: scalar(Fv(T.z(asarr(x).scalar().val))))
            cx.patch(cls, 'deriv', lambda self, n=1: (
                lambda x: scalar(Dv(T.z(asarr(x).scalar().val)))))
        r = cx.run(p.roots)
        kn, alpha = grids[0]
        cx.prove('two points per segment by default', alpha == 2)
        cx.prove('the function itself is searched', calls[0][0] is p)
        nk = kn._shape[0]
        cx.prove_elem('search starts at the midpoint (or first knot)', kn.at(0), grid_first[0])
        cx.prove_elem('search ends at the last knot', kn.at(T.simp(T.sub(dexpr(nk), 1))),
                      knots.v(I))
        q = cx.idx(T.simp(T.sub(dexpr(nk), 1)), 'gp')
        cx.prove('search grid ascends', T.lt(kn.v(q), kn.v(T.add(q, 1))))
        if not symm:
            cx.prove_shape('all roots found', r, (m,))
            k = cx.idx(m)
            cx.prove_eq('roots found', r.v(k), rt.v(k))
            cx.prove_shape('searched grid is that of the knots', kn, (I + 1,))
            q = cx.idx(I + 1)
            cx.prove_eq('searched grid is that of the knots', kn.v(q), knots.v(q))
            return
        n = z3.Int('nres')
        cx.assume(T.eq(n, dexpr(r._shape[0])))
        k = cx.idx(n, 'k')
        cx.prove('mirror-symmetric about the midpoint', T.eq(
            T.add(r.v(k), r.v(T.sub(T.sub(n, 1), k))), T.mul(2, xm)))
        k2 = cx.idx(n, 'k')
        cx.prove('ascending', T.implies(T.lt(k, k2), T.le(r.v(k), r.v(k2))))
        cx.prove('inside the interval', T.and_(T.le(knots.v(0), r.v(k)),
                                               T.le(r.v(k), knots.v(I))))
        if symm == 1:
            cx.prove('twice the roots of one half', T.eq(n, T.mul(2, m)))
            k = cx.idx(m)
            cx.prove('every root of the right half', T.eq(r.v(T.add(k, m)), rt.v(k)))
        else:
            h = T.div_int(T.sub(n, 1), 2) if hasattr(T, 'div_int') else \
                z3.simplify(T.z(T.sub(n, 1)) / 2)
            cx.prove('odd number of roots', T.eq(T.add(T.mul(2, h), 1), n))
            cx.prove('midpoint included', T.eq(r.v(h), xm))
            k = cx.idx(m)
            # a root other than the first one is never dropped
            cx.prove('roots away from the midpoint are kept', T.implies(
                T.gt(k, 0), T.or_(*[T.eq(r.v(T.add(T.add(h, k), o)), rt.v(k)) for o in (0, 1)])))
    return f


def vectors(cx):
    p = make_poly(cx, ('L',))
    cx.raises('vector of polynomials', ValueError, p.roots)


FA = ['_roots.find_all']
RT = ['poly.PiecewiseLegendrePoly.roots']
SCENARIOS = [bisect('f'), bisect('i'),
             Scenario('find-all-continuous', find_all('f'), functions=FA),
             Scenario('find-all-discrete', find_all('i'), functions=FA),
             Scenario('grid-axes', bad_arguments, functions=FA),
             Scenario('unknown-type', bad_type, functions=FA),
             Scenario('refine', refine, functions=['poly._refine_grid']),
             Scenario('roots-no-parity', poly_roots(0, None), functions=RT),
             Scenario('roots-even-knot', poly_roots(1, 'knot'), functions=RT),
             Scenario('roots-even', poly_roots(1, 'off'), functions=RT),
             Scenario('roots-odd-knot', poly_roots(-1, 'knot'), functions=RT),
             Scenario('roots-odd', poly_roots(-1, 'off'), functions=RT),
             Scenario('roots-vector', vectors, functions=RT)]
ASSUMED = ["uniqueness of the increasing enumeration of a set of positions",
           "termination of the continuous bisection (every step halves the cells); recursion "
           "is on fewer cells",
           "signbit is the sign of the real value (no negative zeros, no NaN)"]
BOUNDED = ["accuracy of roots in floating point (battery)"]
