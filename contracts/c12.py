"""C12 Overlap integrals by adaptive quadrature."""
from .common import *

LEVEL = 'proof'
LOOP = ('poly', '_compute_overlap', 0)


class Piece:
    """contract of the piecewise polynomial: knots, shape and value at any points"""

    def __init__(self, I, knots, L, val):
        self.knots, self.L, self.val = knots, L, val
        self.shape = L
        self.nsegments = I

    def __call__(self, x):
        x = asarr(x)
        s, nd = x.snap(), len(self.L)
        return mk(lambda ix: E(self.val(ix[:nd], s(ix[nd:]).val)), self.L + tuple(x._shape),
                  S.F64)


class Rule:
    """contract of the nested rule on [a, b] (C04): nodes, both sets of weights"""

    def __init__(self, **k):
        self.__dict__.update(k)


G = T.fn('G', T.IS, T.RS, T.RS)              # arbitrary functions of a point, node k
HF = T.fn('Ghigh', T.IS, T.RS, T.RS)
NX = T.fn('node', T.IS, T.RS, T.RS, T.RS)
AL = T.fn('alpha', T.IS, T.RS)
PH = T.fn('phi', T.IS, T.RS)


def base_rule(cx, n, spec):
    """weights v_k = G_k(b) - G_k(a) for arbitrary functions G_k: the rule is
    additive over adjacent intervals, and any such set of weights is covered"""
    class Base:
        def reseat(self, a, b):
            a, b = asarr(a), asarr(b)
            fa, fb = a.snap(), b.snap()
            sn = a._shape[0]
            spec['last'] = (a, b)
            va, vb = (lambda ix: fa((ix[0], 0)).val), (lambda ix: fb((ix[0], 0)).val)
            k = lambda ix: T.z(lin(ix[1]))
            two = lambda f: mk(lambda ix: E(f(ix)), (sn, n), S.F64)
            x = two(lambda ix: NX(k(ix), T.z(va(ix)), T.z(vb(ix))))
            w = two(lambda ix: T.sub(HF(k(ix), T.z(vb(ix))), HF(k(ix), T.z(va(ix)))))
            v = two(lambda ix: T.sub(G(k(ix), T.z(vb(ix))), G(k(ix), T.z(va(ix)))))
            return Rule(x=x, w=w, v=v, vsel=slice(None), a=a, b=b)
    return Base()


def tiles(rank, fshape):
    """the accepted segments tile the interval: for every rule additive over adjacent
    intervals, the result is the difference between the ends, whatever is refined"""
    spec = {}

    def total(l, c):
        I, n, kn = spec['I'], spec['n'], spec['knots']
        ac = T.mul(AL(T.z(l)), PH(T.z(c)))
        return T.mul(ac, rsum2(I, n, lambda i, k: T.sub(
            G(T.z(k), T.z(kn.v(T.add(lin(i), 1)))), G(T.z(k), T.z(kn.v(i))))))

    def remaining(xs, xe, l, c):
        ac = T.mul(AL(T.z(l)), PH(T.z(c)))
        return T.mul(ac, rsum2(xs._shape[0], spec['n'], lambda s, k: T.sub(
            G(T.z(k), T.z(xe.v(s))), G(T.z(k), T.z(xs.v(s))))))

    def inv(env, k):
        l, c = spec['l'], spec['c']
        out = [('levels are not exhausted', T.lt(k, 40))]
        rv = asarr(env.res_value)
        e = rv.at(l, c).val if rv.ndim else rv.scalar().val
        out.append(('accepted plus remaining segments tile the interval',
                    EqGoal(T.add(e, remaining(env.xstart, env.xstop, l, c)), total(l, c))))
        return out

    def segs(ctx):
        if 'xs' not in spec:
            n = ctx.fresh_int('nseg')
            ctx.fact(n >= 0)
            spec['xs'], spec['xe'] = [fresh_array(ctx, ctx.fresh('seg'), (n,), S.F64)
                                      for _ in range(2)]
        return spec['xs'], spec['xe']

    def hav_res(ctx, old, env):
        return fresh_array(ctx, ctx.fresh('res'), (spec['Lf'], spec['C']), S.F64)

    def hav_magn(ctx, old, env):
        nm = ctx.fresh('magn')
        spec['magn'], new = [fresh_array(ctx, nm, (spec['Lf'],), S.F64) for _ in range(2)]
        return new

    def hav_value(ctx, old, env):
        # the invariant determines the value
        xs, xe = segs(ctx)
        return mk(lambda ix: E(T.sub(total(*ix), remaining(xs, xe, *ix))),
                  (spec['Lf'], spec['C']), S.F64)

    def hav_shape(ctx, old, env):
        return None if ctx.branch(z3.Bool('first_level')) else spec['fshape']

    def scen(cx):
        spec.clear()
        poly = cx.m('poly')
        I, n = cx.dim('I', 1), cx.dim('nodes', 9)
        knots = knots_array(cx, I)
        L = tuple(cx.dim(f'L{k}', 1) for k in range(rank))
        C = tuple(cx.dim(f'C{k}', 1) for k in range(fshape))
        spec.update(n=n, L=L, fshape=tuple(cx.dimval(c) for c in C), I=I, knots=knots)
        fl = lambda ix, sh: T.z(lin(ix[0])) if ix else z3.IntVal(0)
        p = Piece(I, knots, L, lambda l, x: AL(fl(l, L)))
        spec['Lf'] = L[0] if L else 1
        spec['C'] = C[0] if C else 1
        spec['l'] = cx.idx(L[0], 'l') if L else 0
        spec['c'] = cx.idx(C[0], 'c') if C else 0
        warned = []
        cx.patch('poly', 'warn', lambda *a, **k: warned.append(a))
        cx.patch('_gauss', 'kronrod_31_15', lambda: base_rule(cx, n, spec))

        def fun(x):
            if not C:
                return scalar(PH(z3.IntVal(0)), S.F64)
            return mk(lambda ix: E(PH(T.z(lin(ix[0])))), C, S.F64)
        rtol = cx.real('rtol')
        r, err = cx.run(poly._compute_overlap, p, fun, rtol)
        cx.prove_shape('shape of the result', r, L + C)
        cx.prove_shape('shape of the error estimate', err, L + C)
        l, c = spec['l'], spec['c']
        e = r.at(*([l] if L else []), *([c] if C else []))
        cx.prove_eq('every segment contributes exactly once', e.val, total(l, c))
        if not warned and not C:
            # the tolerance is met by every segment of the last level
            a, b = spec['last']
            s = cx.idx(a._shape[0], 's')
            ac = T.mul(AL(T.z(l)), PH(T.z(0)))

            def rule(F, q):
                return rsum(n, lambda k: T.mul(ac, T.sub(F(T.z(k), T.z(b.v(q, 0))),
                                                         F(T.z(k), T.z(a.v(q, 0))))))
            magn = T.add(spec['magn'].v(l), rsum(a._shape[0], lambda q: T.abs_(rule(G, q))))
            cx.prove('tolerance met without warning', T.le(
                T.abs_(T.sub(rule(HF, s), rule(G, s))), T.mul(rtol.v(), magn)))
    nm = f"tiles-{rank}-{fshape}"
    return Scenario(nm, scen, loops=[LoopContract(LOOP, inv, havoc=dict(
        xstart=lambda ctx, old, env: segs(ctx)[0], xstop=lambda ctx, old, env: segs(ctx)[1],
        res_value=hav_value, res_error=hav_res,
        res_magn=hav_magn,
        f_shape=hav_shape))], functions=['poly._compute_overlap'])


def single(rank, fshape):
    """on one level: quadrature of function times polynomial over every segment"""
    def f(cx):
        poly = cx.m('poly')
        I, n = cx.dim('I', 1), cx.dim('nodes', 9)
        knots = knots_array(cx, I)
        L = tuple(cx.dim(f'L{k}', 1) for k in range(rank))
        C = tuple(cx.dim(f'C{k}', 1) for k in range(fshape))
        PV = T.fn('pvalue', *[T.IS] * rank, T.RS, T.RS)
        FV = T.fn('fvalue', *[T.IS] * fshape, T.RS, T.RS)
        z = lambda ix: [T.z(lin(i)) for i in ix]
        p = Piece(I, knots, L, lambda l, x: PV(*z(l), T.z(x)))
        nv = cx.dim('nv', 9)
        sel = cx.array('vsel', (nv,), 'i')
        cx.assume_all([nv], lambda k: T.and_(T.le(0, sel.v(k)), T.lt(sel.v(k), n)))
        HV, WV = T.fn('v', T.IS, T.RS, T.RS, T.RS), T.fn('w', T.IS, T.RS, T.RS, T.RS)
        cx.patch('poly', 'warn', lambda *a, **k: None)

        class Base:
            def reseat(self, a, b):
                fa, fb = asarr(a).snap(), asarr(b).snap()
                sn = asarr(a)._shape[0]
                at = lambda F, d: mk(lambda ix: E(F(T.z(lin(ix[1])), T.z(fa((ix[0], 0)).val),
                                                    T.z(fb((ix[0], 0)).val))), (sn, d), S.F64)
                return Rule(x=at(NX, n), w=at(WV, n), v=at(HV, nv), vsel=sel, a=a, b=b)
        cx.patch('_gauss', 'kronrod_31_15', Base)

        def fun(x):
            x = T.z(asarr(x).scalar().val)
            return mk(lambda ix: E(FV(*z(ix), x)), C, S.F64) if C else scalar(FV(x), S.F64)
        r, err = cx.run(poly._compute_overlap, p, fun, max_refine_levels=1)
        cx.prove_shape('shape of the result', r, L + C)
        l, c = tuple(cx.idx(d, 'l') for d in L), tuple(cx.idx(d, 'c') for d in C)

        def integral(i, k):
            a, b = T.z(knots.v(i)), T.z(knots.v(T.add(lin(i), 1)))
            x = NX(T.z(sel.v(k)), a, b)
            return T.mul(T.mul(PV(*z(l), x), FV(*z(c), x)), HV(T.z(k), a, b))
        cx.prove_elem('quadrature over all segments', r.at(*l, *c), rsum2(I, nv, integral))
    return f


def break_points(which):
    """the segments between knots and break points: consecutive, from end to end,
    and no knot or break point lies inside one"""
    def f(cx):
        poly = cx.m('poly')
        I, n, Q = cx.dim('I', 1), cx.dim('nodes', 9), cx.dim('Q', 0)
        knots = knots_array(cx, I)
        pts = cx.array('points', (Q,))
        spec = {}
        p = Piece(I, knots, (), lambda l, x: z3.RealVal(1))
        cx.patch('poly', 'warn', lambda *a, **k: None)
        cx.patch('_gauss', 'kronrod_31_15', lambda: base_rule(cx, n, spec))
        cx.run(poly._compute_overlap, p, lambda x: scalar(z3.RealVal(1), S.F64),
               max_refine_levels=1, points=pts)
        a, b = spec['last']
        m = a._shape[0]
        if which == 'order':
            cx.prove('as many ends as starts', T.eq(dexpr(m), dexpr(b._shape[0])))
            cx.prove('at least one segment', T.ge(dexpr(m), 1))
            i = cx.idx(m)
            cx.prove('ordered segments', T.lt(a.v(i, 0), b.v(i, 0)))
            j = cx.idx(T.sub(dexpr(m), 1))
            cx.prove('adjacent segments', T.eq(b.v(j, 0), a.v(T.add(lin(j), 1), 0)))
            return
        if which in ('knots', 'points'):
            q = cx.idx(I + 1 if which == 'knots' else Q)
            pos, x = (T.z(q), knots.v(q)) if which == 'knots' else (T.z(I + 1 + q), pts.v(q))
            i = cx.idx(m)
        elif which == 'first':
            pos, x, i = z3.IntVal(0), knots.v(0), z3.IntVal(0)
        else:
            pos, x, i = T.z(I), knots.v(I), T.z(T.sub(dexpr(m), 1))
        us = cx.ctx.__dict__.get('uniques', ())
        if len(us) == 1:
            # the class of the value lies at or before the start, or at or after the end
            (src, cls, v), = us
            c = cls(pos)
            hints = [T.eq(v(src(c)), x), T.and_(T.le(0, c), T.le(c, m))]
            for t in (i, i + 1):
                hints += [T.implies(T.lt(c, t), T.lt(v(src(c)), v(src(t)))),
                          T.implies(T.lt(t, c), T.lt(v(src(t)), v(src(c))))]
            for h in hints:
                if cx.prove('order of the distinct values', h):
                    cx.assume(h)
        if which == 'first':
            cx.prove('starts at or before the first knot', T.le(a.v(0, 0), x))
        elif which == 'last':
            cx.prove('ends at or after the last knot', T.ge(b.v(i, 0), x))
        else:
            cx.prove(f'{which} are not inside a segment', T.or_(T.le(x, a.v(i, 0)),
                                                                T.ge(x, b.v(i, 0))))
    return f


def public(cx):
    """overlap() hands its arguments to the quadrature"""
    poly = cx.m('poly')
    p = make_poly(cx, ('L',))
    f, pts, tol = object(), object(), cx.real('rtol')
    got = []

    def stub(q, g, rtol=2.3e-16, points=None, **kw):
        cx.prove('arguments are passed on', q is p and g is f and points is pts and not kw)
        cx.prove_eq('tolerance is passed on', rtol, tol.v())
        return 'value', 'error'
    cx.patch('poly', '_compute_overlap', stub)
    cx.prove('value', cx.run(p.overlap, f, rtol=tol, points=pts) == 'value')
    cx.prove('value and error', cx.run(p.overlap, f, rtol=tol, points=pts, return_error=True)
             == ('value', 'error'))


def table(cx):
    """exact rational check of the literal nodes and weights: to 1e-14 the rules of
    31 and 15 nodes integrate the monomials of degree up to 46 and 29"""
    r = cx.m('_gauss').kronrod_31_15()
    val = lambda a: [Fr(T.simp(asarr(a).v(k))) if not isinstance(a, (tuple, list)) else Fr(a[k])
                     for k in range(dexpr(asarr(a)._shape[0]))]
    x, w, v = val(r.x), val(r.w), val(r.v)
    cx.prove('31 nodes', len(x) == 31 and len(w) == 31)
    cx.prove('ascending nodes inside the interval', all(a < b for a, b in zip(
        [Fr(-1)] + x, x + [Fr(1)])))
    sub = x[r.vsel]
    cx.prove('15 nodes of the low-order rule', len(sub) == 15 and len(v) == 15)
    tol = Fr(1, 10**14)
    for lab, xs, ws, deg in (('Kronrod', x, w, 46), ('Gauss', sub, v, 29)):
        for d in range(deg + 1):
            s = sum(b * a**d for a, b in zip(xs, ws))
            e = Fr(2, d + 1) if d % 2 == 0 else Fr(0)
            cx.prove(f'{lab} rule is exact for degree {d}', abs(s - e) < tol)


CO = ['poly._compute_overlap']
SCENARIOS = [tiles(0, 0), tiles(1, 0), tiles(0, 1), tiles(1, 1),
             *[Scenario(f'quadrature-{r}-{c}', single(r, c), functions=CO)
               for r, c in ((0, 0), (1, 0), (1, 1), (2, 0), (0, 2), (2, 2))],
             *[Scenario(f'break-points-{w}', break_points(w), functions=CO)
               for w in ('order', 'knots', 'points', 'first', 'last')],
             Scenario('public', public, functions=['poly.PiecewiseLegendrePoly.overlap']),
             Scenario('table', table, functions=['_gauss.kronrod_31_15'])]
ASSUMED = ["additive rules: weights G_k(b) - G_k(a) for arbitrary G_k show that the accepted "
           "segments tile the interval"]
BOUNDED = ["error of the adaptive quadrature beyond its own estimate (battery)"]
