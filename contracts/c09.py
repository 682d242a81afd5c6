"""C09 discrete extrema."""
from .common import *
from .c08 import func, neg, differ

LEVEL = 'proof'
EXT = T.fn('Extremum', T.IS, T.IS, T.IS)     # result of the bisection of (a, b)


def mag(F, k):
    v = F(T.z(k))
    return z3.If(v >= 0, v, -v)


def unimodal(F, a, p, b):
    """|F| rises from a to p and falls from p to b"""
    k = z3.Int('uk')
    return z3.And(T.z(T.lt(a, p)), T.z(T.lt(p, b)),
                  z3.ForAll([k], z3.Implies(z3.And(T.z(a) <= k, k < T.z(p)),
                                            mag(F, k) <= mag(F, k + 1)), patterns=[F(k)]),
                  z3.ForAll([k], z3.Implies(z3.And(T.z(p) <= k, k < T.z(b)),
                                            mag(F, k + 1) <= mag(F, k)), patterns=[F(k)]))


def peak(F, r):
    return T.and_(T.le(mag(F, T.sub(r, 1)), mag(F, r)), T.le(mag(F, T.add(r, 1)), mag(F, r)))


def bisect(cx):
    """recursion checked against its own contract: an integer strictly inside, at
    which the magnitude is not below its neighbours if it rises and then falls"""
    g = cx.m('_roots')
    F, f = func(cx, 'i')
    a, b = cx.int('a'), cx.int('b')
    fa, fb = cx.real('fa'), cx.real('fb')
    cx.assume(T.ge(T.sub(b.v(), a.v()), 2))
    cx.assume(T.and_(T.eq(fa.v(), mag(F, a.v())), T.eq(fb.v(), mag(F, b.v()))))
    p = z3.Int('peak')
    # neighbouring magnitudes occur in the code as values of f
    uni = cx.decide(z3.Bool('rises and falls'))
    if uni:
        cx.assume(unimodal(F, a.v(), p, b.v()))
    real = g._bisect_discr_extremum

    def stub(f_, a2, b2, fa2, fb2):
        a2, b2 = cx.val(a2), cx.val(b2)
        cx.prove('recursion is on the same function', f_ is f)
        cx.prove('recursion stays inside', T.and_(T.le(a.v(), a2), T.le(b2, b.v())))
        cx.prove('recursion has an inner point', T.ge(T.sub(b2, a2), 2))
        cx.prove('recursion terminates', T.lt(T.sub(b2, a2), T.sub(b.v(), a.v())))
        cx.prove('magnitude at the lower end', T.eq(cx.val(fa2), mag(F, a2)))
        cx.prove('magnitude at the upper end', T.eq(cx.val(fb2), mag(F, b2)))
        r = EXT(T.z(a2), T.z(b2))
        cx.assume(T.and_(T.lt(a2, r), T.lt(r, b2)))
        if uni:
            # a peak of the smaller range (where the larger one is flat, any point)
            q = z3.Int('sub peak')
            cx.assume(q == z3.If(z3.And(p > T.z(a2), p < T.z(b2)), p,
                                 z3.If(p <= T.z(a2), T.z(a2) + 1, T.z(b2) - 1)))
            h = z3.Int('h')
            w = z3.And(F(p) == F(p), F(h) == F(h))
            cx.prove('magnitude rises and falls on the smaller range',
                     unimodal(F, a2, q, b2))
            cx.assume(peak(F, r))
        return scalar(r, S.INT64)
    cx.patch('_roots', '_bisect_discr_extremum', stub)
    r = cx.val(cx.run(real, f, a, b, fa, fb))
    cx.prove('strictly inside', T.and_(T.lt(a.v(), r), T.lt(r, b.v())))
    if uni:
        cx.prove('not below either neighbour', peak(F, r))


def search(n0, left, right):
    """grid of two points, or of more; with and without extrema at its ends"""
    def f(cx):
        g = cx.m('_roots')
        F, f = func(cx, 'i')
        n = 2 if n0 == 2 else cx.dim('n', n0)
        x = cx.array('x', (n,), 'i')
        cx.assume_all([T.simp(n - 1)], lambda i: T.lt(x.v(i), x.v(i + 1)))
        if n0 > 2:
            cx.assume_all([T.simp(n - 2)], lambda i: T.le(2, T.sub(x.v(i + 2), x.v(i))))
        l, l1 = T.simp(n - 1), T.simp(n - 2)
        Fx = lambda i: F(T.z(x.v(i)))
        cl = z3.Or(mag(F, x.v(0)) > mag(F, x.v(1)), T.z(differ(Fx(0), Fx(1))))
        cr = z3.Or(mag(F, x.v(l)) > mag(F, x.v(l1)), T.z(differ(Fx(l), Fx(l1))))
        cx.assume(cl if left else z3.Not(cl))
        cx.assume(cr if right else z3.Not(cr))
        first = [False]

        def stub(f_, a, b, fa, fb):
            a, b = cx.val(a), cx.val(b)
            if first[0]:
                first[0] = False
                cx.prove('bisects the same function', f_ is f)
                cx.prove('bisection range has an inner point', T.ge(T.sub(b, a), 2))
                cx.prove('bisection gets the magnitude at its lower end',
                         T.eq(cx.val(fa), mag(F, a)))
                cx.prove('bisection gets the magnitude at its upper end',
                         T.eq(cx.val(fb), mag(F, b)))
            return scalar(EXT(T.z(a), T.z(b)), S.INT64)
        cx.patch('_roots', '_bisect_discr_extremum', stub)
        r = asarr(cx.run(g.discrete_extrema, f, x))
        cx.match_masks()
        step = lambda i: neg(T.sub(Fx(i + 1), Fx(i)))
        turn = lambda i: z3.Xor(T.z(step(i)), T.z(step(i + 1)))
        o = int(left)
        nr = dexpr(r._shape[0])
        if n0 > 2:
            chg = cx.fnarray((T.simp(n - 2),), lambda k: turn(lin(k)), 'b')
            ref = cx.run(lambda: x[:-2][chg])
            cx.match_masks()
            cm = [v[0] for v in cx.ctx.maskcache.values()][-1]
            C = cm.count
        else:
            C = 0
        cx.prove('one extremum per change of direction and end point',
                 T.eq(nr, T.add(C, o + int(right))))
        if left:
            cx.prove_elem('lower end of the grid', r.at(0), x.v(0))
        if right:
            cx.prove_elem('upper end of the grid', r.at(T.simp(T.sub(nr, 1))), x.v(l))
        if n0 == 2:
            return
        c = cx.idx(T.simp(n - 2), 'cell')
        if cx.decide(turn(c)):
            w = T.add(cm.rank(c), o)
            cx.prove('position of the extremum of a change of direction',
                     T.and_(T.le(o, w), T.lt(w, T.add(C, o))))
            cx.prove_elem('bisected between the neighbouring grid points', r.at(w),
                          EXT(T.z(x.v(c)), T.z(x.v(c + 2))))
        k = cx.idx(C, 'k')
        first[0] = True
        r.v(T.add(k, o))
        cx.prove('every extremum comes from the bisection', not first[0])
        cx.prove('nothing else, in the order of the grid', T.eq(
            r.v(T.add(k, o)), EXT(T.z(x.v(cm.pos(k))), T.z(x.v(T.add(cm.pos(k), 2))))))
        cx.prove('grid unchanged', T.eq(
            x.v(c), fresh_array(cx.ctx, 'x', (n,), x.dtype).v(c)))
    return f


def symmetrize(case):
    def f(cx):
        poly = cx.m('poly')
        n = cx.dim('n', 1)
        x = cx.array('x', (n,), 'i')
        if case == 'unordered':
            j = cx.idx(n - 1)
            cx.assume(T.lt(x.v(j + 1), x.v(j)))
            cx.raises('points out of order', ValueError, poly._symmetrize_matsubara, x)
            return
        if case == 'negative':
            cx.assume(T.lt(x.v(0), 0))
            cx.raises('negative points', ValueError, poly._symmetrize_matsubara, x)
            return
        cx.assume_all([n, n], lambda i, j: T.implies(T.lt(lin(i), lin(j)), T.lt(x.v(i), x.v(j))))
        cx.assume(T.ge(x.v(0), 0))
        cx.assume_all([n], lambda i: T.le(x.v(0), x.v(i)))
        zero = cx.decide(T.eq(x.v(0), 0))
        r = asarr(cx.run(poly._symmetrize_matsubara, x))
        nr = dexpr(r._shape[0])
        cx.prove('number of points', T.eq(nr, T.sub(T.mul(2, n), int(zero))))
        k = cx.idx(n)
        off = T.simp(n - 1) if zero else n
        cx.prove('given points are the upper half', T.eq(r.v(T.add(k, off)), x.v(k)))
        m = z3.Int('nr')
        cx.assume(T.eq(m, nr))
        i, j = cx.idx(m, 'i'), cx.idx(m, 'j')
        cx.prove('mirror-symmetric', T.eq(r.v(i), T.neg(r.v(T.sub(T.sub(m, 1), i)))))
        cx.prove('ascending', T.implies(T.lt(i, j), T.lt(r.v(i), r.v(j))))
        cx.prove('points unchanged', T.eq(x.v(k), fresh_array(cx.ctx, 'x', (n,), x.dtype).v(k)))
    return f


def empty(cx):
    poly = cx.m('poly')
    x = cx.array('x', (0,), 'i')
    cx.prove_shape('no points', cx.run(poly._symmetrize_matsubara, x), (0,))


def make_ft(cx, freq, symm):
    poly = cx.m('poly')
    p = make_poly(cx, (), lo=-1, hi=1, symm=True)
    cx.assume(T.eq(p.symm.v(), symm))
    return cx.run(poly.PiecewiseLegendreFT, p, freq, label='constructor')


def frequencies(method, freq, symm, part, positive):
    """extrema() and sign_changes() of one Fourier transformed function"""
    def f(cx):
        poly = cx.m('poly')
        ft = make_ft(cx, freq, symm)
        zeta = 1 if freq == 'odd' else 0
        UR, UI = T.fn('uhat_re', T.IS, T.RS), T.fn('uhat_im', T.IS, T.RS)

        def call(self, n):
            s = asarr(n).snap()
            return mk(lambda ix: E(Cx(UR(T.z(s(ix).val)), UI(T.z(s(ix).val)))),
                      asarr(n)._shape, S.C128)
        cx.patch(poly.PiecewiseLegendreFT, '__call__', call)
        m = cx.dim('found', 0)
        x0 = cx.array('x0', (m,), 'i')
        seen = []

        def finder(fn, grid, type=None):
            seen.append((fn, grid, type))
            return x0
        cx.patch(poly._roots, 'discrete_extrema', lambda fn, grid: finder(fn, grid))
        cx.patch(poly._roots, 'find_all', finder)
        sym = []

        def symm_contract(x):
            sym.append(x)
            return 'mirrored'
        cx.patch('poly', '_symmetrize_matsubara', symm_contract)
        kw = {}
        if part is not None:
            kw['part'] = part
        grid = None
        if positive:
            grid = cx.array('grid', (cx.dim('ng', 1),), 'i')
            kw.update(positive_only=True, grid=grid)
        r = cx.run(getattr(ft, method), **kw)
        cx.prove('one search', len(seen) == 1)
        fn, gr, typ = seen[0]
        if grid is not None:
            cx.prove('given grid is searched', gr is grid)
        if method == 'sign_changes':
            cx.prove('search over integers', typ == 'discrete')
        if positive:
            cx.prove('non-negative points only', not sym)
        else:
            cx.prove('mirrored', r == 'mirrored' and len(sym) == 1)
            r = sym[0]
        cx.prove_shape('points', r, (m,))
        k = cx.idx(m)
        cx.prove_elem('reduced frequency of the index', asarr(r).at(k),
                      T.add(T.mul(2, x0.v(k)), zeta))
        n = cx.int('n')
        want = part
        if part is None:
            want = 'real' if (symm == 1) == (zeta == 0) else 'imag'
        q = z3.simplify(T.z(T.add(T.mul(2, n.v()), zeta)))
        cx.prove_elem('searched function is the nonzero part', asarr(cx.run(fn, n)).at(),
                      (UR if want == 'real' else UI)(q))
    return f


def rejects(method):
    def f(cx):
        poly = cx.m('poly')
        p = make_poly(cx, ('L',), lo=-1, hi=1)
        ft = cx.run(poly.PiecewiseLegendreFT, p, 'odd', label='constructor')
        cx.raises('vector of functions', ValueError, getattr(ft, method))
        ft = make_ft(cx, 'even', 0)
        cx.raises('unknown parity', ValueError, getattr(ft, method))
        cx.raises('unknown part', ValueError, getattr(ft, method), part='abs')
    return f


DE = ['_roots.discrete_extrema']
SCENARIOS = [
    Scenario('bisection', bisect, functions=['_roots._bisect_discr_extremum']),
    Scenario('symmetrize', symmetrize(''), functions=['poly._symmetrize_matsubara']),
    Scenario('symmetrize-order', symmetrize('unordered'), functions=['poly._symmetrize_matsubara']),
    Scenario('symmetrize-negative', symmetrize('negative'),
             functions=['poly._symmetrize_matsubara']),
    Scenario('symmetrize-empty', empty, functions=['poly._symmetrize_matsubara'])]
for n_ in (2, 3):
    for l_, r_ in ((False, False), (False, True), (True, False), (True, True)):
        SCENARIOS.append(Scenario(
            f"search-{n_}{'' if n_ == 2 else '+'}-{'lower' if l_ else ''}{'upper' if r_ else ''}",
            search(n_, l_, r_), functions=DE))
for m_ in ('extrema', 'sign_changes'):
    SCENARIOS.append(Scenario(f'{m_}-rejects', rejects(m_),
                              functions=[f'poly.PiecewiseLegendreFT.{m_}']))
    for fr_ in ('even', 'odd'):
        for sy_, pt_, po_ in ((1, None, False), (-1, None, True), (1, 'imag', True),
                              (-1, 'real', False)):
            SCENARIOS.append(Scenario(
                f"{m_}-{fr_}-{'even' if sy_ == 1 else 'odd'}-{pt_ or 'auto'}",
                frequencies(m_, fr_, sy_, pt_, po_),
                functions=[f'poly.PiecewiseLegendreFT.{m_}',
                           'poly.PiecewiseLegendreFT._func_for_part',
                           'poly.PiecewiseLegendreFT.__init__']))
ASSUMED = ["uniqueness of the increasing enumeration of a set of positions",
           "signbit is the sign of the real value (no negative zeros, no NaN)",
           "np.allclose(parity, +-1) for parities in {-1, 0, 1}"]
BOUNDED = ["extrema of actual basis functions (battery)"]
