"""Contracts for C14: SVE pre- and postprocessing."""
from .common import *
from engine import symnp, ring as RG
from engine.symarr import mkprod, Flat
from engine.indexing import comps
from engine.linalg import gram_rule

LEVEL = 'proof'
KF = T.fn('KERN', T.RS, T.RS, T.RS, T.RS, T.RS)


class Hints:
    pass


class Kern:
    """contract of a kernel: an arbitrary function of the point and its distances
    from the ends (C01, C02); arbitrary hints (C03)"""
    is_centrosymmetric = False

    def __init__(self, cx, name='', lo=(None, None)):
        self.m = (cx.dim(name + 'mx', 1), cx.dim(name + 'my', 1))
        self.n = cx.dim('n', 1)
        h = Hints()
        self.segs = [knots_array(cx, m, f'{name}segs_{q}', lo[0], lo[1])
                     for m, q in zip(self.m, 'xy')]
        h.segments_x, h.segments_y = self.segs
        h.ngauss, h.nsvals = cx.dimval(self.n), cx.int(name + 'nsvals')
        self.hints, self.eps = h, []

    def sve_hints(self, eps):
        self.eps.append(eps)
        return self.hints

    def __call__(self, x, y, x_plus=None, x_minus=None):
        x, y, xp, xm = map(asarr, (x, y, x_plus, x_minus))
        shape = S.broadcast_shape(x._shape, y._shape)
        fs = [(a.snap(), a._shape) for a in (x, y, xp, xm)]
        from engine.symarr import align_idx
        return mk(lambda ix: E(KF(*[T.z(R(f(align_idx(ix, s, shape)).val)) for f, s in fs])),
                  shape, S.F64)


class Setup:
    """a SamplingSVE built by its own constructor; callee contracts: the Gauss
    rule (C05) has nodes inside the interval and positive weights, `piecewise`
    (C04) puts a copy on each segment"""

    def __init__(self, cx, given=False, K=None):
        g, sve = cx.m('_gauss'), cx.m('sve')
        self.K = K = K or Kern(cx)
        n = K.n
        if given:
            n = cx.dim('n_given', 1)
        self.n = n
        self.xg, self.wg = cx.array('xg', (n,)), cx.array('wg', (n,))
        cx.assume_all([n], lambda k: T.and_(T.lt(-1, self.xg.v(k)), T.lt(self.xg.v(k), 1),
                                            T.gt(self.wg.v(k), 0)))
        self.calls = []

        def legendre(m, dtype=float):
            self.calls.append((m, dtype))
            return g.Rule(self.xg, self.wg)

        def piecewise(rule, edges):
            ed = asarr(edges)
            m = T.simp(T.sub(dexpr(ed._shape[0]), 1))
            d = mkprod([m, n])

            def arr(c):
                return mk(lambda ix: E(self.part(ed, m, *comps(ix[0], [m, n]))[c]), (d,), S.F64)
            return g.Rule(*[arr(c) for c in range(4)], scalar(ed.v(0)), scalar(ed.v(m)))
        cx.patch('_gauss', 'legendre', legendre)
        cx.patch(g.Rule, 'piecewise', piecewise)
        kw = dict(n_gauss=cx.dimval(n)) if given else {}
        self.eps = cx.real('eps')
        self.s = cx.run(sve.SamplingSVE, K, self.eps, **kw, label='constructor')

    def part(self, ed, m, q, i):
        lo, hi = ed.v(q), ed.v(T.add(lin(q), 1))
        h2 = T.mul(Fr(1, 2), T.sub(hi, lo))
        x = T.add(lo, T.mul(h2, T.add(self.xg.v(i), 1)))
        return x, T.mul(h2, self.wg.v(i)), T.sub(x, ed.v(0)), T.sub(ed.v(m), x)


def matrices(given):
    def f(cx):
        st = Setup(cx, given)
        K, n, s = st.K, st.n, st.s
        cx.prove('hints for the given accuracy', len(K.eps) >= 1 and all(
            e is st.eps for e in K.eps))
        cx.prove('order of the rule', T.eq(dexpr(S.as_dim(st.calls[0][0])), n))
        cx.prove('accuracy and kernel recorded', s.eps is st.eps and s.K is K)
        cx.prove('hint on the number of values', s.nsvals_hint is K.hints.nsvals)
        mats = cx.run(lambda: list(s.matrices))
        cx.prove('one problem', len(mats) == 1)
        M = mats[0]
        mx, my = K.m
        cx.prove_shape('nodes by nodes', M, (mkprod([mx, n]), mkprod([my, n])))
        q, i, r, j = cx.idx(mx), cx.idx(n), cx.idx(my), cx.idx(n)
        x, w, xf, xb = st.part(K.segs[0], mx, q, i)
        y, v, _, _ = st.part(K.segs[1], my, r, j)
        cx.assume(T.and_(T.gt(w, 0), T.gt(v, 0)))        # products of positive numbers
        e = M.at(Flat([q, i], [mx, n]), Flat([r, j], [my, n]))
        spec = T.mul(T.mul(T.func('sqrt', w), T.func('sqrt', v)),
                     KF(*map(T.z, (x, y, xf, xb))))
        cx.prove_elem('sqrt(wx) K(x, y) sqrt(wy)', e, spec)
        again = cx.run(lambda: list(s.matrices))[0]
        cx.prove_elem('reading the matrix twice', again.at(
            Flat([q, i], [mx, n]), Flat([r, j], [my, n])), spec)
    return f


def dual_rule(name, xname, n):
    """sum_p cmat[p, a] P_p(xg[b]) = delta_ab (C05: collocation inverts evaluation
    at the nodes of an exact rule)"""
    def is_b(key):
        return len(key) == 1 and key[0][1] == 1 and key[0][0][0] == () and \
            len(key[0][0][1]) == 1 and key[0][0][1][0][0][0] == 'B' and \
            key[0][0][1][0][1] == 1

    def node(key):
        """index b of a key that is exactly xg[b]"""
        if len(key) == 1 and key[0][1] == 1 and key[0][0][0] == () and len(key[0][0][1]) == 1:
            a, e = key[0][0][1][0]
            if e == 1 and a[0] == 'f' and a[1] == xname:
                return a[2][0]
        return None

    def rule(ring, m):
        bs, fs = m
        for a, e in fs:
            if not (a[0] == 'f' and a[1] == name and e == 1 and is_b(a[2][0])):
                continue
            j = a[2][0][0][0][1][0][0][1]
            for b, e2 in fs:
                if not (b[0] == 'f' and b[1] == 'Leg' and e2 == 1 and b[2][0] == a[2][0]):
                    continue
                t = node(b[2][1])
                nk = RG.pkey(ring.conv(T.z(n)))
                if bs[j] != nk:
                    continue
                rest = [(q, e3) for q, e3 in fs if q not in (a, b)]
                if t is None or any(j in RG.atom_bounds(q, set()) for q, _ in rest) or \
                        any(j in RG.key_bounds(k, set()) for k in bs):
                    continue
                delta = ('ind', 'delta', tuple(
                    sorted((a[2][1], t), key=RG.rep)) + (nk,))
                mp = {k: (k if k < j else k - 1) for k in range(len(bs)) if k != j}
                nbs = tuple(RG.ren_key(k, mp) for i, k in enumerate(bs) if i != j)
                d = {}
                for q, e3 in rest + [(delta, RG.F1)]:
                    q = RG.ren_atom(q, mp)
                    d[q] = d.get(q, RG.F0) + e3
                return ring.mono_norm(nbs, d, RG.F1)
        return None
    return rule


def postprocess(canon):
    """`canon`: use the real canonicalisation's contract (signs) or none"""
    def f(cx):
        sve, g = cx.m('sve'), cx.m('_gauss')
        st = Setup(cx)
        K, n, s = st.K, st.n, st.s
        L = cx.dim('L', 1)
        (mx, my), (sx, sy) = K.m, K.segs
        u, v = cx.array('u', (mkprod([mx, n]), L)), cx.array('v', (mkprod([my, n]), L))
        sv = cx.array('s', (L,))
        cmat = cx.array('cmat', (n, n))
        cx.ctx.note_rule(dual_rule('cmat', 'xg', dexpr(n)))
        sg = cx.array('gauge', (L,))
        seen = []

        def colloc(rule, n=None):
            cx.prove('collocation of the rule in use', rule is s._rule and n is None)
            return cmat

        def canonicalize(ulx, vly):
            # contract of _canonicalize: one sign per function, the same for both
            seen.append((ulx, vly))
            ulx.data *= sg[None, None, :]
            vly.data *= sg[None, None, :]
        cx.patch('_gauss', 'legendre_collocation', colloc)
        cx.patch('sve', '_canonicalize', canonicalize)
        r = cx.run(s.postprocess, (u,), (sv,), (v,), float)
        l = cx.idx(L, 'l')
        cx.prove('gauge fixed once on the result', len(seen) == 1 and seen[0][0] is r.u
                 and seen[0][1] is r.v)
        cx.prove_shape('values', r.s, (L,))
        cx.prove_elem('values kept in order', r.s.at(l), sv.v(l))
        cx.prove('kernel and accuracy recorded', r.K is K and r.eps is st.eps)
        for nm, p, vec, m, seg in (('u', r.u, u, mx, sx), ('v', r.v, v, my, sy)):
            q, b = cx.idx(m, 'q' + nm), cx.idx(n, 'b' + nm)
            k = cx.idx(T.simp(T.add(m, 1)), 'k' + nm)
            cx.prove_shape(f'{nm}: knots', p.knots, (T.add(m, 1),))
            cx.prove_elem(f'{nm}: knots are the segments', p.knots.at(k), seg.v(k))
            cx.prove_shape(f'{nm}: coefficients', p.data, (n, m, L))
            x, w, _, _ = st.part(seg, m, q, b)
            h = T.sub(seg.v(T.add(lin(q), 1)), seg.v(q))
            cx.assume(T.and_(T.gt(w, 0), T.gt(h, 0)))
            wd = z3.Real('width_' + nm)
            cx.assume(T.eq(wd, h))
            cx.rewrite(seg.v(T.add(lin(q), 1)), T.add(seg.v(q), wd))
            # coefficients, cast to the class the value contract of C06 speaks about
            pd = p.data
            val = seg_value(n, pd, seg, q, (l,), x)
            spec = T.mul(sg.v(l), T.div(vec.v(Flat([q, b], [m, n]), l), T.func('sqrt', w)))
            cx.prove_eq(f'{nm}: singular vector / sqrt(weight) at the nodes', val, spec)
            cx.prove_eq(f'{nm}: argument unchanged', vec.v(Flat([q, b], [m, n]), l),
                        fresh_array(cx.ctx, nm, (mkprod([m, n]), L), S.F64).v(
                            Flat([q, b], [m, n]), l))
    return f


def canonicalize(cx):
    sve, poly = cx.m('sve'), cx.m('poly')
    L = cx.dim('L', 1)
    u, v = make_poly(cx, (L,), name='u'), make_poly(cx, (L,), name='v')
    end = cx.array('end', (L,))
    xs = []

    def value(self, x):
        cx.prove('evaluated is the left function', self is u)
        cx.prove('at the right end', T.eq(asarr(x).v(), 1))
        return end
    cx.patch(poly.PiecewiseLegendrePoly, '__call__', value)
    l = cx.idx(L, 'l')
    cx.assume_all([L], lambda l: T.ne(end.v(l), 0))
    cx.run(sve._canonicalize, u, v)
    sg = T.ite(T.gt(end.v(l), 0), Fr(1), Fr(-1))
    cx.decide(T.gt(end.v(l), 0))
    for nm, p in (('u', u), ('v', v)):
        P, I, _, data, knots = p._c
        i, j = cx.idx(P), cx.idx(I)
        old = fresh_array(cx.ctx, nm + 'data', (P, I, L), S.F64)
        cx.prove_elem(f'{nm}: multiplied by the sign of u(1)', p.data.at(i, j, l),
                      T.mul(sg, old.v(i, j, l)))
        k = cx.idx(T.simp(T.add(I, 1)))
        cx.prove_elem(f'{nm}: knots', p.knots.at(k), knots.v(k))
    cx.prove('value at the right end becomes positive', T.gt(T.mul(sg, end.v(l)), 0))


class Half:
    """contract of the inner SVE: its own problem, its own functions"""
    log = None

    def __init__(self, K, eps, **kw):
        self.log.append((self, K, eps, kw))
        self.K = K
        self.nsvals_hint = K.nsvals
        self.calls = []

    @property
    def matrices(self):
        return ('M', self.K.sign),

    def postprocess(self, u, s, v, dtype=None):
        self.calls.append((u, s, v, dtype))
        return self.K.result


class Reduced:
    pass


class SymmKern:
    is_centrosymmetric = True

    def __init__(self, cx):
        self.reduced = {}
        for sign in (1, -1):
            r = Reduced()
            r.sign, r.nsvals = sign, cx.int(f'nsvals{"eo"[sign < 0]}')
            self.reduced[sign] = r

    def get_symmetrized(self, sign):
        return self.reduced[asarr(sign).v() if isinstance(sign, S.SArr) else sign]


def symm_setup(cx):
    sve = cx.m('sve')
    K = SymmKern(cx)
    log = []
    cls = type('Inner', (Half,), {'log': log})
    eps = cx.real('eps')
    s = cx.run(sve.CentrosymmSVE, K, eps, InnerSVE=cls, n_gauss=7, label='constructor')
    return K, log, eps, s


def blocks(cx):
    K, log, eps, s = symm_setup(cx)
    cx.prove('two inner problems', len(log) == 2)
    cx.prove('even first, then odd', [q[1].sign for q in log] == [1, -1])
    cx.prove('same accuracy and options', all(q[2] is eps and q[3] == {'n_gauss': 7}
                                              for q in log))
    e, o = K.reduced[1].nsvals.v(), K.reduced[-1].nsvals.v()
    h = asarr(s.nsvals_hint).v()
    cx.prove('hint covers both', T.and_(T.ge(h, e), T.ge(h, o)))
    m = cx.run(lambda: list(s.matrices))
    cx.prove('matrices in the same order', m == [('M', 1), ('M', -1)])
    cx.prove('kernel and accuracy recorded', s.K is K and s.eps is eps)


def default_inner(cx):
    """without further arguments the inner problems are sampled"""
    sve = cx.m('sve')
    K = SymmKern(cx)
    log = []
    cx.patch('sve', 'SamplingSVE', type('Inner', (Half,), {'log': log}))
    cx.run(sve.CentrosymmSVE, K, cx.real('eps'))
    cx.prove('sampling strategy', [q[1].sign for q in log] == [1, -1])


def merge(cx):
    sve, poly = cx.m('sve'), cx.m('poly')
    K, log, eps, s = symm_setup(cx)
    Le, Lo = cx.dim('Le', 0), cx.dim('Lo', 0)
    tot = T.simp(T.add(Le, Lo))
    P = (cx.dim('P', 1),) * 2       # one rule for both axes (SamplingSVE)
    m = (cx.dim('mu', 1), cx.dim('mv', 1))
    full = [knots_array(cx, T.simp(2 * mm), f'full_{q}') for mm, q in zip(m, 'uv')]
    h = Hints()
    h.segments_x, h.segments_y = full
    asked = []
    K.sve_hints = lambda e: (asked.append(e), h)[1]
    part, vals = {}, {}
    for sign, Ls, nm in ((1, Le, 'e'), (-1, Lo, 'o')):
        ps = []
        for q in (0, 1):
            data = cx.array(nm + 'data' + 'uv'[q], (P[q], m[q], Ls))
            p = Deriv()
            p.data = data
            ps.append(p)
        sv = cx.array('s' + nm, (Ls,))
        K.reduced[sign].result = sve.SVEResult(ps[0], sv, ps[1], None, None)
        part[sign], vals[sign] = ps, sv
    cx.patch('poly', 'PiecewiseLegendrePoly', Made)
    r = cx.run(s.postprocess, ('ue', 'uo'), ('se', 'so'), ('ve', 'vo'), 'dt')
    cx.prove('each half is postprocessed with its own vectors',
             [q[0].calls for q in log] == [[(('u' + c,), ('s' + c,), ('v' + c,), 'dt')]
                                           for c in 'eo'])
    cx.prove('kernel and accuracy recorded', r.K is K and r.eps is eps)
    cx.prove('segments for the accuracy', len(asked) >= 1 and all(a is eps for a in asked))
    cx.prove_shape('all values', r.s, (tot,))
    k, k2 = cx.idx(tot, 'k'), cx.idx(tot, 'k2')
    cx.assume(T.lt(lin(k), lin(k2)))
    cx.prove('descending order', T.ge(r.s.v(k), r.s.v(k2)))
    # each entry of the result comes from one entry of the halves, none is lost
    (p, q), = cx.sorts() or [(None, None)]
    src = lambda t: p(T.z(T.sub(T.sub(tot, 1), lin(t))))
    at = src(k)
    cx.prove('every value occurs once', T.and_(T.le(0, at), T.lt(at, tot)))
    cx.prove('no value occurs twice', T.ne(src(k), src(k2)))
    even = cx.decide(T.lt(at, Le))
    sign = 1 if even else -1
    l = at if even else T.simp(T.sub(at, Le))
    cx.prove_elem('value of the half it comes from', r.s.at(k), vals[sign].v(l))
    for q, nm in enumerate('uv'):
        f = getattr(r, nm)
        hd = part[sign][q].data
        cx.prove_shape(f'{nm}: coefficients', f.data, (P[q], T.mul(2, m[q]), tot))
        cx.prove_shape(f'{nm}: knots', f.knots, (T.add(T.mul(2, m[q]), 1),))
        j = cx.idx(T.simp(T.add(T.mul(2, m[q]), 1)), 'j' + nm)
        cx.prove_elem(f'{nm}: knots', f.knots.at(j), full[q].v(j))
        cx.prove_elem(f'{nm}: parity recorded', f.symm.at(k), sign)
        a, i = cx.idx(P[q], 'a' + nm), cx.idx(m[q], 'i' + nm)
        inv2 = T.func('sqrt', Fr(1, 2))
        org = fresh_array(cx.ctx, ('e' if even else 'o') + 'data' + nm,
                          (P[q], m[q], Le if even else Lo), S.F64)
        cx.prove_elem(f'{nm}: right half is the half-interval function over sqrt(2)',
                      f.data.at(a, T.add(m[q], lin(i)), k), T.mul(inv2, org.v(a, i, l)))
        alt = T.ite(T.eq(lin(a) % 2, 0), Fr(1), Fr(-1))
        cx.decide(T.eq(lin(a) % 2, 0))
        cx.prove_elem(f'{nm}: left half is its even or odd continuation',
                      f.data.at(a, T.sub(T.sub(m[q], 1), lin(i)), k),
                      T.mul(T.mul(inv2, T.mul(alt, sign)), org.v(a, i, l)))


class Deriv:
    pass


class Made:
    """contract of the constructor of piecewise polynomials (C06, C09)"""

    def __init__(self, data, knots, dx=None, symm=None):
        self.data, self.knots, self.symm = map(asarr, (data, knots, symm))


def continuation(sign):
    """coefficients (-1)^p s c_p on the mirrored segment are the function s f(-x)
    (Legendre parity)"""
    def f(cx):
        P = cx.dim('P', 1)
        c = cx.array('c', (P,))
        lo, hi, x = z3.Real('lo'), z3.Real('hi'), z3.Real('x')
        cx.assume(T.lt(lo, hi))
        t = lambda x, lo, hi: T.mul(T.sub(x, T.mul(Fr(1, 2), T.add(lo, hi))),
                                    T.div(Fr(2), T.sub(hi, lo)))
        cx.prove_eq('argument on the mirrored segment', t(T.neg(x), T.neg(hi), T.neg(lo)),
                    T.neg(t(x, lo, hi)))
        p = cx.idx(P, 'p')
        alt = T.ite(T.eq(lin(p) % 2, 0), Fr(1), Fr(-1))
        tt = t(x, lo, hi)
        # P_p(-t) = (-1)^p P_p(t)
        lp = LEG(T.z(lin(p)), T.z(tt))
        lm = z3.Real('leg_mirrored')
        cx.assume(T.eq(lm, T.mul(alt, lp)))
        cx.decide(T.eq(lin(p) % 2, 0))
        cx.prove_eq('each term', T.mul(T.mul(T.mul(alt, sign), c.v(p)), lm),
                    T.mul(sign, T.mul(c.v(p), lp)))
    return f


def safe_eps(wd, have_eps, strat):
    """working type, safe accuracy and solver"""
    import numpy as rnp

    def f(cx):
        sve, svd = cx.m('sve'), cx.m('svd')
        warned = []
        cx.patch('sve', 'warn', lambda *a, **k: warned.append(a))
        big = 'EXTENDED'
        cx.patch('svd', 'MAX_DTYPE', big)

        class Fi:
            eps = Fr(1, 2**100)

        cx.patch('svd', 'finfo', lambda d: Fi if d == big else (_ for _ in ()).throw(
            AssertionError('finfo of another type')))
        eps = Eps(cx.real('eps')) if have_eps else None
        if have_eps:
            cx.assume(T.gt(eps.v(), 0))
        r = cx.run(sve._safe_eps, eps, wd, strat)
        se, w, st = r
        need = have_eps and cx.decide(T.lt(eps.v(), Fr(float(1e-8))))
        ext = wd is None and (not have_eps or need)
        cx.prove('working type', w == (big if ext else rnp.dtype(float)))
        lim = Fr(1, 2**50) if ext else Fr(1e-8)
        cx.prove_eq('safe accuracy is the root of the working precision',
                    asarr(se).v(), lim)
        low = have_eps and cx.decide(T.lt(eps.v(), lim))
        if strat is None:
            cx.prove('solver', st == ('accurate' if low else 'fast'))
            cx.prove('warning exactly if the accuracy is out of reach', len(warned) == int(low))
        else:
            cx.prove('solver is the one asked for', st == strat)
            cx.prove('no warning', not warned)
    return f


class Eps(S.SArr):
    """symbolic accuracy that can be printed"""

    def __new__(cls, a):
        return a


def svd_plain(cx):
    """strategy `default`: A = U diag(s) V^T"""
    svd = cx.m('svd')
    m, n = cx.dim('m', 1), cx.dim('n', 1)
    A = cx.array('A', (m, n))
    u, s, v = cx.run(svd.compute, A, strategy='default')
    (a, U, sv, Vh), = cx.ctx.svds
    r = dexpr(sv._shape[0])
    cx.prove('of the matrix itself', a is A or T.eq(a.v(0, 0), A.v(0, 0)))
    cx.prove_shape('left vectors', u, (m, r))
    cx.prove_shape('values', s, (r,))
    cx.prove_shape('right vectors', v, (n, r))
    i, j, l = cx.idx(m), cx.idx(n), cx.idx(r)
    cx.prove_elem('left vectors', u.at(i, l), U.v(i, l))
    cx.prove_elem('values', s.at(l), sv.v(l))
    cx.prove_elem('right vectors, one per column', v.at(j, l), Vh.v(l, j))


def svd_fast(hint):
    """strategy `fast`: the hinted number of values, at most what there is"""
    def f(cx):
        svd = cx.m('svd')
        m, n = cx.dim('m', 1), cx.dim('n', 1)
        A = cx.array('A', (m, n))
        h = cx.int('hint') if hint else None
        if hint:
            cx.assume(T.ge(h.v(), 1))
        calls = []
        cx.patch('svd', '_idsvd', lambda a, n_sv: (calls.append((a, n_sv)), ('u', 's', 'v'))[1])
        r = cx.run(svd.compute, A, h)
        cx.prove('result handed on', r == ('u', 's', 'v') and len(calls) == 1)
        k = asarr(calls[0][1]).v() if isinstance(calls[0][1], S.SArr) else calls[0][1]
        cx.prove('number of values within the matrix', T.and_(T.le(k, m), T.le(k, n)))
        cx.prove('number of values', T.or_(T.eq(k, m), T.eq(k, n), T.eq(k, h.v() if hint else m)))
        if hint:
            cx.prove('not more than hinted', T.le(k, h.v()))
        i, j = cx.idx(m), cx.idx(n)
        cx.prove_eq('matrix', calls[0][0].v(i, j), A.v(i, j))
    return f


def svd_jacobi(wide):
    """strategy `accurate`: LAPACK works on tall matrices, wide ones are transposed"""
    def f(cx):
        svd = cx.m('svd')
        m, n = cx.dim('m', 1), cx.dim('n', 1)
        cx.assume(T.lt(m, n) if wide else T.ge(m, n))
        A = cx.array('A', (m, n))
        calls = []
        cx.patch('svd', '_lapack_dgejsv', lambda a, joba: (calls.append((a, joba)), (
            's', 'u', 'v', None, (0, 0, 0), 0))[1])
        u, s, v = cx.run(svd.compute, A, None, 'accurate')
        cx.prove('one decomposition', len(calls) == 1)
        B = calls[0][0]
        cx.prove('job: accurate values', calls[0][1] == 2)
        i, j = cx.idx(m), cx.idx(n)
        if wide:
            cx.prove_shape('tall matrix', B, (n, m))
            cx.prove_eq('transpose', B.v(j, i), A.v(i, j))
            cx.prove('left and right exchanged', (u, s, v) == ('v', 's', 'u'))
        else:
            cx.prove_shape('tall matrix', B, (m, n))
            cx.prove_eq('matrix', B.v(i, j), A.v(i, j))
            cx.prove('left and right', (u, s, v) == ('u', 's', 'v'))
    return f


def svd_unknown(cx):
    svd = cx.m('svd')
    cx.raises('unknown strategy', ValueError, svd.compute,
              cx.array('A', (cx.dim('m', 1), cx.dim('n', 1))), None, 'something')


SP = ['sve.SamplingSVE.__init__', 'sve.SamplingSVE.matrices', 'kernel.matrix_from_gauss']
CS = ['sve.CentrosymmSVE.__init__', 'sve.CentrosymmSVE.matrices']
SCENARIOS = [
    Scenario('matrix', matrices(False), functions=SP),
    Scenario('matrix-order-given', matrices(True), functions=SP),
    Scenario('functions', postprocess(True), functions=['sve.SamplingSVE.postprocess']),
    Scenario('gauge', canonicalize, functions=['sve._canonicalize']),
    Scenario('even-odd-problems', blocks, functions=CS),
    Scenario('even-odd-default', default_inner, functions=CS[:1]),
    Scenario('merge', merge, functions=['sve.CentrosymmSVE.postprocess']),
    Scenario('continuation-even', continuation(1), functions=[]),
    Scenario('continuation-odd', continuation(-1), functions=[]),
] + [Scenario(f'accuracy-{"auto" if w is None else "double"}-{"given" if e else "none"}-{st}',
              safe_eps(w, e, st), functions=['sve._safe_eps'])
     for w in (None, float) for e in (True, False) for st in (None, 'fast')] + [
    Scenario('svd-default', svd_plain, functions=['svd.compute']),
    Scenario('svd-fast', svd_fast(False), functions=['svd.compute']),
    Scenario('svd-fast-hint', svd_fast(True), functions=['svd.compute']),
    Scenario('svd-accurate-tall', svd_jacobi(False), functions=['svd.compute', 'svd._dgejsv']),
    Scenario('svd-accurate-wide', svd_jacobi(True), functions=['svd.compute', 'svd._dgejsv']),
    Scenario('svd-unknown', svd_unknown, functions=['svd.compute'])]
ASSUMED = ["LAPACK and interpolative singular value decompositions (numpy, scipy, xprec) are "
           "decompositions of their argument",
           "a left function does not vanish at the right end point (totally positive kernels)",
           "Legendre parity P_p(-t) = (-1)^p P_p(t)",
           "products of positive numbers are positive"]
BOUNDED = ["accuracy of the expansion of the built-in kernels (battery: orthonormality, "
           "reproduction of the kernel, singular value equation)"]
