"""Contracts for C13: SVE truncation."""
from .common import *
from . import lemmas
from engine import symnp

LEVEL = 'proof'


def blocks(cx, nb):
    u, s, v, dims = [], [], [], []
    for b in range(nb):
        n, r, c = (cx.dim(f'{x}{b}') for x in 'NRC')
        sb = cx.array(f's{b}', (n,))
        # the singular values of each block come in descending order
        cx.assume_all([n, n], lambda i, j: T.implies(
            T.lt(lin(i), lin(j)), T.ge(sb.v(i), sb.v(j))))
        u.append(cx.array(f'u{b}', (r, n)))
        v.append(cx.array(f'v{b}', (c, n)))
        s.append(sb)
        dims.append((n, r, c))
    tot = sum([d[0] for d in dims[1:]], dims[0][0])
    cx.assume(T.ge(tot, 1))
    return u, s, v, dims, T.simp(tot)


def sum_counts(s, x, cmp):
    t = 0
    for b in s:
        t = T.add(t, make_sum([b._shape[0]], lambda ix: E(T.ite(cmp(b.at(*ix).val, x), 1, 0)),
                              True).val)
    return t


def truncate(nb, limit):
    """`limit`: None, 'effective' (some values must go) or 'idle'"""
    def f(cx):
        sve = cx.m('sve')
        u, s, v, dims, tot = blocks(cx, nb)
        rtol = cx.real('rtol')
        cx.assume(T.and_(T.le(0, rtol.v()), T.le(rtol.v(), 1)))
        args = [rtol]
        if limit:
            lmax = cx.int('lmax')
            cx.assume(T.ge(lmax.v(), 0))
            cx.assume((T.lt if limit == 'effective' else T.ge)(lmax.v(), tot))
            args.append(lmax)
        r = cx.run(sve._truncate, u, s, v, *args)
        un, sn, vn = r
        un, sn, vn = list(un), list(sn), list(vn)
        cx.prove('number of blocks', len(un) == nb and len(sn) == nb and len(vn) == nb)
        # the largest value of all, by its definition
        big = z3.Real('largest')
        wb = cx.idx(nb, 'wb') if nb > 1 else 0
        wi = z3.Int('wi')
        att = []
        for b in range(nb):
            cx.assume_all([dims[b][0]], lambda i: T.le(s[b].v(i), big))
            att.append(T.and_(T.eq(wb, b), T.le(0, wi), T.lt(wi, dims[b][0]),
                              T.eq(s[b].v(wi), big)))
        cx.assume(T.or_(*att))
        off = lambda b: sum([d[0] for d in dims[1:b]], dims[0][0]) if b else 0
        # ghost code: the values in ascending order
        srt = symnp.sort(symnp.hstack(s))
        if len(cx.sorts()) == 1:
            (_, q), = cx.sorts()
            for w in range(nb):
                cx.assume(T.ge(mention(q(T.z(T.add(off(w), wi)))), 0))
        have(cx, 'last of the sorted values is the largest',
             T.eq(srt.v(T.sub(tot, 1)), big))
        for b in range(nb):
            n = dims[b][0]
            cnt = dexpr(sn[b]._shape[0])
            cx.prove(f'kept values of block {b} are an initial part',
                     T.and_(T.le(0, cnt), T.le(cnt, n)))
            cx.prove_shape(f'left vectors of block {b}', un[b], (dims[b][1], cnt))
            cx.prove_shape(f'right vectors of block {b}', vn[b], (dims[b][2], cnt))
            k = cx.idx(n, 'k')
            x = s[b].v(k)
            kept = T.lt(lin(k), cnt)
            above = T.gt(x, T.mul(rtol.v(), big))
            if limit:
                g = have_counts(cx, s, srt, x, tot, b)
                among = T.le(g, lmax.v())
                if limit == 'effective':
                    t = srt.v(T.sub(T.sub(tot, lmax.v()), 1))
                    have(cx, f'among the largest: above the first one left out ({b})',
                         T.eq(among, T.gt(x, t)))
                spec = T.and_(above, among)
            else:
                spec = above
            cx.prove(f'kept exactly if above the cutoff (block {b}, kept)',
                     T.implies(kept, spec))
            cx.prove(f'kept exactly if above the cutoff (block {b}, dropped)',
                     T.implies(spec, kept))
            if cx.decide(kept):
                i, j = cx.idx(dims[b][1]), cx.idx(dims[b][2])
                cx.prove_elem(f'values of block {b}', sn[b].at(k), s[b].v(k))
                cx.prove_elem(f'left vectors of block {b}', un[b].at(i, k), u[b].v(i, k))
                cx.prove_elem(f'right vectors of block {b}', vn[b].at(j, k), v[b].v(j, k))
    return f


def mention(t):
    """a term brought to the attention of the quantifier instantiation"""
    return t


def have(cx, label, f):
    """intermediate assertion: proved, then available"""
    if cx.prove(label, f):
        cx.assume(f)


def have_counts(cx, s, srt, x, tot, b):
    """number of values at or above x, counted in sorted order and in the blocks"""
    g = asarr((srt >= scalar(x)).sum()).v()
    have(cx, f'sorted and unsorted counts agree ({b})', T.eq(g, sum_counts(s, x, T.ge)))
    return sum_counts(s, x, T.ge)


def rejected(what):
    def f(cx):
        sve = cx.m('sve')
        u, s, v, dims, tot = blocks(cx, 1)
        rtol, lmax = cx.real('rtol'), cx.real('lmax')
        ok = T.and_(T.le(0, rtol.v()), T.le(rtol.v(), 1))
        if what == 'negative':
            cx.assume(ok)
            cx.assume(T.lt(lmax.v(), 0))
        elif what == 'fraction':
            cx.assume(ok)
            cx.assume(z3.Not(z3.IsInt(lmax.v())))
        elif what == 'rtol':
            cx.assume(T.not_(ok))
            cx.raises(what, ValueError, sve._truncate, u, s, v, rtol)
            lmax = cx.int('lint')
        elif what == 'nan':
            nan = cx.array('nanv', (), nan=True)
            nan._is_scalar = True
            cx.assume(nan.at().nan)
            cx.raises(what, ValueError, sve._truncate, u, s, v, nan)
            return
        cx.raises(what, ValueError, sve._truncate, u, s, v, rtol, lmax)
    return f


def part(kind):
    """SVEResult.part with the real polynomials of C09"""
    def f(cx):
        sve, poly = cx.m('sve'), cx.m('poly')
        N = cx.dim('N', 1)
        s = cx.array('s', (N,))
        cx.assume_all([N, N], lambda i, j: T.implies(
            T.lt(lin(i), lin(j)), T.ge(s.v(i), s.v(j))))
        u = make_poly(cx, (N,), name='u', symm=True)
        v = make_poly(cx, (N,), name='v', symm=True)
        eps, own, ms = cx.real('eps'), cx.real('own'), cx.int('max_size')
        cx.assume(T.ge(ms.v(), 0))
        r = cx.run(sve.SVEResult, u, s, v, None, own)
        a = {'own': (), 'eps': (eps,), 'size': (None, ms), 'both': (eps, ms)}[kind]
        un, sn, vn = cx.run(r.part, *a)
        e = eps if kind in ('eps', 'both') else own
        cnt = dexpr(asarr(sn)._shape[0])
        cx.prove('at most all', T.and_(T.le(0, cnt), T.le(cnt, N)))
        k = cx.idx(N, 'k')
        kept = T.lt(lin(k), cnt)
        spec = T.ge(s.v(k), T.mul(e.v(), s.v(0)))
        if kind in ('size', 'both'):
            spec = T.and_(spec, T.lt(lin(k), ms.v()))
        cx.prove('kept exactly if at or above the accuracy (kept)', T.implies(kept, spec))
        cx.prove('kept exactly if at or above the accuracy (dropped)', T.implies(spec, kept))
        for nm, p, pn in (('u', u, un), ('v', v, vn)):
            P, I, L, data, knots = p._c
            cx.prove_shape(f'{nm}: leading functions', pn.data, (P, I, cnt))
            cx.prove_shape(f'{nm}: segments', pn.knots, (T.add(I, 1),))
            if cx.decide(kept):
                i, j, q = cx.idx(P), cx.idx(I), cx.idx(T.simp(T.add(I, 1)))
                cx.prove_elem(f'{nm}: coefficients', pn.data.at(i, j, k), data.v(i, j, k))
                cx.prove_elem(f'{nm}: knots', pn.knots.at(q), knots.v(q))
                cx.prove_elem(f'{nm}: parity', pn.symm.at(k), p.symm.v(k))
        if cx.decide(kept):
            cx.prove_elem('values', asarr(sn).at(k), s.v(k))
        a, b, c = cx.run(lambda: tuple(r))
        cx.prove('iteration gives u, s, v', a is u and b is s and c is v)
    return f


class Strategy:
    """stub of an SVE strategy: records what `compute` does with it"""
    log = None

    def __init__(self, K, eps, n_gauss=None, dtype=None):
        self.log.update(K=K, eps=eps, n_gauss=n_gauss, dtype=dtype)
        self.nsvals_hint = 'hint'
        self.matrices = ('A0', 'A1')

    def postprocess(self, u, s, v, dtype=None):
        return 'result', u, s, v, dtype


class Kern:
    def __init__(self, sym):
        self.is_centrosymmetric = sym


def compute(own_cutoff):
    """sve.compute applies the truncation to what the SVD returns"""
    def f(cx):
        sve, svd = cx.m('sve'), cx.m('svd')
        log = {}
        strat = type('Strat', (Strategy,), {'log': log})
        calls = []
        cx.patch('sve', '_safe_eps', lambda e, w, s: ('safe', svd.finfo and float, 'strategy'))
        cx.patch('svd', 'compute', lambda m, hint, st: ('u' + m, 's' + m, 'v' + m)
                 if (hint, st) == ('hint', 'strategy') else None)

        def trunc(u, s, v, rtol=0, lmax=None):
            calls.append((tuple(u), tuple(s), tuple(v), rtol, lmax))
            return 'U', 'S', 'V'
        cx.patch('sve', '_truncate', trunc)
        cut, nsv = cx.real('cutoff'), cx.int('n_sv')
        kw = dict(cutoff=cut) if own_cutoff else {}
        r = cx.run(sve.compute, Kern(False), 1e-6, n_sv=nsv, n_gauss=7, dtype='dt',
                   sve_strat=strat, **kw)
        cx.prove('one truncation of all blocks', len(calls) == 1)
        u, s, v, rtol, lmax = calls[0]
        cx.prove('vectors and values of every matrix, in order',
                 u == ('uA0', 'uA1') and s == ('sA0', 'sA1') and v == ('vA0', 'vA1'))
        cx.prove('requested size', lmax is nsv)
        cx.prove('relative cutoff', rtol is cut if own_cutoff else
                 T.eq(asarr(rtol).v(), Fr(2) * Fr(2)**-52))
        cx.prove('result is the postprocessed truncation', r == ('result', 'U', 'S', 'V', 'dt'))
        cx.prove('strategy gets the working accuracy and type', log.get('eps') == 'safe'
                 and log.get('dtype') is float and log.get('n_gauss') == 7)
    return f


TR = ['sve._truncate']
SCENARIOS = [
    Scenario('two-blocks-lmax', truncate(2, 'effective'), functions=TR),
    Scenario('two-blocks-lmax-idle', truncate(2, 'idle'), functions=TR),
    Scenario('one-block-lmax', truncate(1, 'effective'), functions=TR),
    Scenario('one-block-lmax-idle', truncate(1, 'idle'), functions=TR),
    Scenario('two-blocks', truncate(2, None), functions=TR),
    Scenario('one-block', truncate(1, None), functions=TR),
    Scenario('lemma-count', lemmas.monotone_count),
] + [Scenario('rejected-' + w, rejected(w), functions=TR)
     for w in ('negative', 'fraction', 'rtol', 'nan')] + [
    Scenario('part-' + k, part(k), functions=['sve.SVEResult.part', 'sve.SVEResult.__iter__',
                                              'poly.PiecewiseLegendrePoly.__getitem__'])
    for k in ('own', 'eps', 'size', 'both')] + [
    Scenario('compute', compute(True), functions=['sve.compute']),
    Scenario('compute-default', compute(False), functions=['sve.compute'])]
ASSUMED = ["singular values of each block arrive in descending order (LAPACK / C14)",
           "one or two blocks (the strategies of the package produce one or two)"]
BOUNDED = []
