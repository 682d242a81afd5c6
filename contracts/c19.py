"""Contracts for C19: least-squares fit."""
from .common import *
from . import c17, c18

LEVEL = 'proof'


def cconj(z):
    return Cx(z.re, T.neg(z.im)) if isinstance(z, Cx) else z


def part(z, which):
    if isinstance(z, Cx):
        return z.re if which == 're' else z.im
    return z if which == 're' else 0


class Svd:
    """the decomposition obtained from numpy (trusted): matrix = u s vh"""

    def __init__(self, cx, rec):
        self.cx = cx
        self.a, self.u, self.s, self.vh = rec
        self.K = self.s._shape[0]
        # the matrix is not zero
        cx.assume(T.gt(self.s.v(0), 0))
        cx.assume_all([self.K], lambda k: T.or_(T.eq(self.s.v(k), 0), T.gt(self.s.v(k), 0)))

    def entry(self, m, l):
        return rsum(self.K, lambda k: T.mul(T.mul(self.u.v(m, k), self.s.v(k)),
                                            self.vh.v(k, l)))


def stationary(cx, d, M, L, xs, rs, label):
    """normal equations A^H (A r - x) = 0 with A = u s vh; xs(m), rs(l)"""
    l = cx.idx(L, 'l')

    def resid(m):
        return T.sub(rsum(L, lambda q: T.mul(d.entry(m, q), rs(q))), xs(m))
    ne = rsum(M, lambda m: T.mul(cconj(d.entry(m, l)), resid(m)))
    for which in ('re', 'im'):
        cx.prove_eq(f'{label} ({which})', part(ne, which), 0)


def fit(kind, rank, axis, coef, what):
    def f(cx):
        b, s, pts, fun = c18.build(cx, kind, True)
        d = Svd(cx, cx.ctx.svds[-1])
        M, L = pts._shape[0], b.L
        p = asarr(s.sampling_points)
        l, m = cx.idx(L), cx.idx(M)
        # the decomposed matrix is the evaluation matrix
        A = asarr(s.matrix.a)
        cx.prove_elem('matrix', A.at(m, l), fun(l, p.v(m)))
        if kind != 'positive':
            cx.prove_shape('decomposed matrix', d.a, (M, L))
            cx.prove_elem('decomposed matrix', d.a.at(m, l), fun(l, p.v(m)))
        else:
            off = T.sub(T.mul(2, M), dexpr(d.a._shape[0]))
            n0 = lin(M)
            cx.prove('rows: real parts, then imaginary parts', T.or_(
                T.eq(off, 0), T.and_(T.eq(off, 1), T.eq(p.v(0), 0))))
            cx.prove_elem('real parts', d.a.at(S.Part(m, 0, d.a._shape[0]), l),
                          fun(l, p.v(m)).re)
            k = cx.idx(d.a._shape[0].parts[1])
            cx.prove_elem('imaginary parts, except at zero', d.a.at(
                S.Part(k, 1, d.a._shape[0]), l), fun(l, p.v(T.add(lin(k), off))).im)
        # without an axis: the matrix-vector or matrix-matrix product
        ax = 0 if axis is None else axis if axis >= 0 else rank + axis
        dims = [cx.dim(f'd{q}') for q in range(rank)]
        ix = [cx.idx(q) for q in dims]
        if what == 'recover':
            # full column rank
            cx.assume(T.le(lin(L), dexpr(d.a._shape[0])))
            cx.assume(T.gt(d.s.v(T.sub(dexpr(d.K), 1)), 0))
            cx.assume_all([d.K], lambda k: T.gt(d.s.v(k), 0))
            dims[ax] = L
            c = cx.array('c', dims, coef)

            def xval(m, ix):
                return rsum(L, lambda q: T.mul(d.entry(m, q), c.v(*ix[:ax], q, *ix[ax + 1:])))
            dims[ax] = M
            if kind == 'positive':
                n, k = d.a._shape[0].parts
                off = T.sub(lin(n), dexpr(k))
                junk = cx.real('imaginary_part_at_zero').v()

                def val(ixx):
                    m = ixx[ax]
                    below = T.lt(lin(m), off)
                    im = xval(T.add(lin(n), T.sub(lin(m), off)), ixx)
                    return E(Cx(xval(lin(m), ixx), T.ite(below, junk, im)))
            else:
                def val(ixx):
                    return E(xval(ixx[ax], ixx))
            x = mk(val, tuple(dims), S.C128 if kind != 'tau' or coef == 'c' else S.F64)
        else:
            dims[ax] = M
            x = cx.array('x', dims, coef)
        r, w = c17.warned(cx, lambda: s.fit(x, axis) if axis is not None else s.fit(x))
        r = asarr(r)
        out = list(dims)
        out[ax] = L
        cx.prove_shape('shape', r, out)
        rs = lambda q: r.v(*ix[:ax], q, *ix[ax + 1:])
        xs = lambda q: x.v(*ix[:ax], q, *ix[ax + 1:])
        if kind == 'positive':
            cx.prove('real coefficients', r.kind == 'f')
        if what == 'recover':
            j = cx.idx(L, 'j')
            jx = ix[:ax] + [j] + ix[ax + 1:]
            cx.prove_elem('recovers the coefficients', r.at(*jx), c.v(*jx))
        elif kind == 'positive':
            n, k = d.a._shape[0].parts
            off = T.sub(lin(n), dexpr(k))
            l = cx.idx(L, 'l')
            ne = 0
            for dim, base, val in ((n, 0, lambda q: part(xs(q), 're')),
                                   (k, lin(n), lambda q: part(xs(T.add(q, off)), 'im'))):
                row = lambda q: T.add(lin(q), base)
                ne = T.add(ne, rsum(dim, lambda q: T.mul(d.entry(row(q), l), T.sub(
                    rsum(L, lambda h: T.mul(d.entry(row(q), h), rs(h))), val(lin(q))))))
            cx.prove_eq('normal equations', ne, 0)
        else:
            stationary(cx, d, M, L, xs, rs, 'normal equations')
        kept = asarr(s.matrix.s)
        cn = asarr(cx.run(lambda: s.cond))
        last = T.sub(dexpr(kept._shape[0]), 1)
        cx.prove_elem('condition number', cn.at(), T.div(d.s.v(0), kept.v(last)))
        if not w:
            cx.prove('poorly conditioned: warning', T.le(cn.v(), Fr(10)**8))
    return f


FITS = ['sampling.AbstractSampling.fit', 'sampling._matop_along_axis']
SCENARIOS = []
N_ = 0
for k_ in ('tau', 'freq', 'positive'):
    for r_, a_ in ((1, None), (2, None), (1, 0), (1, -1), (2, 0), (2, 1), (2, -2), (3, 0), (3, 1), (3, -1)):
        N_ += 1
        SCENARIOS.append(Scenario(f'{k_}-rank{r_}-axis{a_}', fit(k_, r_, a_, 'cf'[N_ % 2], ''),
                                  functions=FITS + c18.CLS[k_]))
for k_ in ('tau', 'freq', 'positive'):
    for r_, a_ in ((1, 0), (2, 0), (2, -1), (3, 1)):
        N_ += 1
        SCENARIOS.append(Scenario(
            f'{k_}-recover-rank{r_}-axis{a_}',
            fit(k_, r_, a_, 'f' if k_ == 'positive' else 'cf'[N_ % 2], 'recover'),
            functions=FITS + c18.CLS[k_]))
ASSUMED = ["values of the basis functions (C06, C10, C15)", "the sampling matrix is not zero"]
BOUNDED = ["rank of the value array: 1 to 3 (lengths unbounded)"]
