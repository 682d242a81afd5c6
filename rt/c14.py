import warnings
import numpy as np
from harness import case, THOROUGH
from ref import sve as get_sve, pw_eval, mp_logistic, mp_bose
from sparse_ir import sve, kernel, poly, svd, _gauss

KS = (kernel.LogisticKernel, kernel.RegularizedBoseKernel)


def direct_rule(segs, n):
    x, w = np.polynomial.legendre.leggauss(n)
    X, W = [], []
    for a, b in zip(segs[:-1], segs[1:]):
        X.append((a + b) / 2 + (b - a) / 2 * x)
        W.append((b - a) / 2 * w)
    return np.concatenate(X), np.concatenate(W)


class HintKernel(kernel.AbstractKernel):
    """a smooth kernel on its own rectangle with given hints"""
    xrange, yrange, is_centrosymmetric = (0., 2.), (-1., 3.), False
    lambda_ = 1.

    def __call__(self, x, y, x_plus=None, x_minus=None):
        return np.exp(-.3 * x * y) + .1 * x - .2 * y

    def sve_hints(self, eps):
        class H(kernel.AbstractSVEHints):
            segments_x = np.array([0., .25, 1., 2.])
            segments_y = np.array([-1., 0., .5, 2., 3.])
            ngauss, nsvals = 6, 12
        return H()


@case
def matrices(t):
    for K, n in ((HintKernel(), None), (HintKernel(), 4), (KS[0](7.), 5), (KS[1](3.), 6),
                 (KS[0](20.).get_symmetrized(1), 4), (KS[0](20.).get_symmetrized(-1), 4),
                 (KS[1](9.).get_symmetrized(1), None), (KS[1](9.).get_symmetrized(-1), 7)):
        s = sve.SamplingSVE(K, 1e-6, n_gauss=n)
        h = K.sve_hints(1e-6)
        n = n or h.ngauss
        x, wx = direct_rule(h.segments_x, n)
        y, wy = direct_rule(h.segments_y, n)
        m, = s.matrices
        e = np.sqrt(wx)[:, None] * K(x[:, None], y[None, :]) * np.sqrt(wy)[None, :]
        t.close(m, e, "sqrt(wx) K sqrt(wy)", 1e-11, 1e-14 * np.abs(e).max(), K=type(K).__name__, n=n)
        m2, = s.matrices
        t.equal(m2, m, "reading the matrices twice")
        t.check(s.nsvals_hint == h.nsvals, "number of values hint")


@case
def near_the_end_points(t):
    """the kernel is sampled with the accurate distances from the ends"""
    for cls, ref in zip(KS, (mp_logistic, mp_bose)):
        K = cls(1e6)
        s = sve.SamplingSVE(K, 1e-6)
        h = K.sve_hints(1e-6)
        m, = s.matrices
        n = h.ngauss
        x, wx = direct_rule(h.segments_x, n)
        y, wy = direct_rule(h.segments_y, n)
        xl, _ = np.polynomial.legendre.leggauss(n)
        d0 = (h.segments_x[1] - h.segments_x[0]) / 2 * (1 + xl)
        for i in range(n):
            for j in range(0, y.size, max(1, y.size // 17)):
                e = float(ref(1e6, x[i], y[j], xp=d0[i], xm=2 - d0[i])) * np.sqrt(wx[i] * wy[j])
                t.check(abs(m[i, j] - e) <= 1e-9 * abs(e) + 1e-200, "entry next to x = -1",
                        i=i, j=j, got=m[i, j], expected=e)


@case
def both_blocks(t):
    for cls in KS:
        K = cls(12.)
        s = sve.CentrosymmSVE(K, 1e-6, n_gauss=5)
        a, b = list(s.matrices)
        for m, sign in ((a, 1), (b, -1)):
            e, = sve.SamplingSVE(K.get_symmetrized(sign), 1e-6, n_gauss=5).matrices
            t.close(m, e, "even and odd problems in order", 1e-15, sign=sign)


def node_values(p, segs, n):
    xl, _ = np.polynomial.legendre.leggauss(n)
    x = np.concatenate([(a + b) / 2 + (b - a) / 2 * xl for a, b in zip(segs[:-1], segs[1:])])
    return pw_eval(np.asarray(p.data, float), np.asarray(p.knots, float), x)


@case
def postprocess(t):
    """functions take singular vector / sqrt(weight) at the nodes"""
    for K, n, L in ((HintKernel(), 5, 3), (HintKernel(), 1, 2), (HintKernel(), 3, 1),
                    (KS[0](4.).get_symmetrized(1), 4, 4), (KS[1](4.).get_symmetrized(-1), 6, 2)):
        s = sve.SamplingSVE(K, 1e-6, n_gauss=n)
        h = K.sve_hints(1e-6)
        x, wx = direct_rule(h.segments_x, n)
        y, wy = direct_rule(h.segments_y, n)
        u, v = t.rng.randn(x.size, L), t.rng.randn(y.size, L)
        sv = np.sort(t.rng.rand(L))[::-1]
        u0, v0, s0 = u.copy(), v.copy(), sv.copy()
        r = t.attempt(lambda: s.postprocess((u,), (sv,), (v,), float), "postprocess", n=n, L=L)
        if r is None:
            continue
        t.equal(r.s, sv, "values kept in order")
        t.equal(r.u.knots, h.segments_x, "left knots")
        t.equal(r.v.knots, h.segments_y, "right knots")
        ue, ve = (u / np.sqrt(wx)[:, None]).T, (v / np.sqrt(wy)[:, None]).T
        ug, vg = node_values(r.u, h.segments_x, n), node_values(r.v, h.segments_y, n)
        for l in range(L):
            sg = np.sign(r.u.xmax) and np.sign((ug[l] * ue[l]).sum())
            t.close(ug[l], sg * ue[l], "left function at the nodes", 1e-10, 1e-11, l=l, n=n)
            t.close(vg[l], sg * ve[l], "right function at the nodes, same sign", 1e-10, 1e-11, l=l,
                    n=n)
        t.check(r.u.polyorder == n and r.v.polyorder == n, "degree below the number of nodes")
        if r.u.xmax == 1:
            t.check((r.u(1.) > 0).all(), "left functions positive at the right end", n=n)
        t.check(r.K is K, "kernel recorded")
        for a, b, nm in ((u, u0, 'u'), (v, v0, 'v'), (sv, s0, 's')):
            t.equal(a, b, "arguments unchanged: " + nm)
        r2 = s.postprocess((u,), (sv,), (v,))
        t.equal(r2.u.data, r.u.data, "default dtype")


@case
def canonical(t):
    f = t.private(sve, '_canonicalize')
    for sg in ([1, -1, 1], [-1, -1, -1], [1, 1, -1]):
        data = t.rng.randn(3, 2, 3)
        u = poly.PiecewiseLegendrePoly(data, [-1., .2, 1.])
        u.data *= (np.sign(u(1)) * sg)[None, None]
        v = poly.PiecewiseLegendrePoly(t.rng.randn(4, 3, 3), [-1., -.5, .5, 1.])
        ud, vd = u.data.copy(), v.data.copy()
        f(u, v)
        t.close(u.data, ud * np.array(sg), "left sign", 1e-15)
        t.close(v.data, vd * np.array(sg), "right sign follows", 1e-15)
        t.check((u(1) > 0).all(), "positive at the end")


@case
def merge(t):
    """even and odd halves merged, sorted and continued"""
    for cls in KS:
        K = cls(6.)
        for Le, Lo, n in ((3, 3, 4), (4, 2, 5), (1, 3, 3), (2, 0, 3), (5, 4, 4)):
            s = sve.CentrosymmSVE(K, 1e-6, n_gauss=n)
            me, mo = list(s.matrices)
            U, S, V, half = [], [], [], []
            for m, L, sub in ((me, Le, s.even), (mo, Lo, s.odd)):
                U.append(t.rng.randn(m.shape[0], L))
                V.append(t.rng.randn(m.shape[1], L))
                S.append(np.sort(t.rng.rand(L) + .01)[::-1])
                half.append(sub.postprocess((U[-1],), (S[-1],), (V[-1],), float))
            r = t.attempt(lambda: s.postprocess(tuple(U), tuple(S), tuple(V), float), "merge",
                          Le=Le, Lo=Lo)
            if r is None:
                continue
            allv = [(q, 1, l) for l, q in enumerate(S[0])] + [(q, -1, l) for l, q in enumerate(S[1])]
            allv.sort(key=lambda q: -q[0])
            t.equal(r.s, [q[0] for q in allv], "descending", Le=Le, Lo=Lo)
            h = K.sve_hints(1e-6)
            t.equal(r.u.knots, h.segments_x, "left knots")
            t.equal(r.v.knots, h.segments_y, "right knots")
            t.equal(r.u.symm, [q[1] for q in allv], "left parity", Le=Le)
            t.equal(r.v.symm, [q[1] for q in allv], "right parity", Le=Le)
            for nm, seg in (('u', h.segments_x), ('v', h.segments_y)):
                f = getattr(r, nm)
                seg = seg[seg >= 0]
                xp = np.concatenate([a + (b - a) * np.array([.1, .5, .83]) for a, b in
                                     zip(seg[:-1], seg[1:])])
                up, un = f(xp), f(-xp)
                for k, (q, sign, l) in enumerate(allv):
                    e = getattr(half[0 if sign > 0 else 1], nm)[l](xp) / np.sqrt(2)
                    sc = np.abs(e).max()
                    t.close(up[k], e, "half-interval function scaled", 1e-11, 1e-12 * sc, k=k)
                    t.close(un[k], sign * e, "even or odd continuation", 1e-11, 1e-12 * sc, k=k,
                            sign=sign, f=nm)
            t.check((r.u(1.) > 0).all(), "positive at the right end")


@case
def expansion(t):
    """end to end: orthonormal functions, descending values, kernel reproduced"""
    for cls in KS:
        for lam, eps in ((.5, 1e-6), (10., 1e-6), (42., 1e-7), (300., 1e-6)):
            K = cls(lam)
            for strat in (None, sve.SamplingSVE):
                r = sve.compute(K, eps, sve_strat=strat)
                t.check((np.diff(r.s) <= 0).all() and (r.s >= 0).all(), "descending", lam=lam)
                keep = r.s > eps * r.s[0]
                n = int(keep.sum())
                t.check((r.u(1.)[:n] > 0).all(), "positive at the right end", lam=lam)
                sg = (-1.)**np.arange(n)
                x = np.linspace(0, 1, 13)
                for f in (r.u, r.v):
                    sc = np.abs(f(x)[:n]).max()
                    t.close(f(-x)[:n], sg[:, None] * f(x)[:n], "parity alternates", 0, 1e-4 * sc,
                            lam=lam)
                    xs, w = direct_rule(f.knots, 2 * f.polyorder)
                    q = pw_eval(f.data[:, :, :n], f.knots, xs)
                    t.close((q * w) @ q.T, np.eye(n), "orthonormal", 0, 1e-9, lam=lam)
                xx, yy = np.linspace(-1, 1, 17), np.linspace(-1, 1, 15)
                k = K(xx[:, None], yy[None, :])
                g = np.einsum('li,l,lj->ij', r.u(xx), r.s, r.v(yy))
                t.close(g, k, "kernel reproduced", 0, 1e-5 * k.max(), lam=lam, K=cls.__name__)
                if strat is None:
                    t.equal(r.u.symm[:n], sg, "recorded parity", lam=lam)
            # singular value equation
            r = sve.compute(K, eps)
            yw, w = direct_rule(r.v.knots, 20)
            v = pw_eval(r.v.data[:, :, :3], r.v.knots, yw)
            xx = np.array([-.9, -.2, .4, 1.])
            t.close(np.einsum('ij,lj,j->li', K(xx[:, None], yw[None, :]), v, w),
                    r.s[:3, None] * r.u(xx)[:3], "K v = s u", 1e-6, 1e-6 * r.s[0], lam=lam)


@case
def options(t):
    K = kernel.LogisticKernel(10.)
    ref = sve.compute(K, 1e-7)
    for kw in (dict(svd_strat='default'), dict(svd_strat='accurate'), dict(svd_strat='fast'),
               dict(n_gauss=14), dict(work_dtype=np.float64), dict(sve_strat=sve.SamplingSVE)):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = t.attempt(lambda: sve.compute(K, 1e-7, **kw), "options", kw=kw)
        if r is None:
            continue
        n = int((ref.s > 1e-6 * ref.s[0]).sum())
        t.close(r.s[:n], ref.s[:n], "same values", 1e-8, 1e-12, kw=kw)
        x = np.linspace(-1, 1, 9)
        t.close(r.u(x)[:n], ref.u(x)[:n], "same left functions", 1e-6, 1e-7, kw=kw)
        t.close(r.v(x)[:n], ref.v(x)[:n], "same right functions", 1e-6, 1e-7, kw=kw)


@case
def svd_strategies(t):
    for m, n in ((6, 6), (9, 5), (5, 9), (1, 4), (12, 3)):
        A = t.rng.randn(m, n) * 10.**-np.arange(n)
        for strat in ('fast', 'default', 'accurate'):
            r = t.attempt(lambda: svd.compute(A, strategy=strat), "svd", strat=strat, m=m, n=n)
            if r is None:
                continue
            u, s, v = r
            t.close((u * s) @ v.T, A, "A = U s V^T", 0, 1e-12 * np.abs(A).max(), strat=strat, m=m,
                    n=n)
            t.check((s[1:] <= s[:-1] * (1 + 1e-12)).all() and (s >= 0).all(), "descending", s=s,
                    strat=strat)
            for q in (u, v):
                t.close(q.T @ q, np.eye(s.size), "orthonormal columns", 0, 1e-10, strat=strat)
        k = min(m, n, 2)
        u, s, v = svd.compute(A, n_sv_hint=k, strategy='fast')
        t.check(s.size >= k, "at least the hinted number", k=k)
    t.raises(ValueError, lambda: svd.compute(np.eye(3), strategy='x'), "unknown strategy")


@case
def safe_eps(t):
    f = t.private(sve, '_safe_eps')
    for eps, wd, st in ((None, None, None), (1e-6, None, None), (1e-8, None, None),
                        (9.9e-9, None, None), (1e-12, None, None), (1e-6, float, None),
                        (1e-8, np.float64, None), (1e-12, np.float64, 'fast'), (None, float, None),
                        (1e-3, np.float32, None), (1e-6, None, 'accurate')):
        se, w, s = f(eps, wd, st)
        ext = (eps is None or eps < 1e-8) if wd is None else False
        ew = svd.MAX_DTYPE if ext else np.dtype(wd or float)
        t.check(np.dtype(w) == np.dtype(ew), "working type", eps=eps, wd=wd, got=w)
        ee = 1e-8 if np.dtype(ew) == np.float64 else np.sqrt(svd.finfo(ew).eps)
        t.close(float(se), float(ee), "safe accuracy", 1e-14, eps=eps, wd=wd)
        t.check(s == (st or 'fast'), "strategy", eps=eps, wd=wd, got=s)
    se, w, s = t.warns(lambda: f(1e-12, np.float64, None), "double precision below 1e-8 warns")
    t.check(s == 'accurate' and se == 1e-8, "accurate strategy then")
