import numpy as np
from numpy.polynomial import legendre as npl
from harness import case, THOROUGH
from ref import sve, pw_eval, ft_ref
from sparse_ir import adapter, poly

LAMS = [(10., None), (42., None), (.7, 1e-6), (300., 1e-6)] + ([(1e3, None), (1e4, 1e-6)]
                                                              if THOROUGH else [])
KIND = {'F': 'logistic', 'B': 'bose'}


def cases():
    for lam, eps in LAMS:
        for stat in 'FB':
            r = sve(lam, KIND[stat], eps)
            yield adapter.Basis(stat, lam, r), r, stat, dict(stat=stat, lam=lam)


@case
def singular_values(t):
    for b, r, stat, c in cases():
        n = int((r.s >= r.eps * r.s[0]).sum())
        t.check(b.dim() == n, "dimension", got=b.dim(), expected=n, **c)
        t.equal(b.sl(), r.s[:n], "all values", **c)
        for l in (0, 1, n - 1, -1):
            t.check(b.sl(l) == r.s[:n][l], "single value", l=l, **c)
        t.equal(b.sl(slice(2, 5)), r.s[2:5], "slice", **c)
        t.check(b.Lambda == c['lam'] and b.statistics == stat, "parameters", **c)


@case
def functions(t):
    for b, r, stat, c in cases():
        n = b.dim()
        for nm, get, p in (('u', b.ulx, r.u), ('v', b.vly, r.v)):
            x = np.r_[-1., 1., 0., p.knots[2], .3, -.71, .999999, -1 + 1e-9, 1e-5]
            e = pw_eval(p.data[:, :, :n], p.knots, x)
            sc = np.abs(e).max()
            g = t.attempt(lambda: get(None, x), "all functions", **c)
            if g is not None:
                t.close(g, e, nm + " for all indices", 1e-10, 1e-12 * sc, **c)
            for l in (0, 1, 2, n // 2, n - 1):
                t.close(get(l, x), e[l], nm + " at many points", 1e-10, 1e-12 * sc, l=l, **c)
                for k in (0, 1, 2, 4):
                    q = get(l, x[k])
                    t.check(np.ndim(q) == 0, "scalar", l=l, **c)
                    t.close(q, e[l, k], nm + " at one point", 1e-10, 1e-12 * sc, l=l, k=k, **c)
                t.close(get(l, x[:6].reshape(2, 3)), e[l, :6].reshape(2, 3), "array", 1e-10,
                        1e-12 * sc, l=l, **c)
                t.close(get(l, x.tolist()), e[l], "list", 1e-10, 1e-12 * sc, l=l, **c)
            l = np.array([3, 0, 1])
            t.close(get(l, x[:3]), e[l, np.arange(3)], "elementwise", 1e-10, 1e-12 * sc, **c)
            t.close(get(l[:, None], x), e[l], "broadcast", 1e-10, 1e-12 * sc, **c)
            for bad in (1.0001, -1.1, np.nan, [0., 2.]):
                t.raises(ValueError, lambda: get(0, bad), "outside", bad=bad, **c)


@case
def derivatives(t):
    for b, r, stat, c in cases():
        n = b.dim()
        for nm, get, p in (('u', b.d_ulx, r.u), ('v', b.d_vly, r.v)):
            d = p.data[:, :, :n]
            kn = p.knots
            x = np.array([-.83, -.2, .31, .99, .004])
            for order in (1, 2, 3):
                e = np.empty((n, x.size))
                for k, xx in enumerate(x):
                    i = np.searchsorted(kn, xx, 'right') - 1
                    h = kn[i + 1] - kn[i]
                    q = npl.legder(d[:, i], order)
                    e[:, k] = npl.legval(2 * (xx - kn[i]) / h - 1, q) * (2 / h)**order * (2 / h)**.5
                sc = np.abs(e).max()
                for l in (0, 1, n // 2, n - 1):
                    t.close(get(l, x, order), e[l], "derivative of " + nm, 1e-9, 1e-11 * sc, l=l,
                            order=order, **c)
                    t.close(get(l, x[1], order), e[l, 1], "derivative at one point", 1e-9,
                            1e-11 * sc, l=l, order=order, **c)
                g = t.attempt(lambda: get(None, x, order), "all derivatives", **c)
                if g is not None:
                    t.close(g, e, "all derivatives of " + nm, 1e-9, 1e-11 * sc, order=order, **c)


@case
def transforms(t):
    for b, r, stat, c in cases():
        L = b.dim()
        z = int(stat == 'F')
        lim = int(15 * c['lam'])
        n = np.unique(np.r_[-lim, -7, -1, 0, 1, 2, 12, lim // 2, lim])
        # integral over [-1, 1] of u exp(i pi (n + z/2)(x+1)) / sqrt(2)
        xw, ww = npl.leggauss(80)
        acc = 0
        nn = n[np.abs(n) <= 30]
        for a, q in zip(r.u.knots[:-1], r.u.knots[1:]):
            x = (a + q) / 2 + (q - a) / 2 * xw
            u = pw_eval(r.u.data[:, :, :L], r.u.knots, x)
            ph = np.exp(1j * np.pi * (nn[:, None] + z / 2) * (x + 1))
            acc = acc + (u[:, None, :] * ph * ww).sum(-1) * (q - a) / 2
        acc = acc / np.sqrt(2)
        g = t.attempt(lambda: b.compute_unl(nn), "transform", **c)
        if g is None:
            continue
        t.close(g, acc.T, "all transforms", 1e-9, 1e-12, **c)
        for l in (0, 1, L // 2, L - 1):
            t.close(b.compute_unl(nn, l), acc[l], "one function", 1e-9, 1e-12, l=l, **c)
            t.close(b.compute_unl(int(nn[0]), l), acc[l, 0], "one function, one frequency", 1e-9,
                    1e-12, l=l, **c)
        t.close(b.compute_unl(int(nn[1])), acc[:, 1], "one frequency", 1e-9, 1e-12, **c)
        t.close(b.compute_unl(nn.tolist()), acc.T, "list", 1e-9, 1e-12, **c)
        t.close(b.compute_unl(nn, slice(0, 3)), acc[:3].T, "selection", 1e-9, 1e-12, **c)
        # symmetric and smooth into the tail
        far = np.array([10**3, 10**5, 10**7]) * max(1, int(c['lam']))
        a, q = b.compute_unl(far), b.compute_unl(-far - z)
        t.close(q, a.conj(), "conjugate frequency", 1e-12, 1e-18, **c)
        u1 = pw_eval(r.u.data[:, :, :L], r.u.knots, np.array([-1., 1.]))
        jump = ((-1)**z * u1[:, 1] - u1[:, 0])
        lead = jump[None] / (1j * np.pi * (far[:, None] + z / 2)) / np.sqrt(2)
        big = np.abs(jump) > 1e-6 * np.abs(u1).max()
        t.close(a[:, big] / lead[:, big], np.ones((3, big.sum())), "leading tail", 0, .2, **c)


@case
def sections(t):
    for b, r, stat, c in cases():
        t.equal(b.section_edges_x, r.u.knots, "edges", **c)
        t.equal(b.section_edges_y, r.v.knots, "edges", **c)
        t.check(b.num_sections_x() == r.u.knots.size - 1, "number", **c)
        t.check(b.num_sections_y() == r.v.knots.size - 1, "number", **c)


def alternates(t, x, roots_of, msg, **c):
    """exactly one point in each interval of constant sign"""
    t.check((np.diff(x) > 0).all(), msg + ": sorted", x=x, **c)
    t.check((np.abs(x) < 1).all(), msg + ": inside", x=x, **c)
    s = np.sign(roots_of(x))
    t.check((s[1:] * s[:-1] < 0).all(), msg + ": one point per interval of constant sign", s=s, **c)


def zeros(f, x):
    """zeros between neighbouring points, by bisection"""
    a, b = x[:-1].copy(), x[1:].copy()
    sa = np.sign(f(a))
    for _ in range(60):
        m = (a + b) / 2
        up = np.sign(f(m)) == sa
        a, b = np.where(up, m, a), np.where(up, b, m)
    return (a + b) / 2


@case
def search(t):
    """the generic searches, on functions with known roots and extrema"""
    find = getattr(adapter, '_find_roots', None)
    if find is not None:
        for name, f, e in (('close to the ends', lambda x: (x - .9999999) * (x + .99999) * x,
                            [-.99999, 0, .9999999]),
                           ('cosine', lambda x: np.cos(7.1 * x), (np.r_[-2:2] + .5) * np.pi / 7.1),
                           ('first cell', lambda x: (1 + x) - 2e-13, [-1 + 2e-13]),
                           ('last cell', lambda x: (1 - x) - 2e-13, [1 - 2e-13]),
                           ('none', lambda x: x**2 + 1, [])):
            e = np.asarray(e, float)
            g = np.asarray(find(f))
            t.check(g.shape == e.shape, "number of roots", got=g, name=name)
            if g.shape == e.shape:
                t.close(g, e, "roots", 0, 1e-13, name=name)
    ext = getattr(adapter, '_sampling_points', None)
    if ext is not None:
        for k in range(40):
            y = t.rng.normal(size=t.rng.randint(1, 30))
            if k % 2:
                y = -np.abs(y)
            if k % 5 == 0:
                y[0] = 0
            cut = [0] + [i + 1 for i in range(y.size - 1) if y[i] * y[i + 1] < 0] + [y.size]
            e = [a + int(np.abs(y[a:b]).argmax()) for a, b in zip(cut[:-1], cut[1:])]
            t.equal(ext(y), e, "extrema", y=y)


@case
def real_sampling_points(t):
    for b, r, stat, c in list(cases())[:4]:
        L = b.dim()
        first = c['lam'] == 10
        for l in (0, 1, 2, 5, L - 1) if THOROUGH else (0, 5) if first else (2,):
            x = t.attempt(lambda: adapter.sampling_points_x(b, l), "x", l=l, **c)
            if x is not None:
                t.check(x.size == l + 1, "number of points", got=x.size, l=l, **c)
                alternates(t, x, lambda q: b.ulx(l, q), "x", l=l, **c)
                if x.size == l + 1:
                    r0 = zeros(lambda q: b.ulx(l, q), x)
                    t.close(x, (np.r_[-1, r0] + np.r_[r0, 1]) / 2, "between the roots", 0, 1e-9,
                            l=l, **c)
        for l in (0, 1, 2, 3, 6) if THOROUGH else (0, 3) if first else (6,):
            y = t.attempt(lambda: b.sampling_points_y(l), "y", l=l, **c)
            if y is not None:
                t.check(y.size == l + 1, "number of points", got=y.size, l=l, **c)
                alternates(t, y, lambda q: b.vly(l, q), "y", l=l, **c)
                if y.size == l + 1:
                    r0 = zeros(lambda q: b.vly(l, q), y)
                    t.close(y, (np.r_[-1, r0] + np.r_[r0, 1]) / 2, "between the roots", 0, 1e-9,
                            l=l, **c)
                t.close(y, -y[::-1], "symmetric", 0, 1e-10, l=l, **c)


@case
def frequency_sampling_points(t):
    for b, r, stat, c in cases():
        z = int(stat == 'F')
        for l in sorted({0, 1, 2, 5, 6, b.dim() - 2, b.dim() - 1} if THOROUGH else
                        {0, 5, b.dim() - 2, b.dim() - 1}):
            if l >= b.dim():
                continue
            n = t.attempt(lambda: b.sampling_points_matsubara(l), "frequencies", l=l, **c)
            if n is None:
                continue
            t.check((np.diff(n) > 0).all(), "sorted", n=n, l=l, **c)
            t.equal(n, -n[::-1] - z, "symmetric", l=l, **c)
            if stat == 'B':
                t.check((n == 0).any(), "zero included", n=n, l=l, **c)
            f = np.atleast_1d(b.compute_unl(n, l))
            f = f.imag if (l + z) % 2 else f.real
            p = n[n >= (0 if z else 1)]
            near = p[(p < 998) & (p > 0)]
            if near.size:
                def part(k):
                    v = np.ravel(b.compute_unl(k, l))
                    return v.imag if (l + z) % 2 else v.real
                v = part(near)
                for o in (-1, 1):
                    w = part(near + o)
                    t.check(((np.abs(v) >= np.abs(w) * (1 - 1e-9)) | (v * w <= 0)
                             | (near + o == 0) & (z == 0)).all(), "extrema", n=near, l=l, **c)
        t.raises(RuntimeError, lambda: b.sampling_points_matsubara(b.dim()), "no such function", **c)


@case
def against_irbasis(t):
    try:
        import irbasis
    except ImportError:
        return
    for stat in 'FB':
        q = irbasis.load(stat, 10)
        b = adapter.Basis(stat, 10, sve(10., KIND[stat]))
        n = min(q.dim(), b.dim(), 12)
        x = np.array([-1., -.99, -.4, 0., .123, .5, 1.])
        for l in range(n):
            tol = 1e-10 * q.sl(0) / q.sl(l)
            t.close(b.sl(l), q.sl(l), "values", 1e-9 + tol, l=l, stat=stat)
            t.close(b.ulx(l, x), q.ulx(l, x), "u", 0, 10 * tol, l=l, stat=stat)
            t.close(b.vly(l, x), q.vly(l, x), "v", 0, 10 * tol, l=l, stat=stat)
            t.close(b.d_ulx(l, .3, 1), q.d_ulx(l, .3, 1), "derivative", 1e-6, 1e4 * tol, l=l,
                    stat=stat)
            k = np.array([-20, -3, -1, 0, 1, 2, 15])
            t.close(b.compute_unl(k, l), q.compute_unl(k, l).ravel(), "transform", 0, 10 * tol,
                    l=l, stat=stat)


@case
def loading(t):
    b = t.attempt(lambda: adapter.load('F', 10.), "load")
    r = sve(10.)
    t.close(b.sl()[:9], r.s[:9], "values", 1e-12)
    b = adapter.load('B', 3)
    t.check(b.statistics == 'B' and b.Lambda == 3, "parameters")
    r = sve(3., 'bose')
    t.close(b.sl()[:9], r.s[:9], "values", 1e-12)
    for stat in ('X', 'f', None):
        t.raises((KeyError, ValueError), lambda: adapter.load(stat, 10.), "statistics", stat=stat)
