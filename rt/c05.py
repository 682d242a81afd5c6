import numpy as np
from numpy.polynomial import legendre as npl
from harness import case, THOROUGH
from ref import mp_leg_nodes, mpm
from sparse_ir import _gauss

NS = list(range(1, 41)) + [50, 64, 65, 100, 101, 127, 200, 600, 1000] + ([300, 500, 2000] if THOROUGH else [])


@case
def nodes_and_weights(t):
    for n in NS:
        r = t.attempt(lambda: _gauss.legendre(n), "rule", n=n)
        if r is None:
            continue
        if n <= 65:
            xs, ws = mp_leg_nodes(n)
            x, w = np.array([float(q) for q in xs]), np.array([float(q) for q in ws])
        else:
            x, w = npl.leggauss(n)
        t.close(r.x, x, "nodes", 1e-13, 1e-14, n=n)
        t.close(r.w, w, "weights", max(4e-12 * max(1, n / 20), 3e-15 * n**2), 0, n=n)
        t.check((np.diff(r.x) > 0).all(), "ascending", n=n)
        t.check((r.w > 0).all(), "positive", n=n)
        t.check((np.abs(r.x) < 1).all(), "inside", n=n)
        t.close(r.x, -r.x[::-1], "symmetric nodes", 1e-14, 4e-16, n=n)
        t.close(r.w, r.w[::-1], "symmetric weights", max(4e-12 * max(1, n / 20), 3e-15 * n**2), 0, n=n)
        t.check(r.a == -1 and r.b == 1, "interval", n=n)
        t.close(r.x_forward, 1 + x, "forward", 1e-12, n=n)
        t.close(r.x_backward, 1 - x, "backward", 1e-12, n=n)


@case
def exactness(t):
    for n in NS:
        r = t.attempt(lambda: _gauss.legendre(n), "rule", n=n)
        if r is None:
            continue
        V = npl.legvander(r.x, 2 * n - 1)
        e = np.zeros(2 * n)
        e[0] = 2
        t.close(r.w @ V, e, "integrates Legendre polynomials below 2n", 0, 2e-14 * np.sqrt(n) * 2,
                n=n)
        if n < 60:
            P2n = npl.legval(r.x, np.r_[np.zeros(2 * n), 1])
            t.check(abs(r.w @ P2n) > 1e-3, "degree 2n is not integrated exactly", n=n)


@case
def dtypes(t):
    try:
        from xprec import ddouble
    except ImportError:
        ddouble = None
    m = mpm()
    for n in (1, 2, 3, 10, 16, 30):
        r = _gauss.legendre(n, np.float32)
        t.check(r.x.dtype == np.float32 and r.w.dtype == np.float32, "dtype", n=n)
        t.close(r.x, npl.leggauss(n)[0], "float32 nodes", 1e-5, 1e-6, n=n)
        r = _gauss.legendre(n, np.longdouble)
        t.check(r.x.dtype == np.longdouble, "dtype", n=n)
        if ddouble is not None:
            r = _gauss.legendre(n, ddouble)
            xs, ws = mp_leg_nodes(n)
            t.check(r.x.dtype == ddouble and r.w.dtype == ddouble, "dtype", n=n)
            with m.workdps(50):
                for k in range(n):
                    for got, e, nm in ((r.x[k], xs[k], 'node'), (r.w[k], ws[k], 'weight'),
                                       (r.x_forward[k], 1 + xs[k], 'forward'),
                                       (r.x_backward[k], 1 - xs[k], 'backward')):
                        hi = float(got)
                        lo = float(got - hi)
                        t.check(abs(m.mpf(hi) + m.mpf(lo) - e) < 1e-29, "extended precision " + nm,
                                n=n, k=k)


@case
def collocation(t):
    for n in list(range(1, 25)) + [40, 64]:
        r = t.attempt(lambda: _gauss.legendre(n), "rule", n=n)
        if r is None:
            continue
        C = _gauss.legendre_collocation(r)
        V = npl.legvander(r.x, n - 1)
        t.close(C @ V, np.eye(n), "collocation inverts evaluation", 0, 1e-12, n=n)
        t.close(V @ C, np.eye(n), "evaluation inverts collocation", 0, 1e-11, n=n)
        for k in {1, (n + 1) // 2, n}:
            C = _gauss.legendre_collocation(r, k)
            c = t.rng.randn(k)
            t.close(C @ npl.legval(r.x, c), c, "coefficients recovered", 1e-11, 1e-11, n=n, k=k)
        x0, w0 = r.x.copy(), r.w.copy()
        _gauss.legendre_collocation(r)
        t.check((r.x == x0).all() and (r.w == w0).all(), "rule unchanged", n=n)
    try:
        from xprec import ddouble
    except ImportError:
        return
    for n in (1, 2, 10, 16):
        r = _gauss.legendre(n, ddouble)
        C = _gauss.legendre_collocation(r)
        t.check(C.dtype == ddouble, "dtype", n=n)
        V = npl.legvander(r.x, n - 1)
        D = C @ V - np.eye(n)
        t.check(np.abs(D).astype(float).max() < 1e-28, "extended precision collocation", n=n,
                err=np.abs(D).astype(float).max())


@case
def general_recurrence(t):
    """other weights: probabilists' Chebyshev of the second kind on [-1, 1], shifted Legendre"""
    f = t.private(_gauss, 'rule_from_recurrence')
    for n in (2, 3, 5, 9):
        k = np.arange(n, dtype=float)
        alpha, beta = np.full(n, .5), k**2 / (4 * k**2 - 1) / 4
        beta[0] = 1
        r = t.attempt(lambda: f(alpha, beta, 0., 1.), "shifted Legendre", n=n)
        if r is None:
            continue
        x, w = npl.leggauss(n)
        t.close(r.x, (x + 1) / 2, "shifted nodes", 1e-13, n=n)
        t.close(r.w, w / 2, "shifted weights", 1e-12, n=n)
        t.check(r.a == 0 and r.b == 1, "interval")
        t.close(r.x_forward, (x + 1) / 2, "forward", 1e-13)


@case
def kronrod(t):
    k = _gauss.kronrod_31_15()
    V = npl.legvander(k.x, 46)
    e = np.zeros(47)
    e[0] = 2
    t.close(k.w @ V, e, "outer rule exact to degree 46", 0, 3e-15)
    xi = k.x[k.vsel]
    t.check(xi.size == 15 and k.v.size == 15, "inner rule size")
    V = npl.legvander(xi, 29)
    t.close(k.v @ V, e[:30], "inner rule exact to degree 29", 0, 3e-15)
    x, w = npl.leggauss(15)
    t.close(xi, x, "inner nodes are Gauss nodes", 1e-14, 1e-15)
    t.close(k.v, w, "inner weights", 1e-13)
    t.check((np.diff(k.x) > 0).all(), "ascending")
