import numpy as np
from harness import case, THOROUGH
from ref import ft_ref, random_poly, basis, sve
from sparse_ir import poly

FT = poly.PiecewiseLegendreFT
ODD = np.array([1, -1, 3, -3, 5, 7, -9, 11, 13, 15, 33, -101, 257, 1001, -4095, 65537])
EVEN = np.array([0, 2, -2, 4, -4, 6, 8, -10, 12, 14, 34, -100, 256, 1000, -4096, 65536])


@case
def random_polys(t):
    for P, nseg, extra in ((1, 1, ()), (3, 1, (2,)), (4, 5, (3,)), (2, 4, (2, 2)), (10, 6, (2,)),
                           (17, 2, ())):
        for trial in range(2):
            p, data, knots = random_poly(t.rng, P, nseg, extra)
            for freq, ns in (('odd', ODD), ('even', EVEN)):
                f = FT(p, freq)
                e = ft_ref(data, knots, ns)
                v = t.attempt(lambda: f(ns), "transform", freq=freq, P=P)
                if v is None:
                    continue
                t.close(v, e, "Fourier integral", 1e-12, 1e-14 * np.abs(data).max(), freq=freq,
                        P=P, nseg=nseg)
                t.equal(f(-ns), v.conj(), "negative frequency conjugate", freq=freq, P=P)
            f = FT(p, 'any')
            ns = np.r_[ODD, EVEN]
            t.close(f(ns), ft_ref(data, knots, ns), "both parities", 1e-12,
                    1e-14 * np.abs(data).max(), P=P)


@case
def special_knots(t):
    """midpoints at and around 0, 1/2 and the ends, very narrow segments"""
    grids = [[-1, 1], [-1, 0, 1], [-1, -.5, .5, 1], [-1, -1 + 1e-6, 0, 1 - 1e-6, 1],
             [-1, -1 + 1e-14, 1 - 1e-14, 1], [-1, -.75, -.25, .25, .75, 1], [-1, 1e-9, 1],
             [-1, -.9, 0., .1, 1], [-1, -1, 1], [-1, .2, .2, 1], [-1, 0, 1, 1]]
    for g in grids:
        knots = np.array(g, float)
        if (np.diff(knots) <= 0).any():
            continue
        data = t.rng.randn(4, len(g) - 1, 2)
        p = poly.PiecewiseLegendrePoly(data, knots)
        for freq, ns in (('odd', ODD), ('even', EVEN)):
            v = FT(p, freq)(ns)
            t.close(v, ft_ref(data, knots, ns), "Fourier integral", 1e-12, 3e-14, knots=knots,
                    freq=freq)


@case
def large_frequencies(t):
    p, data, knots = random_poly(t.rng, 5, 4, (2,))
    for n in (10**6 + 1, 2**27 + 1, 2**31 + 1, -2**33 - 1):
        t.close(FT(p, 'odd')(n), ft_ref(data, knots, np.array(n)), "large n", 1e-6, 1e-14, n=n)
        t.close(FT(p, 'even')(n + 1), ft_ref(data, knots, np.array(n + 1)), "large n", 1e-6, 1e-14,
                n=n + 1)


@case
def shapes(t):
    for extra in ((), (3,), (2, 2)):
        p, data, knots = random_poly(t.rng, 3, 2, extra)
        f = FT(p, 'odd')
        for arg in (1, -3, np.int64(5), np.array(7), 3., [1, 3, -5], np.array([[1, 3], [5, 7]]),
                    np.array([9]), np.zeros((0,), int), np.ones((2, 1, 3), int), (1, 5),
                    np.array([1., -3.]), np.array([[1], [3]], np.int32), np.arange(1, 13, 2)[::-1]):
            v = t.attempt(lambda: f(arg), "argument", arg=arg, extra=extra)
            if v is None:
                continue
            a = np.asarray(arg)
            t.check(np.shape(v) == extra + a.shape, "shape", arg=arg, extra=extra, got=np.shape(v))
            e = np.zeros(extra + a.shape, complex)
            for k in np.ndindex(*a.shape):
                e[(Ellipsis,) + k] = ft_ref(data, knots, np.array(int(a[k])))
            t.close(v, e, "values", 1e-12, 1e-13, arg=arg, extra=extra)
        t.check(f.shape == extra and f.size == int(np.prod(extra)) and f.ndim == len(extra), "shape")
        # argument order does not matter
        ns = np.array([5, -1, 3, 1, -7])
        v = f(ns)
        for k, n in enumerate(ns):
            t.close(v[..., k], f(int(n)), "single and batch agree", 1e-14, 1e-15, n=n)


@case
def rejected(t):
    p, _, _ = random_poly(t.rng, 3, 2, (2,))
    for n_asymp in (None, 10):
        o, e = FT(p, 'odd', n_asymp), FT(p, 'even', n_asymp)
        for bad in (0, 2, -4, [1, 2], np.array([[1, 3], [5, 6]]), 1.5, [1, 3.5], np.nan, 100):
            t.raises(ValueError, lambda: o(bad), "not an odd integer", n=bad)
        for bad in (1, -1, [0, 3], .5, [2, 4.25], np.nan, 2.0001, 101):
            t.raises(ValueError, lambda: e(bad), "not an even integer", n=bad)
    q, _, _ = random_poly(t.rng, 3, 2, (), 0., 1.)
    t.raises(NotImplementedError, lambda: FT(q, 'odd'), "only the unit interval")
    q, _, _ = random_poly(t.rng, 3, 2, (), -1., 2.)
    t.raises(NotImplementedError, lambda: FT(q, 'odd'), "only the unit interval")
    t.raises((KeyError, ValueError), lambda: FT(p, 'foo'), "unknown frequency kind")


@case
def tnl(t):
    f = t.private(poly, '_get_tnl')
    from ref import sph_jns, mpm
    w = np.r_[-30., -7.3, -1e-3, 0., 1e-8, .5, 2., 9.9, 25., 100.]
    for l in range(0, 12):
        got = f(np.array([l]), w) if True else None
        e = []
        for q in w:
            with mpm().workdps(30):
                j = sph_jns(l + 1, mpm().mpf(abs(float(q))))[l]
                e.append(2 * (1j if q >= 0 else -1j)**l * float(j))
        t.close(got, e, "Fourier integral of one Legendre polynomial", 1e-12, 1e-15, l=l)


@case
def imag_power(t):
    f = t.private(poly, '_imag_power')
    n = np.arange(-9, 10)
    t.equal(f(n), [[1, 1j, -1, -1j][k % 4] for k in n], "powers of i", n=n)
    t.equal(f(2**40 + 3), -1j, "large power")
    t.raises(ValueError, lambda: f(np.array([1.5])), "non-integer power")


@case
def basis_functions(t):
    for stat, beta, wmax, kind in (('F', 1., 10., 'logistic'), ('B', 1., 10., 'logistic'),
                                   ('F', 3., 14., 'logistic'), ('B', 21., 2., 'logistic'),
                                   ('B', 2., 5., 'bose')):
        b = basis(stat, beta, wmax, kind=kind)
        cut = 40 * beta * wmax
        ns = {'F': np.array([1, 3, 5, -1, -7, 21, 99, 301]),
              'B': np.array([0, 2, 4, -2, -8, 20, 98, 300])}[stat]
        ns = np.r_[ns, int(cut // 2) * 2 - (1 if stat == 'F' else 2)]
        u0 = b.sve_result.u
        e = np.sqrt(beta) * ft_ref(u0.data[:, :, :b.size], u0.knots, ns)
        v = b.uhat(ns)
        t.close(v, e, "Fourier integral of the basis functions", 1e-9, 2e-14 * np.sqrt(beta),
                stat=stat, beta=beta, kind=kind)
        # against plain quadrature of u(tau)
        x, w = np.polynomial.legendre.leggauss(24)
        kn = b.u.knots
        for n in ns[:5]:
            acc = 0
            for a, c in zip(kn[:-1], kn[1:]):
                tau = np.clip((a + c) / 2 + (c - a) / 2 * x, a, c)
                acc = acc + (b.u(tau) * np.exp(1j * np.pi * n * tau / beta) * w).sum(-1) * (c - a) / 2
            t.close(b.uhat(int(n)), acc, "quadrature over tau", 1e-9, 1e-12 * np.sqrt(beta), n=n,
                    stat=stat, beta=beta)
        for n in ns:
            t.close(b.uhat(-n), b.uhat(n).conj(), "conjugate", 1e-15, 1e-300, n=n)
        # definite parity
        even = np.arange(b.size) % 2 == 0
        for n in np.r_[ns, 2 * int(cut) + (1 if stat == 'F' else 0)]:
            v = b.uhat(int(n))
            z = v.imag if stat == 'B' else v.real
            y = v.real if stat == 'B' else v.imag
            t.close(z[even], 0 * z[even], "even functions: one part vanishes", 0,
                    1e-13 * np.sqrt(beta), n=n, stat=stat)
            t.close(y[~even], 0 * y[~even], "odd functions: other part vanishes", 0,
                    1e-13 * np.sqrt(beta), n=n, stat=stat)
        for bad in ((0, 2) if stat == 'F' else (1, -3)):
            t.raises(ValueError, lambda: b.uhat(bad), "wrong parity", n=bad, stat=stat)
        l = 3
        t.close(b.uhat[l](ns), b.uhat(ns)[l], "single function", 1e-12, 1e-14, l=l)
        t.check(b.uhat(ns.reshape(3, 3)).shape == (b.size, 3, 3), "matrix of frequencies")
        t.check(b.uhat(int(ns[0])).shape == (b.size,), "scalar frequency")
