from fractions import Fraction as F
from math import factorial, comb
import numpy as np
from harness import case, THOROUGH
from ref import ft_ref, monomials, basis, sve
from sparse_ir import poly

FT = poly.PiecewiseLegendreFT


def edge_derivs(data, knots):
    """all derivatives at both ends, (m, l) each, in double from exact rationals"""
    P, I, L = data.shape
    out = np.zeros((2, P, L))
    for e, (i, tt) in enumerate(((0, -1), (I - 1, 1))):
        h = F(float(knots[i + 1])) - F(float(knots[i]))
        for l in range(L):
            for m in range(P):
                s = F(0)
                for p in range(m, P):
                    s += F(float(data[p, i, l])) * sum(
                        c * F(factorial(j), factorial(j - m)) * F(tt)**(j - m)
                        for j, c in enumerate(monomials(p)) if j >= m)
                out[e, m, l] = float(s * (2 / h)**m) * np.sqrt(2 / float(h))
    return out


def series(data, knots, ns, nmom=None):
    """integration-by-parts series with end-point jumps"""
    d = edge_derivs(data, knots)
    P, I, L = data.shape
    out = np.zeros((L, len(ns)), np.clongdouble)
    for k, n in enumerate(ns):
        if n == 0:
            continue
        stat = -1 if n % 2 else 1
        om = 1j * np.pi * np.longdouble(n) / 2
        for m in range(P if nmom is None else min(nmom, P)):
            out[:, k] += (-1)**m * (stat * d[1, m] - d[0, m]) / om**(m + 1)
    return (out / np.sqrt(np.longdouble(2))).astype(complex)


def parity_polys(rng, P, half, L):
    """L functions of parity (-1)^l"""
    kp = np.r_[0., np.sort(rng.uniform(.05, .95, half - 1)), 1.]
    knots = np.r_[-kp[:0:-1], kp]
    sign = (-1.)**np.arange(L)
    dp = rng.randn(P, half, L)
    flip = (-1.)**np.arange(P)[:, None, None]
    data = np.concatenate([sign * flip * dp[:, ::-1], dp], axis=1)
    return poly.PiecewiseLegendrePoly(data, knots, symm=sign), data, knots


NS = {'odd': np.array([1, -1, 3, 5, -7, 101, -1001, 99999]),
      'even': np.array([0, 2, -2, 4, -8, 100, -1000, 100000])}


@case
def model_is_the_series(t):
    for P, half, L in ((1, 1, 1), (1, 2, 3), (2, 1, 2), (3, 2, 4), (5, 3, 5), (8, 1, 3), (10, 2, 6)):
        p, data, knots = parity_polys(t.rng, P, half, L)
        for freq in ('odd', 'even'):
            ns = NS[freq]
            f = t.attempt(lambda: FT(p, freq, 0), "construction", freq=freq, P=P)
            if f is None:
                continue
            v = t.attempt(lambda: f(ns), "model everywhere", freq=freq, P=P)
            e = series(data, knots, ns)
            if v is not None:
                for k in range(len(ns)):
                    t.close(v[:, k], e[:, k], "integration-by-parts series", 1e-9,
                            1e-11 * max(1e-30, np.abs(e[:, k]).max()), n=ns[k], P=P, freq=freq)
                    if ns[k] == 0:
                        t.equal(v[:, k], 0 * v[:, k], "zero frequency", freq=freq)
                t.equal(f(-ns), v.conj(), "conjugate")
            # every single function selected from the model
            for l in range(L):
                t.close(f[l](ns), e[l], "selected function", 1e-8, 1e-10 * max(np.abs(e).max(), 1e-30)
                        if P > 1 else 1e-13, l=l, freq=freq)
            for sel in (slice(1, None), slice(None, None, -1), [0, L - 1]):
                t.close(f[sel](ns), v[sel], "selection", 1e-14, 1e-300, sel=sel)


@case
def single_polynomial_is_exact(t):
    """without interior knots the series is the transform itself"""
    for P in (1, 2, 4, 6):
        data = t.rng.randn(P, 1, 4)
        for l in range(4):
            data[(l + 1) % 2::2, :, l] = 0
        knots = np.array([-1., 1.])
        p = poly.PiecewiseLegendrePoly(data, knots, symm=(-1.)**np.arange(4))
        for freq in ('odd', 'even'):
            ns = NS[freq][NS[freq] != 0]
            ns = ns[np.abs(ns) >= 5]
            v = FT(p, freq, 0)(ns)
            e = ft_ref(data, knots, ns)
            t.close(v, e, "model equals the Fourier integral", 1e-8, 1e-12, P=P, freq=freq)


@case
def cutoff_switch(t):
    p, data, knots = parity_polys(t.rng, 4, 2, 3)
    zero = t.private(poly, '_PowerModel')(np.zeros((2, 3)))
    for freq, z in (('odd', 1), ('even', 0)):
        for cut in (20, 21, 21.5, 20.0, 37, 7.0):
            f = FT(p, freq, cut, zero)
            n = np.arange(-60, 60)
            n = n[n % 2 == z]
            v, d = f(n), FT(p, freq)(n)
            outer = np.abs(n) >= cut
            t.equal(v[:, outer], 0 * v[:, outer], "model at and beyond the cutoff", cut=cut,
                    freq=freq)
            t.equal(v[:, ~outer], d[:, ~outer], "direct transform below", cut=cut, freq=freq)
            for q in n[np.abs(np.abs(n) - cut) < 3]:
                w = f(int(q))
                t.check(bool((w == 0).all()) == bool(abs(q) >= cut), "scalar argument", n=q, cut=cut)
            v2 = f(n.reshape(2, -1))
            t.equal(v2.reshape(3, -1), v, "matrix argument", cut=cut)
            g = f[1:]
            t.equal(g(n), v[1:], "cutoff kept by selection", cut=cut)
        f = FT(p, freq)
        t.equal(f(10**5 + z), FT(p, freq, np.inf, zero)(10**5 + z), "no model without cutoff")


@case
def any_order_of_parities(t):
    """functions of definite parity in any order, and single ones"""
    for P, half in ((2, 1), (4, 3), (7, 2)):
        p, data, knots = parity_polys(t.rng, P, half, 4)
        for sel in ([1], [0], [1, 0, 3], [2, 0], [3, 3, 1, 0], [0, 2, 1, 3]):
            q = poly.PiecewiseLegendrePoly(data[:, :, sel], knots, symm=(-1.)**np.array(sel))
            for freq in ('odd', 'even'):
                ns = NS[freq]
                v = t.attempt(lambda: FT(q, freq, 0)(ns), "model", freq=freq, sel=sel)
                e = series(data[:, :, sel], knots, ns)
                if v is not None:
                    t.close(v, e, "integration-by-parts series", 1e-8,
                            1e-10 * max(1e-30, np.abs(e).max(0).min()), sel=sel, freq=freq, P=P)
        for l in range(4):
            q = poly.PiecewiseLegendrePoly(data[:, :, l], knots, symm=(-1)**l)
            for freq in ('odd', 'even'):
                ns = NS[freq][1:]
                v = t.attempt(lambda: FT(q, freq, 3)(ns), "single function", freq=freq, l=l)
                w = FT(p, freq, 3)(ns)
                if v is not None:
                    t.close(v, w[l], "single function", 1e-8, 1e-10 * np.abs(w[l]).max(), l=l,
                            freq=freq)


@case
def number_of_moments(t):
    M = t.private(poly, '_PowerModel')
    for nm in (1, 2, 3, 7):
        mom = t.rng.randn(nm, 3)
        n = np.array([-9, -2, -1, 0, 1, 2, 5, 1000, 10**7])
        v = M(mom).giw(n)
        e = np.zeros((n.size, 3), complex)
        for k, q in enumerate(n):
            if q:
                om = 1j * np.pi * q / 2
                e[k] = sum(mom[m] / om**(m + 1) for m in range(nm))
        t.close(v, e, "finite sum of inverse powers", 1e-13, 1e-300, nmom=nm)
        v1 = M(mom[:, 0]).giw(n)
        t.close(v1, e[:, :1], "vector of moments", 1e-13, 1e-300)
        t.close(M(mom).giw(5), e[6], "scalar frequency", 1e-13, 1e-300)
        t.close(M(mom).giw(n.reshape(3, 3)), e.reshape(3, 3, 3), "matrix of frequencies", 1e-13,
                1e-300)
        t.close(M(mom)[1:].giw(n), e[:, 1:], "selection", 1e-13, 1e-300)
        t.close(M(mom)[2].giw(n), e[:, 2:], "selection", 1e-13, 1e-300)


@case
def basis_joins(t):
    """beyond the cutoff the basis transform is still the Fourier integral"""
    for stat, beta, wmax, kind in (('F', 1., 10., 'logistic'), ('B', 1., 10., 'logistic'),
                                   ('F', 3., 14., 'logistic'), ('B', 3., 14., 'bose'),
                                   ('B', 1., 1., 'logistic')):
        b = basis(stat, beta, wmax, kind=kind)
        z = 1 if stat == 'F' else 0
        c = int(40 * beta * wmax)
        c += (c + z) % 2
        ns = np.array([c - 2, c, c + 2, -c, 2 * c + z, 10 * c + z, 1000 * c + z])
        ns = ns - (ns % 2 != z)
        u0 = b.sve_result.u
        e = np.sqrt(beta) * ft_ref(u0.data[:, :, :b.size], u0.knots, ns)
        v = b.uhat(ns)
        sc = np.abs(e).max(0)
        for k, n in enumerate(ns):
            lead = np.abs(e[:, k]) > 1e-3 * sc[k]
            t.close(v[lead, k], e[lead, k], "asymptotic value", 3e-6, 0, n=n, stat=stat, kind=kind)
            t.close(v[:, k], e[:, k], "asymptotic value", 1e-5, 1e-6 * sc[k], n=n, stat=stat)
        # leading order: -(u(0) -+ u(beta)) / (i w)
        n = 1000001 if stat == 'F' else 1000000
        sg = 1 if stat == 'B' else -1
        lead = (sg * b.u(beta) - b.u(0.)) / (1j * np.pi * n / beta)
        t.close(b.uhat(n), lead, "leading order", 1e-2, 2e-3 * np.abs(lead).max(), stat=stat)
