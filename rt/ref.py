"""Independent references (not using the code under test except to build it)."""
import functools
from fractions import Fraction as F
from math import comb
import numpy as np
import sparse_ir
from numpy.polynomial import legendre as npl


@functools.lru_cache(None)
def sve(lam, kind='logistic', eps=None):
    from sparse_ir import kernel, sve as sve_
    K = {'logistic': kernel.LogisticKernel, 'bose': kernel.RegularizedBoseKernel}[kind](lam)
    return sve_.compute(K, eps) if eps is not None else sve_.compute(K)


@functools.lru_cache(None)
def basis(stat, beta, wmax, eps=1e-6, kind='logistic'):
    from sparse_ir import kernel
    K = {'logistic': kernel.LogisticKernel, 'bose': kernel.RegularizedBoseKernel}[kind](beta * wmax)
    return sparse_ir.FiniteTempBasis(stat, beta, wmax, eps, kernel=K,
                                     sve_result=sve(beta * wmax, kind, eps))


def pw_eval(data, knots, x):
    """piecewise Legendre value by explicit segment search (x 1-d) -> (..., nx)"""
    data, knots = np.asarray(data, float), np.asarray(knots, float)
    out = np.zeros(data.shape[2:] + (len(x),))
    n = len(knots) - 1
    for k, xx in enumerate(x):
        i = n - 1
        for j in range(n):
            if knots[j] <= xx < knots[j + 1]:
                i = j
                break
        a, b = knots[i], knots[i + 1]
        t = (2 * xx - a - b) / (b - a)
        p = npl.legvander(np.array([t]), data.shape[0] - 1)[0]
        out[..., k] = np.tensordot(p, data[:, i], (0, 0)) * np.sqrt(2 / (b - a))
    return out


def random_poly(rng, P=4, nseg=5, extra=(3,), lo=-1., hi=1., cls=None, symm=None):
    from sparse_ir import poly
    knots = np.sort(np.r_[lo, hi, lo + (hi - lo) * rng.rand(nseg - 1)])
    data = rng.randn(P, nseg, *extra)
    return (cls or poly.PiecewiseLegendrePoly)(data, knots, symm=symm), data, knots


def mpm():
    """mpmath (pure Python, from the tool venv)"""
    import sys
    p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if p not in sys.path:
        sys.path.append(p)
    import mpmath
    return mpmath


def mp_logistic(lam, x, y, xp=None, xm=None):
    m = mpm()
    with m.workdps(60):
        lam, x, y = m.mpf(float(lam)), m.mpf(float(x)), m.mpf(float(y))
        up = (m.mpf(xp) if xp is not None else 1 + x) / 2
        um = (m.mpf(xm) if xm is not None else 1 - x) / 2
        v = lam * y
        return m.exp(-up * v) / (1 + m.exp(-v)) if v >= 0 else m.exp(um * v) / (1 + m.exp(v))


def mp_bose(lam, x, y, xp=None, xm=None):
    m = mpm()
    with m.workdps(60):
        lam, x, y = m.mpf(float(lam)), m.mpf(float(x)), m.mpf(float(y))
        up = (m.mpf(xp) if xp is not None else 1 + x) / 2
        um = (m.mpf(xm) if xm is not None else 1 - x) / 2
        v = lam * y
        if y == 0:
            return 1 / lam
        if v > 0:
            return -y * m.exp(-up * v) / m.expm1(-v)
        return y * m.exp(um * v) / m.expm1(v)


def mp_logistic_odd(lam, x, y):
    m = mpm()
    with m.workdps(60):
        h = m.mpf(float(lam)) * m.mpf(float(y)) / 2
        return -m.sinh(h * m.mpf(float(x))) / m.cosh(h)


def mp_bose_odd(lam, x, y):
    m = mpm()
    with m.workdps(60):
        if y == 0:
            return m.mpf(0)
        h = m.mpf(float(lam)) * m.mpf(float(y)) / 2
        return -m.mpf(float(y)) * m.sinh(h * m.mpf(float(x))) / m.sinh(h)


def mp_logistic_even(lam, x, y):
    m = mpm()
    with m.workdps(60):
        h = m.mpf(float(lam)) * m.mpf(float(y)) / 2
        return m.cosh(h * m.mpf(float(x))) / m.cosh(h)


def mp_bose_even(lam, x, y):
    m = mpm()
    with m.workdps(60):
        if y == 0:
            return 2 / m.mpf(float(lam))
        h = m.mpf(float(lam)) * m.mpf(float(y)) / 2
        return m.mpf(float(y)) * m.cosh(h * m.mpf(float(x))) / m.sinh(h)


def mp_leg_nodes(n):
    """Gauss-Legendre nodes and weights to 50 digits"""
    m = mpm()
    with m.workdps(50):
        xs, ws = [], []
        x0, _ = npl.leggauss(n)
        for x in x0:
            x = m.mpf(float(x))
            for _ in range(4):
                p0, p1 = m.mpf(1), x
                for k in range(2, n + 1):
                    p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
                dp = n * (x * p1 - p0) / (x * x - 1) if n > 1 else m.mpf(1)
                x = x - p1 / dp
            p0, p1 = m.mpf(1), x
            for k in range(2, n + 1):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            dp = n * (x * p1 - p0) / (x * x - 1) if n > 1 else m.mpf(1)
            xs.append(x)
            ws.append(2 / ((1 - x * x) * dp * dp))
        return xs, ws


def sph_jn(l, z):
    """spherical Bessel function, mpmath"""
    m = mpm()
    z = m.mpf(z)
    if z == 0:
        return m.mpf(1 if l == 0 else 0)
    return m.sqrt(m.pi / (2 * z)) * m.besselj(l + m.mpf(1) / 2, z)


def ft_matrix(P, knots, n, dps=30):
    """t[p, i] with (1/sqrt 2) * int exp(i pi n (x+1)/2) f(x) dx = sum t[p,i] data[p,i]"""
    m = mpm()
    I = len(knots) - 1
    out = np.zeros((P, I), np.clongdouble)
    with m.workdps(dps):
        om = m.pi * int(n) / 2
        ph = [m.mpc(0, 1 if n >= 0 else -1)**p for p in range(P)]
        for i in range(I):
            a, b = m.mpf(float(knots[i])), m.mpf(float(knots[i + 1]))
            h, mid = (b - a) / 2, (a + b) / 2
            if h == 0:
                continue
            e = m.sqrt(2 * h) * m.expj(om * (mid + 1))
            js = sph_jns(P, abs(om) * h)
            for p in range(P):
                z = ph[p] * js[p] * e
                out[p, i] = np.longdouble(float(z.real)) + 1j * np.longdouble(float(z.imag))
    return out


def sph_jns(P, z):
    """j_0 .. j_{P-1} at z >= 0 in the current mpmath precision"""
    m = mpm()
    if z == 0:
        return [m.mpf(1)] + [m.mpf(0)] * (P - 1)
    if z > P + 5:                   # upward recurrence is stable
        r = [m.sin(z) / z]
        if P > 1:
            r.append(m.sin(z) / z**2 - m.cos(z) / z)
        for l in range(2, P):
            r.append((2 * l - 1) / z * r[-1] - r[-2])
        return r
    N = P + 40                      # Miller
    f = [m.mpf(0)] * (N + 2)
    f[N] = m.mpf(10)**-60
    for l in range(N, 0, -1):
        f[l - 1] = (2 * l + 1) / z * f[l] - f[l + 1]
    if z < 1 or abs(m.sin(z)) > m.mpf(1) / 4:
        c = (m.sin(z) / z) / f[0]
    else:
        c = (m.sin(z) / z**2 - m.cos(z) / z) / f[1]
    return [c * q for q in f[:P]]


def ft_ref(data, knots, n, dps=30):
    """(1/sqrt 2) * int_-1^1 exp(i pi n (x+1)/2) p(x) dx; data (P, I, ...)"""
    data = np.asarray(data, float)
    n = np.asarray(n)
    out = np.zeros(data.shape[2:] + n.shape, complex)
    for k in np.ndindex(*n.shape):
        t = ft_matrix(data.shape[0], knots, int(n[k]), dps)
        out[(Ellipsis,) + k] = np.tensordot(t, data.astype(np.longdouble), ((0, 1), (0, 1)))
    return out


def monomials(p):
    c = [F(0)] * (p + 1)
    for k in range(p // 2 + 1):
        c[p - 2 * k] = F((-1)**k * comb(p, k) * comb(2 * p - 2 * k, p), 2**p)
    return c
