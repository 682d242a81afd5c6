from fractions import Fraction as F
from math import comb, factorial
import copy
import numpy as np
from harness import case, THOROUGH
from ref import monomials, pw_eval, random_poly, sve
from sparse_ir import poly

PL = poly.PiecewiseLegendrePoly


def exact_deriv(data, knots, i, l, x, n):
    """n-th derivative of segment i at x, rational except for the square root"""
    a, b = F(float(knots[i])), F(float(knots[i + 1]))
    h = b - a
    t = (2 * F(float(x)) - a - b) / h
    s = F(0)
    for p in range(data.shape[0]):
        m = monomials(p)
        s += F(float(data[(p, i) + l])) * sum(
            (c * F(factorial(j), factorial(j - n)) * t**(j - n)) for j, c in enumerate(m) if j >= n)
    return float(s * (2 / h)**n) * np.sqrt(2 / float(h))


@case
def derivative_values(t):
    for P, nseg, extra in ((1, 1, ()), (2, 3, (2,)), (4, 5, (3,)), (7, 2, ()), (6, 3, (2, 2)),
                           (12, 4, (2,))):
        p, data, knots = random_poly(t.rng, P, nseg, extra)
        x, seg = [], []
        for i in range(nseg):
            for f in (.03, .5, .77):
                x.append(knots[i] + f * (knots[i + 1] - knots[i]))
                seg.append(i)
        x = np.array(x)
        for n in range(0, P + 3):
            d = t.attempt(lambda: p.deriv(n), "derivative", n=n, P=P)
            if d is None:
                continue
            v = t.attempt(lambda: d(x), "evaluating the derivative", n=n, P=P)
            if v is None:
                continue
            e = np.zeros(extra + (x.size,))
            for l in np.ndindex(*extra):
                for k in range(x.size):
                    e[l + (k,)] = exact_deriv(data, knots, seg[k], l, x[k], n)
            sc = np.abs(e).max()
            t.close(v, e, "n-th derivative", 1e-9, 1e-9 * sc, n=n, P=P, extra=extra)
            t.equal(d.knots, p.knots, "knots kept", n=n)
            t.check(type(d) is type(p), "class", n=n)
            t.check(d.shape == p.shape and d.size == p.size and d.ndim == p.ndim, "shape", n=n)
            t.check((d.xmin, d.xmax) == (p.xmin, p.xmax), "interval", n=n)
        d1 = p.deriv()
        t.equal(d1(x), p.deriv(1)(x), "default order is one")
        q = p
        for n in range(1, P + 1):
            q = q.deriv()
            t.close(q(x), p.deriv(n)(x), "repeated = higher order", 1e-8,
                    1e-9 * max(1, np.abs(q(x)).max()), n=n)


@case
def parity(t):
    symm = np.array([1, -1, 1, 0])
    p, data, knots = random_poly(t.rng, 5, 4, (4,), symm=symm)
    for n in range(6):
        t.equal(p.deriv(n).symm, (-1)**n * symm, "parity of the derivative", n=n)
        t.equal(p.deriv(n)[1].symm, (-1)**n * symm[1], "parity of a selected derivative", n=n)
        t.equal(p[1:3].deriv(n).symm, (-1)**n * symm[1:3], "parity, selected first", n=n)
    t.equal(p.symm, symm, "original parity unchanged")
    q, _, _ = random_poly(t.rng, 3, 2, (2, 3))
    t.check(q.symm.shape == (2, 3) and (q.symm == 0).all(), "default parity: none")


SELS = [0, 3, -1, -4, np.int64(2), slice(None), slice(1, 3), slice(None, 2), slice(None, None, 2),
        slice(None, None, -1), slice(-2, None), slice(3, 0, -2), slice(0, 0), [0, 2], [3, 1, 1],
        [-1, 0], np.array([2, 0]), np.array([True, False, True, True]),
        np.array([False] * 4), (1,), (slice(1, None),), (Ellipsis,), ([0, 3],), (np.array([1, 2]),)]
SELS2 = [0, -1, (0, 1), (1, slice(None)), (slice(None), 2), (slice(None), -1), (0, slice(1, 3)),
         slice(0, 1), [1, 0], (slice(None), [0, 2]), ([0, 1], [2, 0]), (Ellipsis, 1),
         (0, Ellipsis), np.array([True, False]), (slice(None, None, -1), slice(None, None, 2)),
         (-1, -1), (slice(None), slice(None)), (slice(None), np.array([True, False, True]))]


def scan(t, p, data, knots, symm, sels):
    x = np.sort(np.r_[t.rng.uniform(-1, 1, 9), knots])
    full = pw_eval(data, knots, x)
    before = (p.data.copy(), p.knots.copy(), p.symm.copy(), p.dx.copy())
    for s in sels:
        q = t.attempt(lambda: p[s], "selection", s=s)
        if q is None:
            continue
        # reference by explicit selection along the function axes
        idx = np.arange(int(np.prod(data.shape[2:]))).reshape(data.shape[2:])[s]
        flat = full.reshape(-1, x.size)
        e = flat[np.asarray(idx).ravel()].reshape(np.shape(idx) + (x.size,))
        t.close(q(x), e, "selected functions", 1e-12, 1e-12, s=s)
        t.equal(q.symm, symm[s], "selected parity", s=s)
        t.check(q.shape == np.shape(idx), "shape", s=s, got=q.shape)
        t.check(q.size == np.size(idx) and q.ndim == np.ndim(idx), "size", s=s)
        t.check(type(q) is type(p), "class", s=s)
        for n in (1, 2):
            a, b = p.deriv(n)[s], p[s].deriv(n)
            t.equal(a(x), b(x), "selection commutes with differentiation", s=s, n=n)
            t.equal(a.symm, b.symm, "parity commutes", s=s, n=n)
        xs = float(x[3])
        t.close(q(xs), e[..., 3], "scalar argument", 1e-12, 1e-12, s=s)
    for a, b, nm in zip(before, (p.data, p.knots, p.symm, p.dx), ('data', 'knots', 'symm', 'dx')):
        t.equal(b, a, "original unchanged: " + nm)


@case
def selection_vector(t):
    symm = np.array([1, -1, 0, 1])
    p, data, knots = random_poly(t.rng, 4, 5, (4,), symm=symm)
    scan(t, p, data, knots, symm, SELS)


@case
def selection_matrix(t):
    symm = np.array([[1, -1, 0], [-1, 1, 1]])
    p, data, knots = random_poly(t.rng, 3, 4, (2, 3), symm=symm)
    scan(t, p, data, knots, symm, SELS2)


@case
def selection_out_of_range(t):
    p, data, knots = random_poly(t.rng, 3, 2, (3,))
    for s in (3, -4, [0, 3], np.array([True, False]), (0, 0)):
        t.raises(IndexError, lambda: p[s], "bad index", s=s)


@case
def chains(t):
    """chains of selection and differentiation against the same chain on values"""
    for trial in range(30 if not THOROUGH else 300):
        symm = t.rng.choice([1, -1], 6)
        p, data, knots = random_poly(t.rng, 6, 3, (6,), symm=symm)
        x = np.array([k0 + f * (k1 - k0) for k0, k1 in zip(knots, knots[1:]) for f in (.2, .7)])
        q, idx, n = p, np.arange(6), 0
        for _ in range(4):
            op = t.rng.randint(4)
            if op == 0 and n < 4:
                q, n = q.deriv(), n + 1
            elif op == 1 and idx.size:
                sel = t.rng.randint(0, idx.size, 1 + t.rng.randint(4))
                q, idx = q[sel], idx[sel]
            elif op == 2 and idx.size:
                sl = slice(None, None, -1) if t.rng.rand() < .5 else slice(None, idx.size - 1 or 1)
                q, idx = q[sl], idx[sl]
            elif op == 3 and idx.size:
                m = t.rng.rand(idx.size) < .7
                q, idx = q[m], idx[m]
        e = p.deriv(n)(x)[idx]
        t.close(q(x), e, "chain of operations", 1e-9, 1e-9 * max(1, np.abs(e).max() if e.size else
                                                                1), n=n, idx=idx)
        t.equal(q.symm, (-1)**n * symm[idx], "parity of the chain", n=n, idx=idx)


@case
def fourier_commutes(t):
    for freq, ns in (('odd', np.array([-7, -1, 1, 3, 101, 399, 401, 5001])),
                     ('even', np.array([-8, 0, 2, 4, 100, 400, 402, 5000]))):
        for symm in (np.array([1, -1, 1, -1]),):
            base, data, knots = random_poly(t.rng, 4, 3, (4,), symm=symm)
            for n_asymp in (None, 400):
                ft = poly.PiecewiseLegendreFT(base, freq, n_asymp)
                full = ft(ns)
                for s in SELS:
                    if n_asymp and isinstance(s, tuple) and not isinstance(s[0], int):
                        continue
                    q = t.attempt(lambda: ft[s], "selection of the transform", s=s, freq=freq)
                    if q is None:
                        continue
                    idx = np.arange(4)[s]
                    if np.size(idx) == 0:
                        continue
                    # the moments of a vector of functions depend on position, so select first
                    v = t.attempt(lambda: q(ns), "transform of a selection", s=s, n_asymp=n_asymp)
                    if v is None:
                        continue
                    e = full[np.asarray(idx).ravel()].reshape(np.shape(idx) + ns.shape)
                    t.close(v, e, "selection commutes with the transform", 1e-12, 1e-14, s=s,
                            freq=freq, n_asymp=n_asymp)
                    t.check(q.shape == np.shape(idx), "shape", s=s)
                    t.check(q.freq == freq and q.zeta == ft.zeta and q.n_asymp == ft.n_asymp,
                            "settings kept", s=s)
                    if n_asymp is None:
                        r = poly.PiecewiseLegendreFT(base[s], freq)
                        t.close(r(ns), e, "transform of selected functions", 1e-12, 1e-14, s=s)
                t.equal(ft(ns), full, "transform unchanged")


@case
def basis_functions(t):
    s = sve(42.)
    x = np.linspace(-1, 1, 23)
    for obj in (s.u, s.v):
        full = obj(x)
        for l in (0, 1, -1, 5):
            t.close(obj[l](x), full[l], "basis function", 1e-13, 1e-14, l=l)
            t.check(obj[l].symm == (-1)**(l % obj.size), "parity of the basis function", l=l)
        d = obj.deriv()
        h = 1e-6
        xm = np.array([-.81, -.33, .127, .44, .93])
        fd = (obj(xm + h) - obj(xm - h)) / (2 * h)
        t.close(d(xm), fd, "first derivative vs difference quotient", 1e-6, 1e-6 * np.abs(fd).max())
        d2 = obj.deriv(2)
        t.close(d2(xm), d.deriv()(xm), "second derivative", 1e-9, 1e-9 * np.abs(d2(xm)).max())


@case
def scaled_interval(t):
    """derivatives on intervals of other length"""
    p, data, knots = random_poly(t.rng, 5, 3, (2,), 0., 7.5)
    x = (knots[1:] + knots[:-1]) / 2 + .01
    for n in (1, 2, 3):
        e = np.array([[exact_deriv(data, knots, i, (l,), x[i], n) for i in range(3)]
                      for l in range(2)])
        t.close(p.deriv(n)(x), e, "derivative on [0, 7.5]", 1e-10, 1e-10 * np.abs(e).max(), n=n)
