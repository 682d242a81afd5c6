import warnings
import numpy as np
from harness import case, THOROUGH
from ref import random_poly, sve, basis, pw_eval
from sparse_ir import poly


def exact(data, knots, f, extra=(), n=40, splits=()):
    """composite Gauss quadrature, splitting at knots and the given points"""
    x, w = np.polynomial.legendre.leggauss(n)
    e = np.unique(np.r_[knots, [q for q in splits if knots[0] < q < knots[-1]]])
    tot = 0
    for a, b in zip(e[:-1], e[1:]):
        sub = np.linspace(a, b, 9)
        for c, d in zip(sub[:-1], sub[1:]):
            xx = (c + d) / 2 + (d - c) / 2 * x
            p = pw_eval(data, knots, xx)
            fx = np.array([f(q) for q in xx])
            fx = fx.reshape(len(xx), -1)
            tot = tot + np.einsum('lk,kf,k->lf', p.reshape(-1, len(xx)), fx, w) * (d - c) / 2
    return tot.reshape(data.shape[2:] + np.shape(f(float(knots[0]))))


FS = [(np.cos, ()), (lambda x: 1., ()), (lambda x: x**3 - .2, ()), (np.exp, ()),
      (lambda x: np.array([1., x, x * x]), ()), (lambda x: np.array([[np.sin(x), 0], [2., x]]), ()),
      (lambda x: abs(x - .3), (.3,)), (lambda x: 1. if x > .1 else -2., (.1,)),
      (lambda x: 0., ()), (lambda x: 1. / (1.2 + x), ()), (lambda x: np.exp(3j * x), ())]


@case
def values(t):
    for P, nseg, extra in ((1, 1, ()), (3, 2, ()), (4, 5, (3,)), (2, 3, (2, 2))):
        p, data, knots = random_poly(t.rng, P, nseg, extra)
        for k, (f, pts) in enumerate(FS):
            e = exact(data, knots, f, splits=pts)
            v = t.attempt(lambda: p.overlap(f, points=pts or None), "overlap", k=k, extra=extra)
            if v is None:
                continue
            t.close(v, e, "overlap", 1e-12, 1e-13 * np.abs(data).max() * 10, k=k, extra=extra)
            v2, err = p.overlap(f, points=pts or None, return_error=True)
            t.equal(v2, v, "same value with error estimate", k=k)
            t.check(np.shape(err) == np.shape(v) and (np.asarray(err) >= 0).all(), "error estimate",
                    k=k)


@case
def tolerances(t):
    p, data, knots = random_poly(t.rng, 4, 4, (2,))
    f = lambda x: 1. / (1e-2 + (x - .37)**2)
    e = exact(data, knots, f, n=200, splits=np.linspace(.2, .5, 61))
    for rtol in (1e-3, 1e-6, 1e-9, 1e-12, 2.3e-16):
        v, err = p.overlap(f, rtol=rtol, return_error=True)
        sc = np.abs(e).max() + np.abs(data).max() * 300
        t.close(v, e, "requested accuracy", 0, max(20 * rtol, 1e-13) * sc, tol=rtol)
    for kink in (.123, -.5, .999):
        g = lambda x: abs(x - kink)
        e = exact(data, knots, g, splits=(kink,))
        for rtol in (1e-6, 1e-10, 1e-13):
            v = p.overlap(g, rtol=rtol)
            t.close(v, e, "kink without break point", 0, 100 * rtol * np.abs(data).max() * 10,
                    tol=rtol, kink=kink)


@case
def break_points(t):
    p, data, knots = random_poly(t.rng, 3, 3, (2,))
    f = lambda x: np.array([np.sign(x - .21) + 2, x])
    e = exact(data, knots, f, splits=(.21,))
    for pts in ([.21], (.21,), np.array([.21]), [-.3, .21, .5], [.21, -.3], [.21, .21],
                [.21, float(knots[1])], [float(knots[0]), .21, float(knots[-1])]):
        v = t.attempt(lambda: p.overlap(f, points=pts), "break points", pts=pts)
        if v is not None:
            t.close(v, e, "break points", 1e-12, 1e-12, pts=pts)


@case
def every_segment_counts(t):
    """an integrand vanishing on part of the interval, or concentrated in one segment"""
    knots = np.array([-1., -.6, -.1, .3, .35, 1.])
    data = t.rng.randn(3, 5, 2)
    p = poly.PiecewiseLegendrePoly(data, knots)
    for i in range(5):
        a, b = knots[i], knots[i + 1]
        f = lambda x: (1. + x) if a <= x <= b else 0.
        d0 = np.zeros_like(data)
        d0[:, i] = data[:, i]
        e = exact(d0, knots, lambda x: 1. + x)
        v = t.attempt(lambda: p.overlap(f), "one segment", i=i)
        if v is not None:
            t.close(v, e, "integrand on one segment", 1e-12, 1e-13, i=i)
    for k in range(1, 5):
        f = lambda x: np.cos(x) if x <= knots[k] else 0.
        d0 = data.copy()
        d0[:, k:] = 0
        t.close(p.overlap(f), exact(d0, knots, np.cos), "left part", 1e-12, 1e-13, k=k)


@case
def hard_integrands_warn_but_keep_everything(t):
    knots = np.linspace(-1, 1, 5)
    data = np.zeros((1, 4))
    data[0] = np.sqrt(.25)                   # the constant one (norm sqrt(2/h) = 2)
    p = poly.PiecewiseLegendrePoly(data, knots)
    t.close(p(np.array([0., .3])), [1., 1.], "constant one", 1e-15)
    f = lambda x: 1. if x > .1234567 else 0.
    v = t.warns(lambda: p.overlap(f), "non-converging refinement must warn")
    t.close(v, 1 - .1234567, "jump without break point", 0, 1e-8)
    g = lambda x: np.sign(np.sin(4000 * x)) + 3.
    v = t.warns(lambda: p.overlap(g), "too broad refinement must warn")
    t.close(v, 6., "contribution of every segment kept", 0, 1e-2)
    import zlib
    h = lambda x: 1. + (zlib.crc32(np.float64(x).tobytes()) / 2**32 - .5) * .1
    v = t.warns(lambda: p.overlap(h), "noise must warn")
    t.close(v, 2., "contribution of every segment kept", 0, 1e-2)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        p.overlap(np.cos)
        p.overlap(lambda x: 0.)
    t.check(not w, "smooth integrands do not warn")


@case
def knots_far_from_unit_interval(t):
    p, data, knots = random_poly(t.rng, 3, 4, (3,), 0., 12.)
    f = lambda x: np.exp(-x)
    t.close(p.overlap(f), exact(data, knots, f), "interval [0, 12]", 1e-12, 1e-12)


@case
def inconsistent(t):
    p, data, knots = random_poly(t.rng, 2, 2, ())
    t.raises(ValueError, lambda: p.overlap(lambda x: [1.] * (1 if x < 0 else 2)), "shape of f varies")


@case
def orthonormal(t):
    s = sve(10., eps=1e-6)
    for f in (s.u, s.v):
        n = min(f.size, 6)
        M = np.array([f[:n].overlap(f[l]) for l in range(n)])
        t.close(M, np.eye(n), "orthonormal", 0, 1e-7)
    b = basis('F', 3., 14.)
    v = b.u.overlap(lambda tau: np.exp(-tau))
    e = exact(b.u.data, b.u.knots, lambda tau: np.exp(-tau), n=20)
    t.close(v, e, "basis function overlap", 1e-10, 1e-12)
    # expansion of a single-pole function
    w = .8
    g = lambda tau: -np.exp(-tau * w) / (1 + np.exp(-3. * w))
    gl = -b.s * b.v(w)
    t.close(b.u.overlap(g), gl, "coefficients of a single pole", 0, 1e-6 * np.abs(gl).max())


@case
def argument_calls(t):
    """f is called with scalars in the interval; the polynomial is not changed"""
    p, data, knots = random_poly(t.rng, 3, 3, (2,))
    seen = []

    def f(x):
        seen.append((np.ndim(x), float(x)))
        return np.sin(x)
    d0 = p.data.copy()
    a = p.overlap(f)
    b = p.overlap(f)
    t.equal(a, b, "repeatable")
    t.equal(p.data, d0, "polynomial unchanged")
    t.check(all(n == 0 and -1 <= x <= 1 for n, x in seen), "scalar points inside the interval")
