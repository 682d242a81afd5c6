import numpy as np
from harness import case, THOROUGH
from ref import random_poly, pw_eval, basis
from sparse_ir import poly

PLP = poly.PiecewiseLegendrePoly


@case
def values_everywhere(t):
    for P in (1, 2, 5, 16):
        for nseg in (1, 2, 3, 7, 20):
            for extra in ((), (1,), (3,), (2, 3)):
                p, d, k = random_poly(t.rng, P, nseg, extra, *[(-1., 1.), (0., 3.5)][P % 2])
                x = np.r_[k, .5 * (k[1:] + k[:-1]), np.nextafter(k[1:], -9), np.nextafter(k[:-1], 9),
                          t.rng.uniform(k[0], k[-1], 5)]
                t.rng.shuffle(x)
                ref = pw_eval(d, k, x)
                # at a knot a rounding of the local coordinate is harmless
                t.close(p(x), ref, "poly(x)", 1e-9, 1e-9 * max(1, abs(ref).max()), P=P, nseg=nseg,
                        extra=extra, x=x)


@case
def knot_belongs_right(t):
    # discontinuous data: value at inner knots must be that of the right segment
    k = np.array([-1., -.5, 0., .25, 1.])
    d = np.zeros((1, 4, 1))
    d[0, :, 0] = [1., 10., 100., 1000.]
    p = PLP(d, k)
    h = np.sqrt(2 / np.diff(k) / 2)
    exp = np.array([1., 10., 100., 1000., 1000.]) * np.sqrt(2 / np.diff(k)[[0, 1, 2, 3, 3]])
    t.close(p(k)[0], exp, "value at knots", 1e-12)
    t.close([float(p(xx)[0]) for xx in k], exp, "scalar value at knots", 1e-12)
    t.close([p.value(0, xx) for xx in k], exp, "value() at knots", 1e-12)


@case
def shapes_and_types(t):
    p, d, k = random_poly(t.rng, 4, 6, (3,))
    q, dq, kq = random_poly(t.rng, 4, 6, (2, 3))
    s, ds, ks = random_poly(t.rng, 4, 6, ())
    for sh in ((), (1,), (4,), (0,), (2, 3), (1, 4), (2, 1, 3)):
        x = t.rng.uniform(-1, 1, sh)
        ref = pw_eval(d, k, x.ravel()).reshape((3,) + sh)
        t.close(p(x), ref, "shape (3,)+x.shape", 1e-10, 1e-10, shape=sh)
        ref = pw_eval(dq, kq, x.ravel()).reshape((2, 3) + sh)
        t.close(q(x), ref, "shape (2,3)+x.shape", 1e-10, 1e-10, shape=sh)
        ref = pw_eval(ds, ks, x.ravel()).reshape(sh)
        t.close(s(x), ref, "shape x.shape", 1e-10, 1e-10, shape=sh)
    for x in (0, 1, -1, True, np.int32(0), [0, 1, -1], (0.5, -0.25), np.float32(.5),
              np.array(0.3), np.array([1, 0, -1])):
        ref = pw_eval(d, k, np.atleast_1d(np.asarray(x, float)).ravel())
        ref = ref.reshape((3,) + np.shape(x))
        t.close(p(x), ref, "argument kinds", 1e-10, 1e-10, x=x)
    x = np.asfortranarray(t.rng.uniform(-1, 1, (3, 4)))
    t.close(p(x.T), pw_eval(d, k, x.T.ravel()).reshape(3, 4, 3), "strided", 1e-10, 1e-10)


@case
def value_matches_call(t):
    for P, n in ((3, 1), (4, 8)):
        p, d, k = random_poly(t.rng, P, n, (5,))
        x = np.r_[k, t.rng.uniform(-1, 1, 20)]
        full = p(x)
        ref = pw_eval(d, k, x)
        for l in range(5):
            t.close(p.value(l, x), ref[l], "value(l, x)", 1e-10, 1e-10, l=l)
            t.close(p[l](x), full[l], "p[l](x)", 1e-13, 1e-13, l=l)
        l = np.arange(5)
        t.close(p.value(l[:, None], x[None, :]), ref, "value broadcast", 1e-10, 1e-10)
        li = t.rng.randint(0, 5, x.size)
        t.close(p.value(li, x), ref[li, np.arange(x.size)], "value elementwise", 1e-10, 1e-10)
        t.close(p.value(-1, x), ref[-1], "value(-1)", 1e-10, 1e-10)
        t.check(np.shape(p.value(2, 0.3)) == (), "value scalar shape")
    q, _, _ = random_poly(t.rng, 3, 3, (2, 2))
    t.raises(ValueError, lambda: q.value(0, 0.), "value needs a vector of functions")
    s, _, _ = random_poly(t.rng, 3, 3, ())
    t.raises(ValueError, lambda: s.value(0, 0.), "value needs a vector of functions")


@case
def domain(t):
    for lo, hi in ((-1., 1.), (0., 2.5), (-3., -1.)):
        p, d, k = random_poly(t.rng, 3, 4, (2,), lo, hi)
        t.check(np.isfinite(p(lo)).all() and np.isfinite(p(hi)).all(), "end points accepted")
        for bad in (np.nextafter(hi, 99), np.nextafter(lo, -99), lo - 1, hi + 1, np.nan, np.inf,
                    -np.inf):
            t.raises(ValueError, lambda: p(bad), "outside", bad=bad)
            t.raises(ValueError, lambda: p([lo, bad, hi]), "outside", bad=bad)
            t.raises(ValueError, lambda: p([[bad], [lo]]), "outside", bad=bad)
            t.raises(ValueError, lambda: p.value(0, bad), "outside", bad=bad)
            t.raises(ValueError, lambda: p.value(0, [hi, bad]), "outside", bad=bad)
        x = t.rng.uniform(lo, hi, 7)
        x0 = x.copy()
        p(x), p.value(1, x)
        t.equal(x, x0, "argument unchanged")


@case
def constructor(t):
    d, k = t.rng.randn(3, 4, 2), np.array([-1., -.2, 0, .3, 1])
    for pos in ((0, 0, 0), (2, 3, 1), (1, 2, 0)):
        dd = d.copy()
        dd[pos] = np.nan
        t.raises(ValueError, lambda: PLP(dd, k), "nan data", pos=pos)
    t.raises(ValueError, lambda: PLP(d, k[:-1]), "too few knots")
    t.raises(ValueError, lambda: PLP(d, np.r_[k, 2]), "too many knots")
    t.raises(ValueError, lambda: PLP(d, k[:, None]), "2-d knots")
    for i in range(4):
        kk = k.copy()
        kk[i], kk[i + 1] = kk[i + 1], kk[i]
        t.raises(ValueError, lambda: PLP(d, kk), "unsorted knots", i=i)
    t.raises(ValueError, lambda: PLP(d, k[::-1]), "descending knots")
    t.raises(ValueError, lambda: PLP(d, k, symm=np.zeros(3)), "symm shape")
    t.raises(ValueError, lambda: PLP(d, k, symm=0), "symm shape")
    for i in range(4):
        dx = np.diff(k)
        dx[i] *= 1.01
        t.raises(ValueError, lambda: PLP(d, k, dx=dx), "inconsistent dx", i=i)
    p = PLP(d, k, dx=np.diff(k), symm=np.array([1, -1]))
    d0, k0 = d.copy(), k.copy()
    ref = p(.1)
    d[:] = 0
    k[1] = -.9
    t.equal(p(.1), ref, "constructor copies its input")
    t.check(p.xmin == -1 and p.xmax == 1, "interval")
    t.check(p.shape == (2,) and p.size == 2 and p.ndim == 1, "shape/size/ndim")


@case
def basis_functions(t):
    for stat in 'FB':
        b = basis(stat, 5., 2.)
        x = np.r_[b.u.knots, t.rng.uniform(0, 5., 30)]
        t.close(b.u(x), pw_eval(b.u.data, b.u.knots, x), "u(tau)", 1e-8, 1e-8)
        x = np.r_[b.v.knots, t.rng.uniform(-2., 2., 30)]
        t.close(b.v(x), pw_eval(b.v.data, b.v.knots, x), "v(omega)", 1e-8, 1e-8)
