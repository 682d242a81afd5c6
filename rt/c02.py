import numpy as np
from harness import case, THOROUGH
from ref import (mp_logistic_odd, mp_logistic_even, mp_bose_odd, mp_bose_even, mp_logistic, mp_bose,
                 mpm)
from sparse_ir import kernel

SETS = ((kernel.LogisticKernel, 1, mp_logistic_even), (kernel.LogisticKernel, -1, mp_logistic_odd),
        (kernel.RegularizedBoseKernel, 1, mp_bose_even),
        (kernel.RegularizedBoseKernel, -1, mp_bose_odd))
LAMS = [1e-6, .1, 1., 10., 42., 168., 172., 1e3, 1e5, 1e8, 1e12]


def grid(rng, lam):
    ys = [0., 1., .5, 1e-9, 1e-100, 1e-300, .99, .01]
    for vh in (1e-8, .5, .99, 1.01, 2., 20., 84.9, 85., 85.1, 88., 89., 100., 340., 350., 700., 710.,
               711., 800., 1600.):
        if 2 * vh <= lam:
            ys.append(2 * vh / lam)
    xs = [0., 1., .5, 1e-9, 1e-20, 1e-100, .01, 1 / 85., .011, .99, np.nextafter(1, 0)]
    return (np.array(xs + list(rng.uniform(0, 1, 4))), np.array(ys + list(rng.uniform(0, 1, 4))))


@case
def closed_form(t):
    for cls, sign, ref in SETS:
        for lam in LAMS:
            K = cls(lam).get_symmetrized(sign)
            xs, ys = grid(t.rng, lam)
            xs = np.unique(np.r_[xs, [min(1., q / (lam * y / 2)) for y in ys[1:4] for q in
                                      (.98, 1.02) if lam * y > 1e-3]])
            e = np.array([[float(ref(lam, x, y)) for y in ys] for x in xs])
            for xp in ('given', None):
                r = K(xs[:, None], ys[None], *(
                    (xs[:, None], 1 - xs[:, None]) if xp else ()))
                # absolute scale: the two terms of the sum
                ex = lam * ys[None] * (1 + xs[:, None]) / 2
                full = {1: mp_logistic, -1: mp_logistic}
                big = np.array([[float((mp_logistic if 'Log' in cls.__name__ else mp_bose)(
                    lam, -x, y)) for y in ys] for x in xs])
                tol = 1e-14 * (1 + np.minimum(ex, 1600)) * big + 1e-300
                ok = np.isfinite(r) & (np.abs(r - e) <= tol)
                t.note(K=cls.__name__, sign=sign, lam=lam, xp=xp)
                if not ok.all():
                    i, j = np.argwhere(~ok)[0]
                    t.fail("reduced kernel", K=cls.__name__, sign=sign, lam=lam, x=xs[i], y=ys[j],
                           got=r[i, j], expected=e[i, j])
                if sign == -1:
                    # no cancellation where the explicit form applies
                    vh = lam * ys[None] / 2
                    sm = (xs[:, None] * vh < .99) & (vh < 84.9) & (vh > 1e-190)
                    ok = np.abs(r - e) <= 1e-13 * np.abs(e) + 1e-305
                    if not ok[sm].all():
                        i, j = np.argwhere(sm & ~ok)[0]
                        t.fail("odd kernel, relative accuracy for small x*y", K=cls.__name__,
                               lam=lam, x=xs[i], y=ys[j], got=r[i, j], expected=e[i, j])


@case
def is_sum_of_kernel_values(t):
    for cls, sign, ref in SETS:
        for lam in (.3, 9., 300., 3e4):
            F = cls(lam)
            K = F.get_symmetrized(sign)
            x, y = t.rng.uniform(0, 1, 30), t.rng.uniform(0, 1, 30)
            t.close(K(x, y), F(x, y) + sign * F(x, -y), "K(x,y) + sign*K(x,-y)", 1e-11,
                    1e-13 * F(-x, y).max(), lam=lam, sign=sign)
            t.close(F(x, y), F(-x, -y), "centrosymmetric", 1e-13)
            r = kernel.ReducedKernel(F, sign)
            t.close(r(x, y), F(x, y) + sign * F(x, -y), "ReducedKernel", 1e-12, 1e-14)
            t.close(r(x, y, x, 1 - x), F(x, y) + sign * F(x, -y), "ReducedKernel", 1e-12, 1e-14)


@case
def shapes(t):
    for cls, sign, ref in SETS:
        for lam in (6, 60., 600):
            K = cls(lam).get_symmetrized(sign)
            for x, y in ((0., 0.), (0, 0), (1, 1), (.3, .7), (0, 1), (1, 0), ([0, 1], 1),
                         ([.1, .2], [.3, .4]), ([[.1], [.2]], [0, .5, 1]), (np.float64(.2), .9),
                         (np.array(.4), np.array(.01)), (np.zeros((0,)), .5),
                         (t.rng.rand(2, 1, 3), t.rng.rand(4, 1)), (t.rng.rand(3), t.rng.rand(3))):
                r = t.attempt(lambda: K(x, y), "call", K=cls.__name__, sign=sign, x=x, y=y)
                if r is None:
                    continue
                bx, by = np.broadcast_arrays(x, y)
                e = np.array([float(ref(lam, p, q)) for p, q in zip(bx.ravel(), by.ravel())])
                t.close(np.asarray(r), e.reshape(bx.shape), "shape/value", 1e-9, 1e-13, sign=sign,
                        lam=lam, x=x, y=y)
            a = [t.rng.rand(4), t.rng.rand(4), t.rng.rand(4)]
            a.append(1 - a[0])
            a[2] = a[0].copy()
            c = [q.copy() for q in a]
            K(*a)
            for p, q in zip(a, c):
                t.equal(p, q, "arguments unchanged")


@case
def domain(t):
    for cls, sign, ref in SETS:
        K = cls(10.).get_symmetrized(sign)
        t.check(tuple(K.xrange) == (0, 1) and tuple(K.yrange) == (0, 1), "quadrant")
        for bad in (-1e-300, -.5, np.nextafter(1, 9), np.nan, -1., 2.):
            t.raises(ValueError, lambda: K(bad, .5), "x outside", x=bad)
            t.raises(ValueError, lambda: K(.5, bad), "y outside", y=bad)
            t.raises(ValueError, lambda: K(np.array([.1, bad]), .5, np.array([.1, .1]),
                                           np.array([.9, .9])), "x outside", x=bad)


@case
def rejected(t):
    for cls in (kernel.LogisticKernel, kernel.RegularizedBoseKernel):
        F = cls(10.)
        for s in (0, 2, -2, .5, np.nan, 3, -.999, 1.0001):
            t.raises(ValueError, lambda: F.get_symmetrized(s), "sign", s=s)
            t.raises(ValueError, lambda: kernel.ReducedKernel(F, s), "sign", s=s)
        for s in (1, -1):
            K = F.get_symmetrized(s)
            t.check(not K.is_centrosymmetric, "reduced kernel is not centrosymmetric")
            for q in (1, -1):
                t.raises((RuntimeError, ValueError), lambda: K.get_symmetrized(q), "twice")
                t.raises((RuntimeError, ValueError), lambda: kernel.ReducedKernel(K, q), "twice")
            t.check(K.ypower == F.ypower and K.conv_radius == F.conv_radius, "attributes")
            t.check(K.inner is F and K.sign == s, "inner kernel and sign")

    class NC(kernel.AbstractKernel):
        def __call__(self, x, y, x_plus=None, x_minus=None):
            return np.exp(x + 2 * y)
    for s in (1, -1):
        t.raises(ValueError, lambda: NC().get_symmetrized(s), "not centrosymmetric", s=s)
        t.raises(ValueError, lambda: kernel.ReducedKernel(NC(), s), "not centrosymmetric", s=s)


@case
def custom_kernel(t):
    """the reduction of a user-defined kernel; inner x_plus is 1 + x"""
    seen = []

    class C(kernel.AbstractKernel):
        is_centrosymmetric = True

        def __call__(self, x, y, x_plus=None, x_minus=None):
            seen.append((x_plus, x_minus))
            xp = 1 + x if x_plus is None else x_plus
            xm = 1 - x if x_minus is None else x_minus
            return np.exp(x * y) + xp * xm
    x, y = t.rng.rand(7), t.rng.rand(7)
    for s in (1, -1):
        for a in ((x, y), (x, y, x), (x, y, x, 1 - x), (x, y, None, 1 - x)):
            r = C().get_symmetrized(s)(*a)
            e = np.exp(x * y) + s * np.exp(-x * y) + (1 + s) * (1 + x) * (1 - x)
            t.close(r, e, "reduction of user kernel", 1e-13, 1e-14, s=s)


@case
def extended_precision(t):
    try:
        from xprec import ddouble
    except ImportError:
        return
    m = mpm()
    for cls, sign, ref in SETS:
        for lam in (1., 42., 500.):
            K = cls(lam).get_symmetrized(sign)
            x = np.r_[t.rng.uniform(0, 1, 8), [1e-5, 1e-10]]
            y = np.r_[t.rng.uniform(0, 1, 8), [.5, .1]]
            xd, yd = x.astype(ddouble), y.astype(ddouble)
            r = K(xd, yd, xd, 1 - xd)
            t.check(r.dtype == ddouble, "dtype kept", lam=lam)
            with m.workdps(50):
                for k in range(10):
                    hi = float(r[k])
                    lo = float(r[k] - hi)
                    e = ref(lam, x[k], y[k])
                    err = abs((m.mpf(hi) + m.mpf(lo) - e) / e) if abs(e) > 1e-250 else 0
                    t.check(err < 1e-26 * (1 + lam), "extended precision", K=cls.__name__,
                            sign=sign, lam=lam, x=x[k], y=y[k], err=float(err))
