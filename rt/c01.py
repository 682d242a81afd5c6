import numpy as np
from harness import case, THOROUGH
from ref import mp_logistic, mp_bose, mpm
from sparse_ir import kernel

LAMS = [1e-8, 1e-3, .1, 1., 4.2, 10., 42., 100., 1e3, 12345.6, 1e5, 1e7, 1e9, 1e12]
KS = ((kernel.LogisticKernel, mp_logistic), (kernel.RegularizedBoseKernel, mp_bose))


def points(rng, lam):
    ys = [0., -0., 1., -1., 1e-300, -1e-300, 1e-200, 1e-12, -1e-12, .5, -.5]
    for v in (1e-3, .3, 1., 5., 36., 84.9, 85.1, 87.5, 88.5, 170., 350., 700., 709., 710., 745.5,
              800., 1500.):
        if v <= lam:
            ys += [v / lam, -v / lam]
    ys += list(rng.uniform(-1, 1, 6))
    xs = [-1., 1., 0., .5, -.5, 1e-9, -1e-9, np.nextafter(1, 0), np.nextafter(-1, 0),
          1 - 1e-9, -1 + 1e-9] + list(rng.uniform(-1, 1, 5))
    return np.array(xs), np.array(ys)


def vals(ref, lam, xs, ys):
    return np.array([[float(ref(lam, x, y)) for y in ys] for x in xs])


@case
def closed_form(t):
    for cls, ref in KS:
        for lam in LAMS:
            K = cls(lam)
            xs, ys = points(t.rng, lam)
            r = K(xs[:, None], ys[None, :])
            e = vals(ref, lam, xs, ys)
            # error of the exponent: Lambda*y*(1+x)/2 rounded
            ex = np.abs(lam * ys[None, :]) * np.where(ys >= 0, 1 + xs[:, None], 1 - xs[:, None]) / 2
            tol = 4e-15 * (1 + np.minimum(ex, 800))
            ok = np.isfinite(r) & (np.abs(r - e) <= tol * e + 1e-305)
            t.note(K=cls.__name__, lam=lam)
            if r.shape != e.shape or not ok.all():
                i, j = np.argwhere(~ok)[0]
                t.fail("kernel value", K=cls.__name__, lam=lam, x=xs[i], y=ys[j], got=r[i, j],
                       expected=e[i, j])
            t.check((r >= 0).all(), "non-negative", K=cls.__name__, lam=lam)
            for i in range(0, len(xs), 3):
                for j in range(0, len(ys), 3):
                    s = K(xs[i], ys[j])
                    t.check(np.shape(s) == () and abs(s - r[i, j]) <= 1e-14 * r[i, j] + 1e-305,
                            "scalar equals array value", lam=lam, x=xs[i], y=ys[j], got=s,
                            array=r[i, j])


@case
def separate_differences(t):
    """x_plus/x_minus give full relative accuracy next to the end points"""
    for cls, ref in KS:
        for lam in (10., 1e3, 1e8, 1e15, 1e20):
            K = cls(lam)
            for d in (1e-3, 1e-12, 1e-17, 1e-19, 3e-20):
                for y in (1., -1., .3, -.3):
                    # near -1: x_plus = d
                    r = float(K(np.array([-1 + d]), np.array([y]), np.array([d]),
                                np.array([2 - d]))[0])
                    e = float(ref(lam, -1, y, xp=d, xm=2 - d)) if d < 1e-10 else \
                        float(ref(lam, -1 + d, y, xp=d, xm=2 - d))
                    t.check(np.isfinite(r) and abs(r - e) <= 1e-12 * e + 1e-300,
                            "x_plus used", K=cls.__name__, lam=lam, d=d, y=y, got=r, expected=e)
                    r = float(K(np.array([1 - d]), np.array([y]), np.array([2 - d]),
                                np.array([d]))[0])
                    e = float(ref(lam, 1, y, xp=2 - d, xm=d))
                    t.check(np.isfinite(r) and abs(r - e) <= 1e-12 * e + 1e-300,
                            "x_minus used", K=cls.__name__, lam=lam, d=d, y=y, got=r, expected=e)
        K = cls(50.)
        x, y = t.rng.uniform(-1, 1, 40), t.rng.uniform(-1, 1, 40)
        b = K(x, y)
        for xp in (None, 1 + x):
            for xm in (None, 1 - x):
                t.close(K(x, y, xp, xm), b, "same function with explicit differences", 1e-13)
                t.close(K(x, y, x_minus=xm, x_plus=xp), b, "keyword differences", 1e-13)


@case
def shapes(t):
    for cls, ref in KS:
        for lam in (7, 7., 700.):
            K = cls(lam)
            for sx, sy in (((), ()), ((3,), ()), ((), (4,)), ((3, 1), (1, 4)), ((2, 3), (3,)),
                           ((0,), ()), ((5,), (5,)), ((2, 1, 3), (4, 1))):
                x, y = t.rng.uniform(-1, 1, sx), t.rng.uniform(-1, 1, sy)
                r = t.attempt(lambda: K(x, y), "call", lam=lam, sx=sx, sy=sy)
                if r is None:
                    continue
                bx, by = np.broadcast_arrays(x, y)
                e = np.array([float(ref(lam, p, q)) for p, q in zip(bx.ravel(), by.ravel())])
                t.close(np.asarray(r), e.reshape(bx.shape), "broadcast", 1e-11, lam=lam, sx=sx,
                        sy=sy)
            for x, y in ((0, 0), (1, 1), (-1, 1), (1, -1), (0, 1), ([0, 1], [1, -1]),
                         ([0., .5], 1), (np.array([1, 0]), np.array([[1], [0], [-1]])),
                         (np.int64(1), np.float64(.3)), (0.5, [0, 1])):
                r = t.attempt(lambda: K(x, y), "integer/list arguments", lam=lam, x=x, y=y)
                if r is None:
                    continue
                bx, by = np.broadcast_arrays(x, y)
                e = np.array([float(ref(lam, p, q)) for p, q in zip(bx.ravel(), by.ravel())])
                t.close(np.asarray(r), e.reshape(bx.shape), "integer/list", 1e-11, lam=lam, x=x,
                        y=y)
            x, y = t.rng.uniform(-1, 1, 4), t.rng.uniform(-1, 1, 4)
            xp, xm = 1 + x, 1 - x
            c = [a.copy() for a in (x, y, xp, xm)]
            K(x, y, xp, xm)
            for a, b in zip((x, y, xp, xm), c):
                t.equal(a, b, "arguments unchanged")


@case
def extended_precision(t):
    try:
        from xprec import ddouble
    except ImportError:
        return
    m = mpm()
    for cls, ref in KS:
        for lam in (1., 42., 1e4):
            K = cls(lam)
            x = t.rng.uniform(-1, 1, 12)
            y = np.r_[t.rng.uniform(-1, 1, 8), [1e-6, -1e-6, 1., -1.]]
            r = K(x.astype(ddouble), y.astype(ddouble))
            t.check(r.dtype == ddouble, "dtype kept", lam=lam)
            with m.workdps(50):
                for k in range(12):
                    hi = float(r[k])
                    lo = float(r[k] - hi)
                    e = ref(lam, x[k], y[k])
                    err = abs((m.mpf(hi) + m.mpf(lo) - e) / e) if e > 1e-250 else abs(hi)
                    t.check(err < 1e-27 * (1 + lam), "extended precision value", K=cls.__name__,
                            lam=lam, x=x[k], y=y[k], err=float(err))


@case
def domain(t):
    for cls, _ in KS:
        K = cls(10.)
        up, dn = np.nextafter(1, 9), np.nextafter(-1, -9)
        for bad in (up, dn, 2., -2., np.nan, np.inf, -np.inf):
            for arr in (bad, np.array(bad), [bad], [0., bad, 1.], [[bad], [0.]]):
                t.raises(ValueError, lambda: K(arr, .5), "x outside", x=arr)
                t.raises(ValueError, lambda: K(.5, arr), "y outside", y=arr)
                t.raises(ValueError, lambda: K(np.zeros((1, 1)), arr), "y outside", y=arr)
        for x in (-1, 1, 0):
            for y in (-1, 1, 0):
                t.attempt(lambda: K(float(x), float(y)), "corner accepted", x=x, y=y)
        t.check(tuple(K.xrange) == (-1, 1) and tuple(K.yrange) == (-1, 1), "ranges")


@case
def weights(t):
    m = mpm()
    y = np.array([-1., -.7, -.01, -1e-5, 1e-5, .003, .4, 1.])
    x = np.array([-1., -.4, 0., .3, 1.])
    for lam in (.5, 8., 90., 3000.):
        K = kernel.LogisticKernel(lam)
        w = K.weight_func('F')(y)
        t.close(w, np.ones(8), "fermionic weight", 1e-15)
        t.check(np.shape(K.weight_func('F')(.3)) == (), "scalar weight")
        wb = K.weight_func('B')(y)
        got = K(x[:, None], y[None]) * wb
        with m.workdps(40):
            # exp(-lam y (x+1)/2) / (1 - exp(-lam y))
            e = np.array([[float(m.exp(-lam * m.mpf(q) * (m.mpf(p) + 1) / 2) /
                                 -m.expm1(-lam * m.mpf(q))) for q in y] for p in x])
        t.close(got, e, "logistic kernel with bosonic weight", 1e-11, 1e-300, lam=lam)
        B = kernel.RegularizedBoseKernel(lam)
        wb = B.weight_func('B')(y)
        t.close(B(x[:, None], y[None]) * wb, e, "bosonic kernel with its weight", 1e-11, 1e-300, lam=lam)
        t.raises(ValueError, lambda: B.weight_func('F'), "bosonic kernel for fermions")
        for bad in ('', 'X', 'FB', 'BF', 'f', 'b', 'barB'):
            t.raises(ValueError, lambda: K.weight_func(bad), "statistics", s=bad)
            t.raises(ValueError, lambda: B.weight_func(bad), "statistics", s=bad)
            t.raises(ValueError, lambda: kernel.AbstractKernel().weight_func(bad), "statistics",
                     s=bad)
    for s in 'FB':
        t.close(kernel.AbstractKernel().weight_func(s)(y), np.ones(8), "default weight")


@case
def attributes(t):
    for cls, _ in KS:
        for lam in (.5, 10., 1e6):
            K = cls(lam)
            t.check(K.is_centrosymmetric is True or bool(K.is_centrosymmetric), "centrosymmetric")
            t.check(K.lambda_ == lam and K.conv_radius == 40 * lam, "Lambda, convergence radius")
    t.check(kernel.LogisticKernel(3.).ypower == 0 and kernel.RegularizedBoseKernel(3.).ypower == 1,
            "ypower")


@case
def matrix_values(t):
    from sparse_ir import _gauss
    f = t.private(kernel, 'matrix_from_gauss')
    for cls, ref in KS:
        gx = _gauss.legendre(5).piecewise([-1, -.9, 0, .2, 1])
        gy = _gauss.legendre(4).piecewise([-1, .1, 1])
        for lam in (20., 5e3):
            A = f(cls(lam), gx, gy)
            e = vals(lambda l, x, y: ref(l, x, y), lam, gx.x, gy.x)
            t.close(A, e, "matrix of kernel values", 1e-11, 1e-300, lam=lam)
