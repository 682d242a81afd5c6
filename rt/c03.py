import numpy as np
from harness import case, THOROUGH
from sparse_ir import kernel

KS = (kernel.LogisticKernel, kernel.RegularizedBoseKernel)
LAMS = np.r_[10.0 ** np.linspace(-4, 9, 66 if not THOROUGH else 1500), [1., 10., 42., 1.001, .999,
                                                                        100., 1e3, 1e5]]
EPSS = (1e-2, 1e-5, 1.01e-8, 1e-8, 9.9e-9, 1e-9, 1e-12, 2.2e-16, 1e-30)


def grid_ok(t, s, lo, what, **inp):
    s = np.asarray(s)
    return (t.check(s.ndim == 1 and s.size >= 2 and s.dtype.kind == 'f', what + " vector", **inp)
            and t.check(np.isfinite(s).all(), what + " finite", **inp)
            and t.check(s[0] == lo and s[-1] == 1, what + " covers the domain exactly", ends=(
                s[0], s[-1]), **inp)
            and t.check((np.diff(s) > 0).all(), what + " strictly increasing", **inp))


@case
def full_grid(t):
    for cls in KS:
        for lam in LAMS:
            for eps in (1e-6, 1e-15):
                h = cls(float(lam)).sve_hints(eps)
                for w in ('segments_x', 'segments_y'):
                    s = getattr(h, w)
                    if not grid_ok(t, s, -1, w, K=cls.__name__, lam=lam):
                        continue
                    t.check(np.allclose(s, -s[::-1], rtol=1e-14, atol=0), w + " mirror-symmetric",
                            K=cls.__name__, lam=lam)
                    t.check((s == 0).sum() == 1 and s[s.size // 2] == 0, w + " contains zero",
                            K=cls.__name__, lam=lam)


@case
def reduced_grid(t):
    for cls in KS:
        for lam in LAMS[::2]:
            K = cls(float(lam))
            h = K.sve_hints(1e-10)
            for sign in (1, -1):
                r = K.get_symmetrized(sign).sve_hints(1e-10)
                for w in ('segments_x', 'segments_y'):
                    full, s = getattr(h, w), getattr(r, w)
                    grid_ok(t, s, 0, w + " reduced", K=cls.__name__, lam=lam)
                    t.equal(s, full[full >= 0], w + " is the non-negative part", lam=lam)


@case
def numbers(t):
    for cls in KS:
        for lam in LAMS:
            K = cls(float(lam))
            for obj in (K, K.get_symmetrized(1), K.get_symmetrized(-1)):
                pg = pn = 0
                for eps in EPSS:
                    h = obj.sve_hints(eps)
                    g, n = h.ngauss, h.nsvals
                    t.check(g == int(g) and g > 0, "ngauss positive integer", lam=lam, eps=eps)
                    t.check(n == int(n) and n > 0, "nsvals positive integer", lam=lam, eps=eps)
                    t.check(g >= pg, "ngauss not decreasing", K=type(obj).__name__, lam=lam,
                            eps=eps, previous=pg, got=g)
                    t.check(n >= pn, "nsvals not decreasing", K=type(obj).__name__, lam=lam,
                            eps=eps, previous=pn, got=n)
                    pg, pn = g, n


@case
def reduced_numbers(t):
    """the reduced problem must hold half of the singular values"""
    for cls in KS:
        for lam in LAMS[::3]:
            K = cls(float(lam))
            for eps in (1e-5, 1e-15):
                h = K.sve_hints(eps)
                n = [K.get_symmetrized(s).sve_hints(eps).nsvals for s in (1, -1)]
                t.check(sum(n) >= h.nsvals, "reduced counts cover the full count", lam=lam, n=n,
                        full=h.nsvals)
                t.check(K.get_symmetrized(1).sve_hints(eps).ngauss == h.ngauss, "ngauss", lam=lam)


@case
def hints_sufficient(t):
    """nsvals bounds the number of singular values above the accuracy"""
    from sparse_ir import sve
    for cls in KS:
        for lam, eps in ((.5, 1e-6), (10., 1e-6), (100., 1e-8), (42., 1e-10), (1e3, 1e-6)):
            K = cls(lam)
            s = sve.compute(K, eps).s
            n = (s >= eps * s[0]).sum()
            t.check(n <= K.sve_hints(eps).nsvals, "nsvals is an upper bound", K=cls.__name__,
                    lam=lam, eps=eps, n=n, hint=K.sve_hints(eps).nsvals)


@case
def symmetric_part(t):
    f = t.private(kernel, '_symm_segments')
    for x in ([-1, 0, 1], [-1, -.5, 0, .5, 1], [-1, -.1, .1, 1], [-2., 2.], [-1, -.3, -.1, .1, .3, 1]):
        x = np.asarray(x, float)
        e = np.unique(np.r_[0, x[x >= 0]])
        t.equal(f(x), e, "non-negative part with zero", x=x)
    for x in ([-1, 0, .9], [-1, .5, 1], [0, 1], [-1, -.5, 0, .4, 1]):
        t.raises(ValueError, lambda: f(x), "asymmetric segments", x=x)
