import warnings
import numpy as np
from harness import case, THOROUGH
from ref import basis, sve, ft_ref, pw_eval
import sparse_ir
from sparse_ir import kernel, sampling, basis as bm

CFG = [(1., .3, 'logistic'), (1., 10., 'logistic'), (10., 1., 'logistic'), (3., 14., 'logistic'),
       (84., .5, 'logistic'), (1e-3, 1e4, 'logistic'), (2., 5., 'bose'), (.1, 100., 'bose'),
       (50., 20., 'logistic'), (7., .01, 'logistic')]
if THOROUGH:
    CFG += [(1., 1e4, 'logistic'), (1., 1e3, 'bose'), (1e4, .3, 'logistic'), (1., 2., 'bose'),
            (1., 77., 'logistic')]


def bases():
    for beta, wmax, kind in CFG:
        for stat in 'FB':
            if kind == 'bose' and stat == 'F':
                continue
            for eps in (1e-6, 1e-3):
                yield basis(stat, beta, wmax, eps=eps, kind=kind), dict(
                    stat=stat, beta=beta, wmax=wmax, kind=kind, eps=eps)


def with_warnings(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        return f(), len(w)


@case
def tau_points(t):
    for b, c in bases():
        for npts in (None, 1, 2, b.size - 1, b.size + 1, b.size + 3):
            if npts == 0:
                continue
            r = t.attempt(lambda: with_warnings(lambda: b.default_tau_sampling_points(npoints=npts)),
                          "default times", npoints=npts, **c)
            if r is None:
                continue
            x, nw = r
            t.check((np.diff(x) > 0).all(), "sorted", x=x, npoints=npts, **c)
            t.check((x > 0).all() and (x < b.beta).all(), "strictly inside", x=x, npoints=npts, **c)
            t.check(x.size >= (npts or b.size) or nw > 0, "as many as functions", got=x.size,
                    npoints=npts, **c)
            t.close(x, b.beta - x[::-1], "symmetric about beta/2", 0, 1e-9 * b.beta, npoints=npts,
                    **c)
        x = b.default_tau_sampling_points()
        if b.sve_result.u.size > b.size:
            xr = 2 * x / b.beta - 1
            u = b.sve_result.u
            xx = np.clip(np.r_[xr - 1e-7, xr + 1e-7], -1, 1)
            f = pw_eval(u.data[:, :, b.size:b.size + 1], u.knots, xx)[0]
            t.check((f[:x.size] * f[x.size:] < 0).all(), "sign changes of the next function", **c)


@case
def omega_points(t):
    for b, c in bases():
        for npts in (None, b.size - 1, b.size + 2):
            if npts == 0:
                continue
            r = t.attempt(lambda: with_warnings(lambda:
                          b.default_omega_sampling_points(npoints=npts)), "frequencies", **c)
            if r is None:
                continue
            w, nw = r
            t.check((np.diff(w) > 0).all(), "sorted", npoints=npts, **c)
            t.check((np.abs(w) <= b.wmax).all(), "inside", npoints=npts, **c)
            t.check(w.size >= (npts or b.size) or nw > 0, "number or warning", **c)
            t.close(w, -w[::-1], "symmetric", 0, 1e-9 * b.wmax, npoints=npts, **c)


@case
def matsubara_points(t):
    for b, c in bases():
        z = 1 if b.statistics == 'F' else 0
        for npts in (None, 1, 2, b.size - 1, b.size + 1, b.size + 4):
            if npts == 0:
                continue
            r = t.attempt(lambda: with_warnings(lambda:
                          b.default_matsubara_sampling_points(npoints=npts)), "frequencies",
                          npoints=npts, **c)
            if r is None:
                continue
            n, nw = r
            t.check(n.dtype.kind == 'i' and n.ndim == 1, "integers", npoints=npts, **c)
            t.check((n % 2 == z).all(), "parity", n=n, npoints=npts, **c)
            t.check((np.diff(n) > 0).all(), "sorted and distinct", n=n, npoints=npts, **c)
            t.equal(n, -n[::-1], "mirror-symmetric", npoints=npts, **c)
            t.check(n.size >= (npts or b.size) or nw > 0, "number or warning", got=n.size,
                    npoints=npts, **c)
            if z == 0:
                t.check((n == 0).any(), "zero included", n=n, npoints=npts, **c)
            p, nw = with_warnings(lambda: b.default_matsubara_sampling_points(
                npoints=npts, positive_only=True))
            t.equal(p, n[n >= 0], "non-negative part", npoints=npts, **c)


@case
def conditioning(t):
    for b, c in bases():
        (s, nw) = with_warnings(lambda: sparse_ir.TauSampling(b))
        k = np.linalg.cond(b.u(s.tau).T)
        t.check(k < 1e3, "time problem well conditioned", cond=k, **c)
        t.close(s.cond, k, "reported condition number", 1e-6, **c)
        n = b.default_matsubara_sampling_points()
        k = np.linalg.cond(b.uhat(n).T)
        t.check(k < 1e3, "frequency problem well conditioned", cond=k, **c)
        n = b.default_matsubara_sampling_points(positive_only=True)
        A = b.uhat(n).T
        k = np.linalg.cond(np.vstack([A.real, A.imag[1 if n[0] == 0 else 0:]]))
        t.check(k < 1e3, "non-negative problem well conditioned", cond=k, **c)


@case
def dimensionless_only(t):
    f = t.private(bm, '_default_sampling_points')
    b = basis('F', 3., 14.)
    for p in (b.u, b.v):
        t.raises(ValueError, lambda: f(p, 3), "scaled functions are rejected")


@case
def fence(t):
    f = t.private(bm, '_fence_matsubara_sampling')
    for z in (0, 1):
        for m in (3, 9, 10, 19, 20, 21, 25, 41, 42, 43, 60):
            for scale in (1, 40):
                half = np.sort(t.rng.choice(np.arange(1, 40 * m), m // 2 + 1, False)) * scale
                half = 2 * half + z
                if z == 0:
                    half[0] = 0
                full = np.unique(np.r_[-half, half])
                for pos, wn in ((False, full), (True, half)):
                    r = t.attempt(lambda: f(wn.copy(), pos), "fence", m=m, pos=pos)
                    if r is None:
                        continue
                    t.check((r % 2 == z).all() and (np.diff(r) > 0).all(), "valid", m=m, pos=pos,
                            z=z)
                    t.check(np.isin(wn, r).all(), "points kept", m=m, pos=pos)
                    if pos:
                        t.check((r >= 0).all(), "non-negative", m=m)
                    else:
                        t.equal(r, -r[::-1], "symmetric", m=m)


@case
def warned(t):
    """asking for more points than there are functions"""
    b = basis('F', 1., 10.)
    n = b.sve_result.s.size + 5
    t.warns(lambda: b.default_tau_sampling_points(npoints=n), "too many times")
    t.warns(lambda: b.default_omega_sampling_points(npoints=n), "too many real frequencies")
    t.warns(lambda: b.default_matsubara_sampling_points(npoints=n + 9), "too many frequencies")


@case
def full_basis(t):
    """bases using every computed singular function"""
    for lam in (10., 42.):
        r = sve(lam)
        for stat in 'FB':
            for k in (1, 2, 3, 6, 7):
                u = r.u[:k]
                q = sve_cut(r, k)
                b = sparse_ir.FiniteTempBasis(stat, 2., lam / 2, None, sve_result=q)
                t.check(b.size == k, "all functions used", got=b.size)
                c = dict(stat=stat, lam=lam, k=k)
                x, nw = with_warnings(b.default_tau_sampling_points)
                t.check((x > 0).all() and (x < 2).all() and (np.diff(x) > 0).all(), "times", **c)
                t.check(x.size >= k or nw > 0, "number", **c)
                n, nw = with_warnings(b.default_matsubara_sampling_points)
                t.equal(n, -n[::-1], "mirror-symmetric", **c)
                t.check((n % 2 == (stat == 'F')).all() and (np.diff(n) > 0).all(), "valid", **c)
                t.check(n.size >= k or nw > 0, "number of frequencies", got=n.size, **c)
                if stat == 'B':
                    t.check((n == 0).any(), "zero included", n=n, **c)
                p, _ = with_warnings(lambda: b.default_matsubara_sampling_points(positive_only=True))
                t.equal(p, n[n >= 0], "non-negative part", **c)
                w, nw = with_warnings(b.default_omega_sampling_points)
                t.check((np.abs(w) <= b.wmax).all() and (np.diff(w) > 0).all(), "omega", **c)


def sve_cut(r, k):
    from sparse_ir import sve as sve_
    return sve_.SVEResult(r.u[:k], r.s[:k], r.v[:k], r.K, r.eps)
