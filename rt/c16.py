import numpy as np
from harness import case, THOROUGH
from ref import basis, sve
import sparse_ir
from sparse_ir import kernel, basis_set, sve as sve_
from sparse_ir.basis import finite_temp_bases


def freqs(b, n=6):
    z = 1 if b.statistics == 'F' else 0
    ns = 2 * np.arange(-n, n) + z
    return np.r_[ns, 2 * int(30 * b.lambda_) + z, 2 * int(200 * b.lambda_) + z]


def leading(t, c, b, k, **inp):
    """c consists of the first k functions of b"""
    tau = np.linspace(0, b.beta, 11)
    w = np.linspace(-b.wmax, b.wmax, 10)
    t.check(c.size == k and c.shape == (k,), "number of functions", got=c.size, expected=k, **inp)
    if c.size != k:
        return
    t.equal(c.u(tau), b.u(tau)[:k], "u", **inp)
    t.equal(c.v(w), b.v(w)[:k], "v", **inp)
    t.equal(c.s, b.s[:k], "s", **inp)
    ns = freqs(b)
    t.close(c.uhat(ns), b.uhat(ns)[:k], "uhat", 1e-13, 1e-15 * np.sqrt(b.beta), **inp)
    t.equal(c.significance, b.significance[:k], "significance", **inp)
    t.equal(c.u.symm, b.u.symm[:k], "parity", **inp)
    t.check((c.beta, c.wmax, c.statistics, c.lambda_) == (b.beta, b.wmax, b.statistics, b.lambda_),
            "parameters", **inp)
    full = b.sve_result.s
    e = full[k] / full[0] if k < full.size else full[-1] / full[0]
    t.close(c.accuracy, e, "accuracy of the truncated basis", 1e-14, **inp)
    t.check(c.kernel is b.kernel and c.sve_result is b.sve_result, "same kernel and expansion")


CFG = [('F', 1., 10., 'logistic'), ('B', 3., 14., 'logistic'), ('B', 2., 5., 'bose')]


@case
def truncation(t):
    for cfg in CFG:
        b = basis(cfg[0], cfg[1], cfg[2], kind=cfg[3])
        n = b.size
        for k in (1, 2, 3, n // 2, n - 1, n, n + 1, n + 100):
            for sl in (slice(k), slice(0, k), slice(None, k, 1), slice(0, k, None), slice(0, k, 1)):
                c = t.attempt(lambda: b[sl], "truncation", sl=sl)
                if c is not None:
                    leading(t, c, b, min(k, n), sl=sl, cfg=cfg)
        for sl in (slice(None), slice(0, None)):
            c = t.attempt(lambda: b[sl], "everything", sl=sl)
            if c is not None:
                leading(t, c, b, n, sl=sl)
        for k in (1, 2, n - 1):
            c = t.attempt(lambda: b[:-k], "negative stop", k=k)
            if c is not None:
                leading(t, c, b, n - k, stop=k)


@case
def small_accuracy(t):
    """cutting never brings back functions dropped by the accuracy"""
    r = sve(10.)
    for eps in (1e-2, 1e-4):
        b = sparse_ir.FiniteTempBasis('F', 1., 10., eps, kernel=kernel.LogisticKernel(10.),
                                      sve_result=r)
        t.check(b.size < r.s.size, "truncated by accuracy")
        for k in (b.size - 1, b.size, b.size + 1, b.size + 5, 10**6):
            c = t.attempt(lambda: b[:k], "truncation", k=k)
            if c is not None:
                leading(t, c, b, min(k, b.size), stop=k, eps=eps)
        c = b.rescale(3.)
        t.check(c.size == b.size, "rescaling keeps the size", got=c.size)


@case
def rejected(t):
    b = basis('F', 1., 10.)
    for ix in (slice(1, 5), slice(0, 5, 2), slice(None, None, -1), slice(None, 6, -1), 0, 3, -1,
               [0, 1], np.array([0, 1]), (slice(3),), slice(2, None), slice(-3, None),
               np.arange(b.size) < 2, slice(1, 1), slice(0, 4, 3)):
        t.raises(ValueError, lambda: b[ix], "not a leading slice", ix=ix)


@case
def rescaled(t):
    for cfg in CFG:
        b = basis(cfg[0], cfg[1], cfg[2], kind=cfg[3])
        for nb in (b.beta, .5, 7., 100., 1e-3, 3):
            c = t.attempt(lambda: b.rescale(nb), "rescale", new_beta=nb)
            if c is None:
                continue
            check_rescaled(t, c, b, nb, cfg=cfg)
            check_rescaled(t, c[:4], b[:4], nb, cfg=cfg)
            check_rescaled(t, b[:4].rescale(nb), b[:4], nb, cfg=cfg)
            check_rescaled(t, c.rescale(2.), b, 2., cfg=cfg)


def check_rescaled(t, c, b, nb, **inp):
    t.check(c.beta == nb, "new beta", new_beta=nb, got=c.beta, **inp)
    t.close(c.lambda_, b.lambda_, "same Lambda", 1e-14, **inp)
    t.close(c.wmax, b.lambda_ / nb, "wmax", 1e-14, **inp)
    t.check(c.size == b.size and c.statistics == b.statistics, "size and statistics", **inp)
    x, y = np.linspace(0, 1, 9), np.linspace(-1, 1, 8)
    x, y = x[1:-1], y[1:-1]
    f = np.sqrt(b.beta / nb)
    t.close(c.u(nb * x), f * b.u(b.beta * x), "u", 1e-9, 1e-9 * f, new_beta=nb, **inp)
    t.close(c.v(c.wmax * y) * np.sqrt(c.wmax), b.v(b.wmax * y) * np.sqrt(b.wmax), "v", 1e-9, 1e-9,
            new_beta=nb, **inp)
    ns = freqs(b)
    t.close(c.uhat(ns), b.uhat(ns) / f, "uhat", 1e-12, 1e-14 * np.sqrt(nb), new_beta=nb, **inp)
    yp = b.kernel.ypower
    t.close(c.s, b.s * (c.wmax / b.wmax)**-yp, "s", 1e-12, new_beta=nb, **inp)
    t.close(c.significance, b.significance, "significance", 1e-14, **inp)
    t.close(c.accuracy, b.accuracy, "accuracy", 1e-14, **inp)
    t.check(type(c.kernel) is type(b.kernel), "kernel class")
    t.check(c.sve_result is b.sve_result, "same expansion")


@case
def histories(t):
    b0 = basis('B', 2., 5., kind='bose')
    for trial in range(12 if not THOROUGH else 200):
        b, k, beta = b0, b0.size, 2.
        ops = []
        for _ in range(5):
            if t.rng.rand() < .5:
                q = int(t.rng.randint(1, b0.size + 3))
                b, k = b[:q], min(k, q)
                ops.append(q)
            else:
                beta = float(t.rng.choice([.1, .5, 1., 2., 5., 30.]))
                b = b.rescale(beta)
                ops.append(('beta', beta))
        check_rescaled(t, b, b0[:k], beta, ops=ops)


@case
def original_unchanged(t):
    b = basis('F', 1., 10.)
    tau = np.linspace(0, 1, 7)
    u0, s0, n = b.u(tau).copy(), b.s.copy(), b.size
    b[:3], b[:2].u(tau), b.rescale(5.).u(np.array([0., 5.])), b[:3].rescale(2.)
    t.equal(b.u(tau), u0, "u")
    t.equal(b.s, s0, "s")
    t.check(b.size == n and b.beta == 1, "size")


def same(t, a, b, **inp):
    t.check((a.size, a.beta, a.wmax, a.statistics) == (b.size, b.beta, b.wmax, b.statistics),
            "parameters", **inp)
    if a.size != b.size:
        return
    tau, w = np.linspace(0, b.beta, 9), np.linspace(-b.wmax, b.wmax, 7)
    t.close(a.u(tau), b.u(tau), "u", 1e-8, 1e-9, **inp)
    t.close(a.v(w), b.v(w), "v", 1e-8, 1e-9, **inp)
    t.close(a.s, b.s, "s", 1e-10, **inp)
    ns = freqs(b)
    t.close(a.uhat(ns), b.uhat(ns), "uhat", 1e-8, 1e-9 * np.sqrt(b.beta), **inp)
    t.close(a.accuracy, b.accuracy, "accuracy", 1e-9, **inp)


@case
def pairs(t):
    for beta, wmax, eps in ((1., 10., 1e-6), (5., 2., 1e-4), (3., 14., 1e-7)):
        ref = {s: sparse_ir.FiniteTempBasis(s, beta, wmax, eps) for s in 'FB'}
        for kw in (dict(), dict(sve_result=sve(beta * wmax, eps=eps)),
                   dict(sve_result=sve(beta * wmax))):
            f, b = finite_temp_bases(beta, wmax, eps, **kw)
            for q, s in ((f, 'F'), (b, 'B')):
                if kw.get('sve_result') is sve(beta * wmax):
                    e = sparse_ir.FiniteTempBasis(s, beta, wmax, eps, sve_result=sve(beta * wmax))
                    t.check(q.sve_result is e.sve_result, "given expansion used")
                else:
                    e = ref[s]
                same(t, q, e, beta=beta, wmax=wmax, eps=eps, stat=s)
            t.check(f.sve_result is b.sve_result, "one expansion for both")


@case
def basis_sets(t):
    for beta, wmax, eps in ((1., 10., 1e-5), (4., 10.5, 1e-6)):
        for kw in (dict(), dict(sve_result=sve(beta * wmax, eps=eps))):
            bs = sparse_ir.FiniteTempBasisSet(beta, wmax, eps, **kw)
            for q, s in ((bs.basis_f, 'F'), (bs.basis_b, 'B')):
                same(t, q, sparse_ir.FiniteTempBasis(s, beta, wmax, eps, **kw), beta=beta, stat=s)
            t.check((bs.beta, bs.wmax, bs.lambda_) == (beta, wmax, bs.basis_f.lambda_), "parameters")
            t.equal(bs.accuracy, bs.basis_f.accuracy, "accuracy")
            t.check(bs.sve_result is bs.basis_f.sve_result is bs.basis_b.sve_result, "expansion")
            if kw:
                t.check(bs.sve_result is kw['sve_result'], "given expansion used")
            t.equal(bs.tau, bs.basis_f.default_tau_sampling_points(), "tau points")
            t.equal(bs.smpl_tau_b.sampling_points, bs.basis_b.default_tau_sampling_points(), "tau")
            t.equal(bs.wn_f, bs.basis_f.default_matsubara_sampling_points(), "fermionic points")
            t.equal(bs.wn_b, bs.basis_b.default_matsubara_sampling_points(), "bosonic points")
            for smp, bb, m in ((bs.smpl_tau_f, bs.basis_f, 'u'), (bs.smpl_tau_b, bs.basis_b, 'u'),
                               (bs.smpl_wn_f, bs.basis_f, 'uhat'),
                               (bs.smpl_wn_b, bs.basis_b, 'uhat')):
                t.check(smp.basis is bb, "basis of the sampling object")
                t.equal(np.asarray(smp.matrix.a), getattr(bb, m)(smp.sampling_points).T, "matrix")


@case
def beyond_the_accuracy_of_the_expansion(t):
    """a basis with more functions than the SVE's own accuracy keeps, cut or rescaled"""
    for stat, kind in (('F', 'logistic'), ('B', 'bose')):
        r = sve_.compute({'logistic': kernel.LogisticKernel,
                          'bose': kernel.RegularizedBoseKernel}[kind](20.), 1e-5)
        b = sparse_ir.FiniteTempBasis(stat, 4., 5., 1e-9, kernel=r.K, sve_result=r)
        own = sparse_ir.FiniteTempBasis(stat, 4., 5., kernel=r.K, sve_result=r)
        t.check(own.size < b.size, "the case is the intended one", own=own.size, size=b.size)
        for k in (own.size - 1, own.size, own.size + 1, b.size - 1, b.size, b.size + 1):
            c = t.attempt(lambda: b[:k], "truncation", k=k)
            if c is not None:
                leading(t, c, b, min(k, b.size), stop=k, kind=kind)
        check_rescaled(t, b.rescale(10.), b, 10., kind=kind)
