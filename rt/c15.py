import numpy as np
from harness import case, THOROUGH
from ref import basis, sve, pw_eval
import sparse_ir
from sparse_ir import kernel, sve as sve_

CFG = [('F', 1., 10., 'logistic'), ('B', 1., 10., 'logistic'), ('F', 10., 1., 'logistic'),
       ('F', 3., 14., 'logistic'), ('B', 84., .5, 'logistic'), ('B', 2., 5., 'bose'),
       ('B', .1, 100., 'bose'), ('B', 20., .5, 'bose'), ('F', 1e-3, 1e4, 'logistic'),
       ('F', 7.3, 42. / 7.3, 'logistic')]


@case
def scaling(t):
    for stat, beta, wmax, kind in CFG:
        b = t.attempt(lambda: basis(stat, beta, wmax, kind=kind), "basis", beta=beta, wmax=wmax)
        if b is None:
            continue
        r = sve(beta * wmax, kind, 1e-6)
        n = b.size
        x = np.concatenate([a + (c - a) * np.array([.2, .7]) for a, c in
                            zip(r.u.knots[:-1], r.u.knots[1:])])
        U = pw_eval(r.u.data[:, :, :n], r.u.knots, x)
        t.close(b.u(beta / 2 * (x + 1)), np.sqrt(2 / beta) * U, "u = sqrt(2/beta) U", 1e-9,
                1e-9 * np.abs(U).max() * np.sqrt(2 / beta), beta=beta, wmax=wmax, kind=kind)
        y = np.concatenate([a + (c - a) * np.array([.2, .7]) for a, c in
                            zip(r.v.knots[:-1], r.v.knots[1:])])
        V = pw_eval(r.v.data[:, :, :n], r.v.knots, y)
        t.close(b.v(wmax * y), V / np.sqrt(wmax), "v = V / sqrt(wmax)", 1e-9,
                1e-9 * np.abs(V).max() / np.sqrt(wmax), beta=beta, wmax=wmax, kind=kind)
        yp = 1 if kind == 'bose' else 0
        t.close(b.s, np.sqrt(beta * wmax / 2) * wmax**-yp * r.s[:n], "s scaled", 1e-13, beta=beta,
                wmax=wmax, kind=kind)
        t.close(b.significance, r.s[:n] / r.s[0], "significance", 1e-13)
        t.check(b.significance[0] == 1 and b.significance.shape == (n,), "significance starts at 1")
        e = r.s[n] / r.s[0] if n < r.s.size else r.s[n - 1] / r.s[0]
        t.close(b.accuracy, e, "accuracy", 1e-13)
        t.check(b.beta == beta and b.wmax == wmax and b.statistics == stat, "parameters")
        t.close(b.lambda_, beta * wmax, "Lambda", 1e-15)
        t.check(b.shape == (n,) and b.u.shape == (n,) and b.v.shape == (n,) and
                b.uhat.shape == (n,), "shapes")
        t.check((b.u.xmin, b.v.xmax, b.v.xmin) == (0, wmax, -wmax), "intervals")
        t.close(b.u.xmax, beta, "right end", 1e-15)
        t.equal(b.u.symm, r.u.symm[:n], "parity of u")
        t.equal(b.v.symm, r.v.symm[:n], "parity of v")
        n0 = 1 if stat == 'F' else 2
        t.check(b.uhat.zeta == (1 if stat == 'F' else 0), "statistics of uhat")
        xw, ww = np.polynomial.legendre.leggauss(30)
        acc = 0
        for a, c in zip(b.u.knots[:-1], b.u.knots[1:]):
            tau = np.clip((a + c) / 2 + (c - a) / 2 * xw, a, c)
            acc = acc + (b.u(tau) * np.exp(1j * np.pi * n0 * tau / beta) * ww).sum(-1) * (c - a) / 2
        t.close(b.uhat(n0), acc, "uhat is the Fourier integral", 1e-9, 1e-11 * np.sqrt(beta),
                beta=beta, stat=stat)


@case
def orthonormal(t):
    for stat, beta, wmax, kind in CFG:
        b = basis(stat, beta, wmax, kind=kind)
        for f in (b.u, b.v):
            xw, ww = np.polynomial.legendre.leggauss(24)
            M = 0
            for a, c in zip(f.knots[:-1], f.knots[1:]):
                x = np.clip((a + c) / 2 + (c - a) / 2 * xw, a, c)
                q = f(x)
                M = M + (q * ww) @ q.T * (c - a) / 2
            t.close(M, np.eye(b.size), "orthonormal", 0, 1e-8, beta=beta, wmax=wmax, kind=kind)


@case
def reproduces_the_kernel(t):
    for stat, beta, wmax, kind in CFG:
        b = basis(stat, beta, wmax, kind=kind)
        tau = np.linspace(0, beta, 9)
        w = np.linspace(-wmax, wmax, 8)
        g = np.einsum('li,l,lj->ij', b.u(tau), b.s, b.v(w))
        z = beta * w[None, :]
        if kind == 'logistic':
            k = np.exp(-tau[:, None] * w - np.logaddexp(0, -z))
        else:
            k = w * np.exp(-tau[:, None] * w) / -np.expm1(-z) / wmax**2
        t.close(g, k, "sum over l gives the kernel", 0, 2e-5 * np.abs(k).max(), beta=beta,
                wmax=wmax, kind=kind)


@case
def accuracy_and_size(t):
    r = sve(10.)
    K = kernel.LogisticKernel(10.)
    for eps in (None, 1e-3, 1e-6, 1e-10, 1., r.s[4] / r.s[0]):
        for ms in (None, 1, 5, 1000):
            b = t.attempt(lambda: sparse_ir.FiniteTempBasis('F', 2., 5., eps, max_size=ms,
                                                            kernel=K, sve_result=r),
                          "basis", eps=eps, max_size=ms)
            if b is None:
                continue
            n = int((r.s >= (r.eps if eps is None else eps) * r.s[0]).sum())
            n = min(n, ms or n)
            t.check(b.size == n, "size", eps=eps, max_size=ms, got=b.size, expected=n)
            e = r.s[n] / r.s[0] if n < r.s.size else r.s[-1] / r.s[0]
            t.close(b.accuracy, e, "accuracy", 1e-14, eps=eps, max_size=ms)
            t.check(b.sve_result is r and b.kernel is K, "result and kernel kept")


@case
def constructed_directly(t):
    """without precomputed expansion"""
    for stat in 'FB':
        b = sparse_ir.FiniteTempBasis(stat, 4., 2.5, 1e-7)
        r = sve(10., eps=1e-7)
        n = int((r.s >= 1e-7 * r.s[0]).sum())
        t.check(b.size == n, "size", got=b.size, expected=n)
        t.close(b.s, np.sqrt(5.) * r.s[:n], "values", 1e-12)
        tau = np.linspace(0, 4, 7)
        t.close(b.u(tau), np.sqrt(.5) * r.u(tau / 2 - 1)[:n], "functions", 1e-9, 1e-10)
        t.check(isinstance(b.kernel, kernel.LogisticKernel) and b.kernel.lambda_ == 10., "kernel")
    b = sparse_ir.FiniteTempBasis('B', 4., 2.5, 1e-6, kernel=kernel.RegularizedBoseKernel(10.))
    r = sve(10., 'bose', 1e-6)
    t.close(b.s, np.sqrt(5.) / 2.5 * r.s[:b.size], "bosonic values", 1e-12)
    b = sparse_ir.FiniteTempBasis('F', 4, 2, 1e-6)
    t.close(b.u(2.) * 1., sparse_ir.FiniteTempBasis('F', 4., 2., 1e-6).u(2.), "integer parameters",
            1e-14)


@case
def rejected(t):
    r = sve(10., eps=1e-6)
    for beta in (0, -1, -1e-9, np.nan):
        t.raises(ValueError, lambda: sparse_ir.FiniteTempBasis('F', beta, 1., sve_result=r),
                 "beta", beta=beta)
    for wmax in (-1, -1e-9, np.nan):
        t.raises(ValueError, lambda: sparse_ir.FiniteTempBasis('F', 1., wmax, sve_result=r),
                 "wmax", wmax=wmax)
    for stat in ('X', 'f', 'b', '', 'FB', 'BF', None, 1):
        t.raises((ValueError, TypeError), lambda: sparse_ir.FiniteTempBasis(stat, 1., 10.,
                                                                            sve_result=r),
                 "statistics", stat=stat)
    for lam in (10.1, 9.9, 1., 100., 10 * (1 + 1e-12)):
        for cls in (kernel.LogisticKernel, kernel.RegularizedBoseKernel):
            t.raises(ValueError, lambda: sparse_ir.FiniteTempBasis('B', 1., 10., kernel=cls(lam),
                                                                   sve_result=r),
                     "kernel with another Lambda", lam=lam)
    for cls in (kernel.LogisticKernel, kernel.RegularizedBoseKernel):
        for stat in ('X', 'f', 'FB', ''):
            t.raises((ValueError, TypeError), lambda: cls(1.).weight_func(stat), "weight", stat=stat)
