import warnings
import numpy as np
from harness import case, THOROUGH
from ref import basis
import sparse_ir
from sparse_ir import sampling
from c18 import samplings, SHAPES, along

CFG = [('F', 1., 10., 'logistic'), ('B', 3., 14., 'logistic'), ('B', 2., 5., 'bose')]


def problems(t):
    """overdetermined, full-rank sampling problems"""
    for cfg in CFG:
        b = basis(cfg[0], cfg[1], cfg[2], kind=cfg[3])
        z = int(cfg[0] == 'F')
        L = b.size
        yield 'tau default', b, sparse_ir.TauSampling(b)
        yield 'freq default', b, sparse_ir.MatsubaraSampling(b)
        yield 'positive default', b, sparse_ir.MatsubaraSampling(b, positive_only=True)
        tau = b.beta * t.rng.permutation(np.r_[0, 1, np.sin(np.linspace(.02, 1.55, 3 * L))**2])
        yield 'tau many', b, sparse_ir.TauSampling(b, tau)
        n = b.default_matsubara_sampling_points()
        n = t.rng.permutation(np.unique(np.r_[n, n + 2, n - 2, 2 * np.arange(-5, 5) + z]))
        yield 'freq many', b, sparse_ir.MatsubaraSampling(b, n)
        n = n[n >= 0]
        yield 'positive many', b, sparse_ir.MatsubaraSampling(b, n, positive_only=True)
        yield 'positive sorted', b, sparse_ir.MatsubaraSampling(b, np.sort(n), positive_only=True)
        n = n[n > 1]
        yield 'positive without zero', b, sparse_ir.MatsubaraSampling(b, n, positive_only=True)
        yield 'positive list', b, sparse_ir.MatsubaraSampling(b, n.tolist(), positive_only=True)


def real_form(s):
    A = s.matrix.a
    if getattr(s, 'positive_only', False):
        return np.vstack([A.real, A.imag]), True
    return A, False


def solve(s, y):
    """reference least squares for a matrix of right-hand sides"""
    A, split = real_form(s)
    if split:
        y = np.vstack([y.real, y.imag])
    return np.linalg.lstsq(A, y, rcond=None)[0]


@case
def recovers(t):
    for name, b, s in problems(t):
        pos = getattr(s, 'positive_only', False)
        for shp in SHAPES:
            ax = [k for k, q in enumerate(shp) if q == 0][0]
            shape = tuple(b.size if q == 0 else q for q in shp)
            x = t.rng.randn(*shape)
            if not pos and 'freq' in name:
                x = x + 1j * t.rng.randn(*shape)
            for axis in (ax, ax - len(shp)):
                y = s.evaluate(x, axis)
                r = t.attempt(lambda: s.fit(y, axis), "fit", name=name, axis=axis, shape=shape)
                if r is None:
                    continue
                t.close(r, x, "recovered", 0, 1e-10 * s.cond * np.abs(x).max(), name=name,
                        axis=axis, shape=shape)
                if pos:
                    t.check(not np.iscomplexobj(r), "real coefficients", name=name)
        x = t.rng.randn(b.size)
        t.close(s.fit(s.evaluate(x)), x, "vector without axis", 0, 1e-9 * s.cond, name=name)


@case
def least_squares(t):
    for name, b, s in problems(t):
        m = s.sampling_points.size
        for shp in SHAPES:
            ax = [k for k, q in enumerate(shp) if q == 0][0]
            shape = tuple(m if q == 0 else q for q in shp)
            kinds = [t.rng.randn(*shape), t.rng.randn(*shape) + 1j * t.rng.randn(*shape)]
            for y in kinds:
                r = t.attempt(lambda: s.fit(y, ax), "fit", name=name, shape=shape)
                if r is None:
                    continue
                yy = np.moveaxis(y, ax, 0)
                e = solve(s, yy.reshape(m, -1)).reshape((b.size,) + yy.shape[1:])
                e = np.moveaxis(e, 0, ax)
                if getattr(s, 'positive_only', False):
                    t.check(not np.iscomplexobj(r), "real coefficients", name=name)
                t.close(r, e, "least squares", 0, 1e-9 * s.cond * np.abs(e).max(), name=name,
                        shape=shape, cplx=np.iscomplexobj(y))
        yc = y.copy()
        s.fit(y, ax)
        t.equal(y, yc, "argument unchanged", name=name)
        y = t.rng.randn(m)
        t.close(s.fit(y.tolist()), s.fit(y), "list", 1e-12, 1e-13, name=name)


@case
def non_negative_frequencies(t):
    """the real fit is the fit over both signs for consistent data"""
    for cfg in CFG:
        b = basis(cfg[0], cfg[1], cfg[2], kind=cfg[3])
        p = sparse_ir.MatsubaraSampling(b, positive_only=True)
        n = p.sampling_points
        f = sparse_ir.MatsubaraSampling(b, np.r_[-n[::-1], n] if n[0] else np.r_[-n[:0:-1], n])
        x = t.rng.randn(b.size, 3)
        t.close(p.fit(p.evaluate(x, 0), 0), f.fit(f.evaluate(x, 0), 0), "same coefficients", 0,
                1e-9)
        t.check(p.positive_only is True and f.positive_only is False, "flag")


@case
def decomposition(t):
    for name, b, s in problems(t):
        m = s.matrix
        A = m.a
        sv = np.linalg.svd(real_form(s)[0], compute_uv=False)
        t.close(m.s, sv, "singular values", 1e-9, 1e-12 * sv[0], name=name)
        t.close(s.cond, sv[0] / sv[-1], "condition number", 1e-9, name=name)
        t.close((m.u * m.s) @ m.vH, A, "u s vH = A", 0, 1e-11 * np.abs(A).max(), name=name)
        t.check(s.cond == m.cond, "same condition number", name=name)
        x = t.rng.randn(A.shape[1])
        t.close(m @ x, A @ x, "matmul", 1e-12, 1e-13, name=name)


@case
def rank_deficient(t):
    D = sampling.DecomposedMatrix
    for shape, rank in (((5, 3), 2), ((3, 5), 2), ((4, 4), 1), ((6, 4), 4), ((2, 6), 2)):
        for cplx in (False, True):
            A = t.rng.randn(shape[0], rank) @ t.rng.randn(rank, shape[1])
            if cplx:
                A = A + 1j * t.rng.randn(shape[0], rank) @ t.rng.randn(rank, shape[1])
            u, sv, vH = np.linalg.svd(A, full_matrices=False)
            r = int((sv > 1e-12 * sv[0]).sum())
            sv = np.where(np.arange(sv.size) < r, sv, 0)
            d = D(A, (u, sv, vH))
            t.check(d.s.size == r and d.u.shape == (shape[0], r) and d.vH.shape == (r, shape[1]),
                    "zero singular values removed", shape=shape, rank=rank)
            for y in (t.rng.randn(shape[0]), t.rng.randn(shape[0], 2) + 1j):
                x = d.lstsq(y, 0)
                e = np.linalg.lstsq(A, y.astype(A.dtype) if cplx else y, rcond=1e-10)[0]
                t.close(x, e, "minimum-norm least squares", 0, 1e-9, shape=shape, rank=rank)
                t.close(A.conj().T @ (A @ x - y), np.zeros_like(x), "normal equations", 0, 1e-10,
                        shape=shape)
            t.close(d.cond, sv[0] / sv[r - 1], "condition number of the rest", 1e-9, shape=shape)
    t.check(np.isfinite(D(np.diag([2., 0., 1.])).lstsq(np.ones(3))).all(), "zero column")
    t.close(D(np.diag([2., 0., 1.])).lstsq(np.ones(3)), [.5, 0, 1], "zero column", 1e-14)
    t.raises(ValueError, lambda: D(np.ones(3)), "not a matrix")
    t.raises(ValueError, lambda: D(np.ones((3, 2)), np.linalg.svd(np.ones((2, 3)),
                                                                  full_matrices=False)), "shapes")
    t.raises(ValueError, lambda: D(np.ones((3, 2)), (np.ones((3, 2)), np.ones(1), np.ones((2, 2)))),
             "shapes")


@case
def split_matrices(t):
    S = sampling.SplitDecomposedMatrix
    f = t.private(sampling, '_split_complex')
    for m, L in ((4, 5), (5, 5), (6, 3), (1, 2), (3, 6)):
        for zero in (False, True):
            A = t.rng.randn(m, L) + 1j * t.rng.randn(m, L)
            if zero:
                A[0].imag = 0
            r = t.attempt(lambda: f(A, zero), "split", m=m, L=L, zero=zero)
            if r is None:
                continue
            d = S(A, r)
            R = np.vstack([A.real, A.imag])
            t.close((d.u * d.s) @ d.vH, A, "u s vT = A", 0, 1e-12, m=m, L=L, zero=zero)
            for y in (t.rng.randn(m), t.rng.randn(m, 3) + 1j * t.rng.randn(m, 3),
                      1j * t.rng.randn(m)):
                x = t.attempt(lambda: d.lstsq(y, 0), "lstsq", m=m, L=L)
                if x is None:
                    continue
                e = np.linalg.lstsq(R, np.concatenate([y.real, y.imag]), rcond=None)[0]
                t.check(not np.iscomplexobj(x), "real")
                t.close(x, e, "least squares of both parts", 0, 1e-9, m=m, L=L, zero=zero)
    A = t.rng.randn(3, 2) + 0j
    t.raises(ValueError, lambda: f(A.real), "real matrix")
    u, s, v = np.linalg.svd(A, full_matrices=False)
    t.raises(ValueError, lambda: S(A, (u, s, v + 0j)), "complex right factor")
    t.raises(ValueError, lambda: S(A, (u.real, s, v.real)), "real left factor")


@case
def warns_when_badly_conditioned(t):
    b = basis('F', 1., 10.)
    L = b.size

    def warned(f):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            f()
        return any(issubclass(q.category, sampling.ConditioningWarning) for q in w)
    tau = .5 + 1e-6 * np.arange(L)
    s = sparse_ir.TauSampling(b, tau)
    t.check(not (s.cond <= 1e8), "badly conditioned example", cond=s.cond)
    t.check(warned(lambda: s.fit(np.ones(L))), "warning")
    t.check(warned(lambda: s.fit(np.ones((2, L)), 1)), "warning along an axis")
    t.check(warned(lambda: sparse_ir.TauSampling(b).fit(np.ones(L), points=tau)), "given points")
    n = 2 * np.arange(L + 2) + 1
    s = sparse_ir.MatsubaraSampling(b, n + 10**6, positive_only=True)
    t.check(not (s.cond <= 1e8), "badly conditioned example", cond=s.cond)
    t.check(warned(lambda: s.fit(np.ones(n.size))), "warning")
    for name, bb, s in problems(t):
        t.check(not warned(lambda: s.fit(np.ones(s.sampling_points.size), 0)), "no warning",
                name=name)
        t.check(not warned(lambda: s.evaluate(np.ones(bb.size), 0)), "no warning", name=name)


@case
def wrong_length(t):
    for name, b, s in problems(t):
        m = s.sampling_points.size
        for shape, axis in (((m + 1,), 0), ((m - 1,), 0), ((0,), 0), ((m, m + 1), 1),
                            ((m + 1, m), 0), ((2, m, 3), 2)):
            t.raises(ValueError, lambda: s.fit(np.ones(shape), axis), "wrong length", name=name,
                     shape=shape, axis=axis)


@case
def other_points(t):
    for name, b, s in problems(t):
        z = int(b.statistics == 'F')
        if isinstance(s, sparse_ir.TauSampling):
            p = b.beta * np.sin(np.linspace(1.5, .05, 2 * b.size))**2
        else:
            p = b.default_matsubara_sampling_points(
                npoints=b.size + 4, positive_only=s.positive_only)[::-1]
        q = type(s)(b, p, **({} if isinstance(s, sparse_ir.TauSampling) else
                             dict(positive_only=s.positive_only)))
        for shape, axis in (((p.size,), 0), ((2, p.size), 1), ((2, p.size, 3), -2)):
            y = t.rng.randn(*shape) * (1. if isinstance(s, sparse_ir.TauSampling) else 1 + .5j)
            r = t.attempt(lambda: s.fit(y, axis, points=p), "points", name=name)
            if r is None:
                continue
            yy = np.moveaxis(y, axis, 0)
            e = solve(q, yy.reshape(p.size, -1)).reshape((b.size,) + yy.shape[1:])
            t.close(r, np.moveaxis(e, 0, axis), "fit at the given points", 0,
                    1e-9 * q.cond * np.abs(e).max(), name=name)
            t.close(s.fit(y, axis, points=p.tolist()), r, "list", 1e-12, 1e-13, name=name)
