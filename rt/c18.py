import warnings
import numpy as np
from harness import case, THOROUGH
from ref import basis, pw_eval, ft_ref
import sparse_ir
from sparse_ir import sampling

CFG = [('F', 1., 10., 'logistic'), ('B', 3., 14., 'logistic'), ('B', 2., 5., 'bose')]


def ref_tau(b, tau):
    return pw_eval(b.u.data, b.u.knots, np.atleast_1d(tau)).T


def ref_mats(b, n):
    return b.uhat(np.asarray(n)).T


def samplings(t):
    for cfg in CFG:
        b = basis(cfg[0], cfg[1], cfg[2], kind=cfg[3])
        z = int(cfg[0] == 'F')
        yield 'tau default', b, sparse_ir.TauSampling(b), None
        tau = np.r_[.9, .1, .5, .5, 0., 1.] * b.beta
        yield 'tau unsorted', b, sparse_ir.TauSampling(b, tau), tau
        yield 'tau list', b, sparse_ir.TauSampling(b, tau.tolist()), tau
        yield 'tau single', b, sparse_ir.TauSampling(b, [b.beta / 3]), np.array([b.beta / 3])
        yield 'freq default', b, sparse_ir.MatsubaraSampling(b), None
        yield 'freq positive', b, sparse_ir.MatsubaraSampling(b, positive_only=True), None
        n = 2 * np.array([5, -3, 0, 100, 0, -7]) + z
        yield 'freq unsorted', b, sparse_ir.MatsubaraSampling(b, n), n
        yield 'freq list', b, sparse_ir.MatsubaraSampling(b, n.tolist()), n
        n = 2 * np.array([5, 3, 0, 100, 1]) + z
        yield 'freq positive unsorted', b, sparse_ir.MatsubaraSampling(
            b, n, positive_only=True), n
        n = 2 * np.array([2, 7]) + z
        yield 'freq positive without zero', b, sparse_ir.MatsubaraSampling(
            b, n, positive_only=True), n


def matrix(b, s):
    if isinstance(s, sparse_ir.TauSampling):
        return ref_tau(b, s.sampling_points)
    return ref_mats(b, s.sampling_points)


@case
def points_reported(t):
    for name, b, s, pts in samplings(t):
        if pts is not None:
            t.equal(s.sampling_points, pts, "points as given", name=name)
        elif isinstance(s, sparse_ir.TauSampling):
            t.equal(s.sampling_points, b.default_tau_sampling_points(), "default", name=name)
        else:
            t.equal(s.sampling_points, b.default_matsubara_sampling_points(
                positive_only=s.positive_only), "default", name=name)
        w = s.tau if isinstance(s, sparse_ir.TauSampling) else s.wn
        t.equal(w, s.sampling_points, "alias", name=name)
        t.check(s.basis is b, "basis", name=name)
        A = matrix(b, s)
        t.close(s.matrix.a, A, "matrix", 1e-10, 1e-10 * np.abs(A).max(), name=name)
        t.equal(np.asarray(s.matrix), s.matrix.a, "as array", name=name)


SHAPES = [(0,), (0, 3), (3, 0), (0, 1), (2, 0, 3), (2, 3, 0), (0, 2, 3), (2, 1, 0, 3), (1, 2, 3, 0),
          (0, 2, 1, 3)]


def along(A, x, axis):
    return np.moveaxis(np.tensordot(A, x, (1, axis)), 0, axis)


@case
def evaluation(t):
    for name, b, s, pts in samplings(t):
        A = s.matrix.a
        pos = 'positive' in name
        for shp in SHAPES:
            ax = [k for k, q in enumerate(shp) if q == 0][0]
            shape = tuple(b.size if q == 0 else q for q in shp)
            x = t.rng.randn(*shape)
            for a in ((x,) if pos else (x, x + 1j * t.rng.randn(*shape), x.astype(np.float32))):
                for axis in (ax, ax - len(shp)):
                    y = t.attempt(lambda: s.evaluate(a, axis), "evaluate", name=name, axis=axis,
                                  shape=shape)
                    if y is None:
                        continue
                    e = along(A, np.asarray(a, complex if np.iscomplexobj(a) else float), axis)
                    t.close(y, e, "sum over l", 1e-10, 1e-11 * np.abs(e).max() if a.dtype !=
                            np.float32 else 1e-5 * np.abs(e).max(), name=name, axis=axis,
                            shape=shape)
                y2 = s.evaluate(a, axis=ax)
                t.equal(y2, s.evaluate(a, ax), "keyword", name=name)
        # default axis: vectors
        x = t.rng.randn(b.size)
        t.close(s.evaluate(x), A @ x, "vector without axis", 1e-10, 1e-11, name=name)
        x = t.rng.randn(b.size)
        xc = x.copy()
        s.evaluate(x, 0)
        t.equal(x, xc, "argument unchanged", name=name)
        s.evaluate(x.tolist(), 0)


@case
def square_axes(t):
    """every axis as long as the basis: the axis must not be mixed up"""
    b = basis('F', 1., 1.)
    L = b.size
    for s in (sparse_ir.TauSampling(b), sparse_ir.MatsubaraSampling(b)):
        for rank in (2, 3, 4):
            x = t.rng.randn(*(L,) * rank)
            for axis in range(-rank, rank):
                e = along(s.matrix.a, x, axis)
                t.close(s.evaluate(x, axis), e, "right axis", 1e-10, 1e-11 * np.abs(e).max(),
                        axis=axis, rank=rank)


@case
def special_inputs(t):
    b = basis('F', 1., 10.)
    L = b.size
    s = sparse_ir.TauSampling(b)
    A = s.matrix.a
    x = np.asfortranarray(t.rng.randn(L, 3))
    t.close(s.evaluate(x, 0), A @ x, "Fortran order", 1e-11, 1e-12)
    x = t.rng.randn(3, 2 * L)[:, ::2]
    t.close(s.evaluate(x, 1), x @ A.T, "strided", 1e-11, 1e-12)
    x = t.rng.randn(L, 0)
    t.check(s.evaluate(x, 0).shape == (A.shape[0], 0), "empty")
    x = np.arange(L)
    t.close(s.evaluate(x, 0), A @ x, "integers", 1e-11, 1e-12)
    for l in range(L):
        e = np.zeros(L)
        e[l] = 1
        t.equal(s.evaluate(e, 0), A[:, l], "single function", l=l)


@case
def wrong_length(t):
    for name, b, s, pts in samplings(t):
        for shape, axis in (((b.size + 1,), 0), ((b.size - 1,), 0), ((1,), 0), ((0,), 0),
                            ((b.size, b.size + 2), 1), ((b.size + 2, b.size), 0),
                            ((b.size + 2, b.size), -2), ((2, b.size, 3), 2), ((2, b.size, 3), 0)):
            t.raises(ValueError, lambda: s.evaluate(np.ones(shape), axis), "wrong length",
                     name=name, shape=shape, axis=axis)
        t.raises((ValueError, IndexError), lambda: s.evaluate(np.ones(b.size), 1), "no such axis",
                 name=name)
        t.raises((ValueError, IndexError), lambda: s.evaluate(np.ones((b.size, 2)), -3),
                 "no such axis", name=name)


@case
def other_points(t):
    for name, b, s, pts in samplings(t):
        z = int(b.statistics == 'F')
        if isinstance(s, sparse_ir.TauSampling):
            p = np.array([.3, .1, .77]) * b.beta
            A = ref_tau(b, p)
        else:
            p = 2 * np.array([4, 0, 9]) + z
            A = ref_mats(b, p)
        before = s.sampling_points.copy()
        for shape, axis in (((b.size,), 0), ((b.size, 2), 0), ((3, b.size), -1), ((2, b.size, 3), 1)):
            x = t.rng.randn(*shape)
            y = t.attempt(lambda: s.evaluate(x, axis, points=p), "points", name=name)
            if y is None:
                continue
            e = along(A, x, axis)
            t.close(y, e, "at the given points", 1e-10, 1e-11 * np.abs(e).max(), name=name)
            t.close(s.evaluate(x, axis, points=p.tolist()), e, "list of points", 1e-10,
                    1e-11 * np.abs(e).max(), name=name)
        t.equal(s.sampling_points, before, "object unchanged", name=name)
        x = t.rng.randn(b.size)
        t.close(s.evaluate(x), s.matrix.a @ x, "object unchanged", 1e-12, 1e-13, name=name)


@case
def rejected_points(t):
    for cfg in CFG:
        b = basis(cfg[0], cfg[1], cfg[2], kind=cfg[3])
        z = int(cfg[0] == 'F')
        for p in ([[.1, .2]], .5, [-.1], [b.beta * 1.01], [np.nan], [.1, np.inf]):
            t.raises(ValueError, lambda: sparse_ir.TauSampling(b, p), "times", p=p)
        for p in ([[z]], z, [z + 1], [z, z + 2, z + 3], [z + .5]):
            for pos in (False, True):
                t.raises(ValueError, lambda: sparse_ir.MatsubaraSampling(b, p, positive_only=pos),
                         "frequencies", p=p)
        for p in ([z, -2 + z], [-z - 2], [4 + z, -4 + z]):
            t.raises(ValueError, lambda: sparse_ir.MatsubaraSampling(b, p, positive_only=True),
                     "negative frequencies", p=p)


@case
def other_bases(t):
    b = basis('B', 3., 14.)
    from sparse_ir import augment, dlr
    aug = augment.AugmentedBasis(b, augment.TauConst, augment.TauLinear)
    for s, A in ((sparse_ir.TauSampling(aug), None), (sparse_ir.MatsubaraSampling(aug), None)):
        pts = s.sampling_points
        A = (aug.u(pts) if isinstance(s, sparse_ir.TauSampling) else aug.uhat(pts)).T
        x = t.rng.randn(2, aug.size)
        t.close(s.evaluate(x, 1), x @ A.T, "augmented basis", 1e-10, 1e-10)
    d = dlr.DiscreteLehmannRepresentation(basis('F', 1., 10.))
    for s in (sparse_ir.TauSampling(d), sparse_ir.MatsubaraSampling(d)):
        pts = s.sampling_points
        A = (d.u(pts) if isinstance(s, sparse_ir.TauSampling) else d.uhat(pts)).T
        x = t.rng.randn(d.size, 2)
        t.close(s.evaluate(x, 0), A @ x, "DLR", 1e-10, 1e-10)
