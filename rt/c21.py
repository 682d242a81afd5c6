import numpy as np
from harness import case, THOROUGH
from ref import basis
import sparse_ir
from sparse_ir import augment
from sparse_ir.augment import AugmentedBasis, TauConst, TauLinear, MatsubaraConst

CFG = [('F', 1., 10.), ('B', 1., 10.), ('B', 7., 6.), ('B', 100., .42), ('F', 100., .42)]
COMBOS = {'B': [(TauConst, TauLinear), (TauConst,), (TauLinear,), (MatsubaraConst,), (),
                (MatsubaraConst, TauLinear, TauConst), (TauLinear, TauConst)],
          'F': [(MatsubaraConst,), ()]}


def tau_ref(cls, beta, tau):
    tau = np.asarray(tau, float)
    if cls is TauConst:
        return np.full(tau.shape, 1 / np.sqrt(beta))
    if cls is TauLinear:
        return np.sqrt(3 / beta) * (2 / beta * tau - 1)
    return np.full(tau.shape, np.nan)


def hat_ref(cls, beta, n):
    n = np.asarray(n)
    if cls is TauConst:
        return np.where(n == 0, np.sqrt(beta), 0) + 0j
    if cls is TauLinear:
        with np.errstate(all='ignore'):
            return np.where(n == 0, 0, np.sqrt(3 / beta) * 2 * beta / (1j * np.pi * n))
    return np.ones(n.shape) + 0j


def cases():
    for stat, beta, wmax in CFG:
        b = basis(stat, beta, wmax)
        for combo in COMBOS[stat]:
            for inst in (False, True):
                if inst and not combo:
                    continue
                a = AugmentedBasis(b, *([c(beta) for c in combo] if inst else combo))
                yield a, b, combo, dict(stat=stat, beta=beta, combo=[c.__name__ for c in combo],
                                        inst=inst)


def same(t, got, e, msg, scale=1., **c):
    got, e = np.asarray(got), np.asarray(e)
    if t.check(got.shape == e.shape, msg + " shape", got=got.shape, expected=e.shape, **c):
        t.equal(np.isnan(got), np.isnan(e), msg + " (undefined ones)", **c)
        t.close(np.nan_to_num(got), np.nan_to_num(e), msg, 1e-12, 1e-13 * scale, **c)


@case
def time_functions(t):
    for a, b, combo, c in cases():
        beta = b.beta
        tau = beta * np.array([[0., .2, .5], [.71, .999, 1.]])
        for x in (tau, tau[0], tau[0, 1], float(tau[1, 1]), 0, tau[:, :0], [0., beta]):
            r = t.attempt(lambda: a.u(x), "u", x=x, **c)
            if r is None:
                continue
            bx = b.u(x)
            e = np.concatenate([tau_ref(q, beta, x)[None] for q in combo] + [bx])
            same(t, r, e, "augmentations in order, then the basis", x=x, **c)
        for bad in (-1e-9, beta * 1.0001, np.nan):
            t.raises(ValueError, lambda: a.u(bad), "outside", bad=bad, **c)


@case
def frequency_functions(t):
    for a, b, combo, c in cases():
        beta, z = b.beta, int(b.statistics == 'F')
        n = 2 * np.array([[-3, 0, 1], [500, -40000, -1]]) + z
        for x in (n, n[0], int(n[0, 1]), int(n[0, 0]), n[0, 2], n[:, :0], n[0].astype(float),
                  n[0].tolist()):
            r = t.attempt(lambda: a.uhat(x), "uhat", x=x, **c)
            if r is None:
                continue
            e = np.concatenate([hat_ref(q, beta, np.asarray(x))[None] for q in combo] + [b.uhat(x)])
            same(t, r, e, "augmentations in order, then the basis", np.sqrt(beta), x=x, **c)
        nc = n.copy()
        a.uhat(n)
        t.equal(n, nc, "argument unchanged", **c)
        for bad in (z + 1, z + .5, [z, z + 1]):
            t.raises(ValueError, lambda: a.uhat(bad), "wrong frequency", bad=bad, **c)


@case
def transforms(t):
    """frequency functions are the transforms of the time functions"""
    x, w = np.polynomial.legendre.leggauss(60)
    for beta in (.3, 1., 50.):
        for cls in (TauConst, TauLinear):
            f = cls(beta)
            tau = beta / 2 * (x + 1)
            for n in (0, 2, -2, 8, -14, 20):
                e = (f(tau) * np.exp(1j * np.pi * n * tau / beta) * w).sum() * beta / 2
                t.close(f.hat(n), e, "transform", 1e-10, 1e-12 * np.sqrt(beta), n=n,
                        cls=cls.__name__)
            t.close((f(tau)**2 * w).sum() * beta / 2, 1., "normalised", 1e-12)
        f = MatsubaraConst(beta)
        for n in (0, 1, -1, 2, -7, 10**6):
            t.close(f.hat(n), 1., "constant", 0, n=n)
        t.check(np.isnan(f(.2 * beta)), "undefined in time")


@case
def derivatives(t):
    for a, b, combo, c in cases():
        beta = b.beta
        tau = beta * np.array([.1, .5, .83])
        for n in (0, 1, 2, 3):
            d = t.attempt(lambda: a.u.deriv(n), "deriv", n=n, **c)
            if d is None:
                continue
            e = []
            for q in combo:
                if q is MatsubaraConst:
                    e.append(np.full(3, np.nan))
                elif n == 0:
                    e.append(tau_ref(q, beta, tau))
                elif n == 1 and q is TauLinear:
                    e.append(np.full(3, np.sqrt(3 / beta) * 2 / beta))
                else:
                    e.append(np.zeros(3))
            e = np.concatenate([np.reshape(e, (-1, 3)), b.u.deriv(n)(tau)])
            same(t, d(tau), e, "derivative", n=n, **c)
            same(t, d(float(tau[1])), e[:, 1], "derivative at a scalar", n=n, **c)


@case
def selection(t):
    for a, b, combo, c in cases():
        tau = b.beta * np.array([.1, .4, .9])
        n = 2 * np.array([-3, 0, 4]) + int(b.statistics == 'F')
        na = len(combo)
        u, uh = a.u(tau), a.uhat(n)
        for k in (na + 1, na + 2, a.size - 1, a.size, a.size + 3):
            for sl in (slice(k), slice(0, k)):
                q = t.attempt(lambda: a[sl], "truncated", k0=k, **c)
                if q is None:
                    continue
                m = min(k, a.size)
                t.check(q.size == m, "size", got=q.size, expected=m, **c)
                same(t, q.u(tau), u[:m], "leading functions", k0=k, **c)
                same(t, q.uhat(n), uh[:m], "leading transforms", k0=k, **c)
                t.check(q.significance.shape == (m,), "significance", **c)
                same(t, a.u[sl](tau), u[:m], "functions alone", k0=k, **c)
                same(t, a.uhat[sl](n), uh[:m], "transforms alone", k0=k, **c)
        q = a[:-1]
        t.check(q.size == a.size - 1, "negative stop", **c)
        for k in range(1, na + 1):
            t.raises((ValueError, NotImplementedError), lambda: a[:k], "only augmentation", k0=k,
                     **c)
        for ix in (slice(1, None), slice(None, None, 2), 0, [0, 1], slice(2, 5)):
            t.raises(ValueError, lambda: a[ix], "not leading", ix=ix, **c)
        for l in (0, na, a.size - 1, -1, -a.size):
            f = t.attempt(lambda: a.u[l], "single function", l=l, **c)
            if f is not None:
                same(t, f(tau), u[l], "single function", l=l, **c)
            f = t.attempt(lambda: a.uhat[l], "single transform", l=l, **c)
            if f is not None:
                same(t, f(n), uh[l], "single transform", l=l, **c)
        for l in (a.size, -a.size - 1):
            t.raises(IndexError, lambda: a.u[l], "no such function", l=l, **c)
        t.check(a.size == na + b.size, "unchanged", **c)
        same(t, a.u(tau), u, "unchanged", **c)


@case
def attributes(t):
    for a, b, combo, c in cases():
        na = len(combo)
        t.check(a.size == na + b.size and a.shape == (a.size,), "size", **c)
        t.check(a.u.shape == a.shape and a.uhat.shape == a.shape, "shapes", **c)
        t.check(a.u.size == a.size and a.uhat.size == a.size and a.u.ndim == 1, "sizes", **c)
        t.check((a.beta, a.wmax, a.lambda_, a.statistics) ==
                (b.beta, b.wmax, b.lambda_, b.statistics), "parameters", **c)
        t.equal(a.significance, np.r_[np.ones(na), b.significance], "significance", **c)
        t.check(a.accuracy == b.accuracy, "accuracy", **c)
        t.check((a.u.xmin, a.u.xmax) == (b.u.xmin, b.u.xmax), "interval", **c)
        t.check(a.uhat.zeta == b.uhat.zeta, "statistics", **c)
        wc = list(combo) == [MatsubaraConst]
        t.check(bool(a.is_well_conditioned) == wc, "conditioning", **c)
        t.equal(a.default_tau_sampling_points(), b.default_tau_sampling_points(npoints=a.size),
                "times", **c)
        for pos in (False, True):
            t.equal(a.default_matsubara_sampling_points(positive_only=pos),
                    b.default_matsubara_sampling_points(npoints=a.size, positive_only=pos),
                    "frequencies", **c)
        t.equal(a.default_tau_sampling_points(npoints=3),
                b.default_tau_sampling_points(npoints=3), "times", **c)


@case
def rejected(t):
    b = basis('F', 1., 10.)
    for cls in (TauConst, TauLinear):
        t.raises(ValueError, lambda: AugmentedBasis(b, cls), "bosonic only", cls=cls.__name__)
        t.raises(ValueError, lambda: AugmentedBasis(b, MatsubaraConst, cls), "bosonic only")
    for cls in (TauConst, TauLinear, MatsubaraConst):
        for beta in (0, -1.):
            t.raises(ValueError, lambda: cls(beta), "temperature", beta=beta)
        f = cls(2.)
        for bad in (-.1, 2.1, np.nan, [0., 3.]):
            t.raises(ValueError, lambda: f(bad), "outside", bad=bad)
    for cls in (TauConst, TauLinear):
        for bad in (1, -1, [0, 1], .5):
            t.raises(ValueError, lambda: cls(1.).hat(bad), "fermionic frequency", bad=bad)


@case
def nested(t):
    """augmenting an augmented basis"""
    b = basis('B', 1., 10.)
    a = AugmentedBasis(AugmentedBasis(b, TauConst), TauLinear)
    c = AugmentedBasis(b, TauLinear, TauConst)
    tau = np.array([.1, .6])
    t.close(a.u(tau), c.u(tau), "same functions", 1e-13)
    t.close(a.uhat([0, 2]), c.uhat([0, 2]), "same transforms", 1e-13)
    t.check(a.size == c.size and a.statistics == 'B', "same size")
