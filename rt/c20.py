import numpy as np
from harness import case, THOROUGH
from ref import basis, mpm
import sparse_ir
from sparse_ir import kernel, dlr

CFG = [('F', 1., 10.), ('B', 1., 10.), ('F', 7., 6.), ('B', 7., 6.), ('F', 100., .42),
       ('B', 100., .42), ('B', 1e-3, 1e4)]
POLES = [lambda w: w * np.array([-1., -.3, .2, .9]), lambda w: w * np.array([.5]),
         lambda w: w * np.array([0., .3, -.7]), lambda w: np.array([0.]),
         lambda w: w * np.array([.9, -.2, 0., -1., 1e-9]), lambda w: w * np.array([-.4, -.1]),
         lambda w: w * np.array([1e-5, -1e-5])]


def cases(t):
    for stat, beta, wmax in CFG:
        b = basis(stat, beta, wmax)
        for k, P in enumerate(POLES):
            p = P(wmax)
            d = t.attempt(lambda: dlr.DiscreteLehmannRepresentation(b, p), "constructor", stat=stat,
                          poles=p)
            if d is not None:
                yield d, b, stat, beta, p, dict(stat=stat, beta=beta, k=k)
        d = dlr.DiscreteLehmannRepresentation(b)
        yield d, b, stat, beta, d.sampling_points, dict(stat=stat, beta=beta, k='default')


def u_ref(beta, pole, tau):
    """-K(tau, pole)"""
    z = beta * pole
    return -np.exp(-tau * pole - np.logaddexp(0, -z))


@case
def time_functions(t):
    for d, b, stat, beta, p, c in cases(t):
        tau = beta * np.array([0., 1e-8, .1, .35, .5, .8, 1 - 1e-9, 1.])
        u = t.attempt(lambda: d.u(tau), "u", **c)
        if u is None:
            continue
        e = np.array([u_ref(beta, q, tau) for q in p])
        t.close(u, e, "minus kernel at the pole", 1e-11, 1e-13, **c)
        for k in (0, 3, 7):
            r = d.u(float(tau[k]))
            t.close(r, e[:, k], "scalar", 1e-11, 1e-13, **c)
        r = d.u(tau[:6].reshape(2, 3))
        t.close(r, e[:, :6].reshape(-1, 2, 3), "array", 1e-11, 1e-13, **c)
        t.check(d.u(np.zeros((0,))).shape == (p.size, 0), "empty", **c)
        for bad in (-1e-9, beta * (1 + 1e-9), [0., -1.], [beta, 2 * beta]):
            t.raises(Exception, lambda: d.u(bad), "outside the interval", bad=bad, **c)


@case
def frequency_functions(t):
    for d, b, stat, beta, p, c in cases(t):
        z = int(stat == 'F')
        n = 2 * np.array([-1000, -3, -1, 0, 1, 2, 50]) + z
        r = t.attempt(lambda: d.uhat(n), "uhat", **c)
        if r is None:
            continue
        e = np.empty((p.size, n.size), complex)
        for i, q in enumerate(p):
            for j, nn in enumerate(n):
                w = 1. if stat == 'F' else np.tanh(.5 * beta * q)
                den = 1j * np.pi * nn / beta - q
                e[i, j] = w / den if den != 0 else -.5 * beta
        t.close(r, e, "weight / (iw - pole)", 1e-13, **c)
        for k in range(n.size):
            t.close(d.uhat(int(n[k])), e[:, k], "scalar", 1e-13, n=n[k], **c)
        t.close(d.uhat(n[:6].reshape(3, 2)), e[:, :6].reshape(-1, 3, 2), "array", 1e-13, **c)
        t.close(d.uhat(n.astype(float)), e, "integral floats", 1e-13, **c)
        t.close(d.uhat(-n), e.conj(), "conjugate at -n", 1e-13, **c)
        for bad in (z + 1, [z, z + 1], z + .5, np.array([z, 3 + z])):
            t.raises(ValueError, lambda: d.uhat(bad), "wrong frequency", bad=bad, **c)
        # near-zero poles: continuous at zero frequency
        if stat == 'B':
            q = dlr.DiscreteLehmannRepresentation(b, np.array([1e-13, 0., -1e-13]) / beta)
            t.close(q.uhat(0), np.full(3, -.5 * beta), "finite limit", 1e-9, **c)


@case
def transform_of_each_other(t):
    xw, ww = np.polynomial.legendre.leggauss(40)
    for d, b, stat, beta, p, c in cases(t):
        z = int(stat == 'F')
        n = 2 * np.array([-4, -1, 0, 1, 3]) + z
        # panels refined at both ends
        ed = np.r_[0, 2.**-np.arange(14, 0, -1)]
        ed = np.unique(np.r_[ed, 1 - ed]) * beta
        acc = 0
        for a, q in zip(ed[:-1], ed[1:]):
            tau = (a + q) / 2 + (q - a) / 2 * xw
            ph = np.exp(1j * np.pi * n[:, None] * tau / beta)
            acc = acc + (d.u(tau)[:, None, :] * ph * ww).sum(-1) * (q - a) / 2
        r = d.uhat(n)
        t.close(r, acc, "Fourier transform", 1e-9, 1e-10 * np.abs(r).max(), **c)


@case
def attributes(t):
    for d, b, stat, beta, p, c in cases(t):
        t.check(d.size == p.size and d.shape == (p.size,), "size", **c)
        t.equal(d.sampling_points, p, "poles", **c)
        t.check((d.beta, d.wmax, d.statistics, d.lambda_) == (b.beta, b.wmax, stat, b.lambda_),
                "parameters", **c)
        t.check(d.basis is b and d.accuracy == b.accuracy, "basis", **c)
        t.equal(d.significance, np.ones(p.size), "significance", **c)
        t.check(not d.is_well_conditioned, "conditioning", **c)
        t.equal(d.default_tau_sampling_points(), b.default_tau_sampling_points(), "times", **c)
        t.equal(d.default_tau_sampling_points(npoints=3), b.default_tau_sampling_points(npoints=3),
                "times", **c)
        t.equal(d.default_matsubara_sampling_points(positive_only=True),
                b.default_matsubara_sampling_points(positive_only=True), "frequencies", **c)
        t.equal(d.default_matsubara_sampling_points(npoints=4),
                b.default_matsubara_sampling_points(npoints=4), "frequencies", **c)


@case
def conversion(t):
    for d, b, stat, beta, p, c in cases(t):
        M = -b.s[:, None] * b.v(p)
        for shape, axis in (((p.size,), 0), ((p.size, 3), 0), ((2, p.size), 1), ((2, p.size), -1),
                            ((2, p.size, 3), 1), ((3, 2, p.size), -1)):
            g = t.rng.randn(*shape)
            r = t.attempt(lambda: d.to_IR(g, axis), "to_IR", axis=axis, **c)
            if r is None:
                continue
            e = np.moveaxis(np.tensordot(M, g, (1, axis)), 0, axis)
            t.close(r, e, "coefficients -s v(pole)", 1e-10, 1e-11 * np.abs(e).max(), axis=axis, **c)
        g = t.rng.randn(p.size)
        t.close(d.to_IR(g), M @ g, "default axis", 1e-10, 1e-11 * np.abs(M).max(), **c)
        # evaluated on either side
        tau = beta * np.array([0, .01, .3, .77, 1.])
        gl = d.to_IR(g)
        t.close(gl @ b.u(tau), g @ d.u(tau), "same function of time", 0,
                3e-5 * np.abs(g).max() * p.size, **c)
        n = 2 * np.array([-5, 0, 3]) + int(stat == 'F')
        t.close(gl @ b.uhat(n), g @ d.uhat(n), "same function of frequency", 0,
                3e-5 * beta * np.abs(g).max() * p.size, **c)


@case
def back_and_forth(t):
    for stat, beta, wmax in CFG:
        b = basis(stat, beta, wmax)
        d = dlr.DiscreteLehmannRepresentation(b)
        # coefficients of a physical function
        rho = t.rng.rand(6) - .3
        pole = wmax * (2 * t.rng.rand(6) - 1)
        gl = -(b.s[:, None] * b.v(pole)) @ rho
        for shape, axis in (((), 0), ((3,), 0), ((3,), 1), ((3,), -1), ((2, 3), 1), ((2, 3), -1)):
            f = t.rng.randn(*shape)
            x = np.moveaxis(np.multiply.outer(gl, f), 0, axis)
            g = t.attempt(lambda: d.from_IR(x, axis), "from_IR", shape=shape, axis=axis)
            if g is None:
                continue
            t.check(g.shape[axis] == d.size, "length", axis=axis)
            t.close(d.to_IR(g, axis), x, "back and forth", 0, 1e-8 * np.abs(x).max(), axis=axis,
                    stat=stat)
        g = d.from_IR(gl)
        tau = beta * np.array([0, 1e-3, .3, .77, 1.])
        t.close(g @ d.u(tau), gl @ b.u(tau), "same function of time", 0, 1e-5, stat=stat, beta=beta)
        n = 2 * np.array([-50, -5, 0, 3]) + int(stat == 'F')
        t.close(g @ d.uhat(n), gl @ b.uhat(n), "same function of frequency", 0, 1e-5 * beta,
                stat=stat, beta=beta)


@case
def rejected(t):
    b = basis('B', 2., 5., kind='bose')
    t.raises(ValueError, lambda: dlr.DiscreteLehmannRepresentation(b), "bosonic kernel")
    b = basis('F', 1., 10.)
    for p in ([10.1], [-11., 0.], [np.nan]):
        t.raises(ValueError, lambda: dlr.DiscreteLehmannRepresentation(b, np.array(p)),
                 "poles outside", p=p)


@case
def single_functions(t):
    """functions constructed directly"""
    for beta in (.5, 3., 80.):
        for p in ([1., -2.], [0., 0.], [3.]):
            p = np.array(p)
            u = dlr.TauPoles('F', beta, p)
            tau = beta * np.array([0., .2, .9, 1.])
            t.close(u(tau), np.array([u_ref(beta, q, tau) for q in p]), "time", 1e-11, 1e-13)
            for stat in 'FB':
                z = int(stat == 'F')
                h = dlr.MatsubaraPoles(stat, beta, p)
                n = np.array([-6, 0, 4]) + z
                q0 = p.copy()
                r = h(n)
                p *= 2
                t.equal(h(n), r, "poles are copied")
                p[:] = q0
