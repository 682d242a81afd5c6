import numpy as np
from harness import case, THOROUGH
from ref import sve as get_sve
from sparse_ir import sve, kernel, poly


def blocks(rng, sizes, pool=None):
    u, s, v = [], [], []
    for n in sizes:
        val = np.sort(rng.choice(pool, n) if pool is not None else 10.**rng.uniform(-8, 2, n))[::-1]
        s.append(val.astype(float))
        u.append(rng.randn(7, n))
        v.append(rng.randn(5, n))
    return tuple(u), tuple(s), tuple(v)


def reference(s, rtol, lmax):
    allv = sorted((float(x) for b in s for x in b), reverse=True)
    cut = rtol * allv[0]
    if lmax is not None and lmax < len(allv):
        cut = max(cut, allv[int(lmax)])         # ties with the first omitted value go too
    return [int(sum(x > cut for x in b)) for b in s]


def check(t, u, s, v, rtol, lmax):
    copies = [[a.copy() for a in q] for q in (u, s, v)]
    r = t.attempt(lambda: trunc(t)(u, s, v, rtol, lmax), "truncate", rtol=rtol, lmax=lmax)
    if r is None:
        return
    un, sn, vn = r
    cnt = reference(s, rtol, lmax)
    t.check(len(un) == len(sn) == len(vn) == len(s), "blocks kept")
    for i, c in enumerate(cnt):
        t.equal(sn[i], s[i][:c], "values of the block", rtol=rtol, lmax=lmax, s=s, i=i)
        t.equal(un[i], u[i][:, :c], "left vectors of the block", rtol=rtol, lmax=lmax, i=i)
        t.equal(vn[i], v[i][:, :c], "right vectors of the block", rtol=rtol, lmax=lmax, i=i)
    if lmax is not None:
        t.check(sum(np.size(q) for q in sn) <= lmax, "at most lmax values", lmax=lmax, s=s)
    for q, c in zip((u, s, v), copies):
        for a, b in zip(q, c):
            t.equal(a, b, "arguments unchanged")


def trunc(t):
    return t.private(sve, '_truncate')


@case
def random_blocks(t):
    for trial in range(100 if not THOROUGH else 4000):
        nb = t.rng.randint(1, 4)
        sizes = t.rng.randint(0 if nb > 1 else 1, 6, nb)
        if not sizes.sum():
            continue
        pool = [0., 1e-3, .1, .25, .5, 1., 2., 4.] if trial % 2 else None
        u, s, v = blocks(t.rng, sizes, pool)
        tot = int(sizes.sum())
        for rtol in (0, .125, 1e-3, .5, .25, 1., float(t.rng.rand())):
            for lmax in (None, 0, 1, tot - 1, tot, tot + 3, int(t.rng.randint(0, tot + 1))):
                check(t, u, s, v, rtol, lmax)


@case
def default_arguments(t):
    u, s, v = blocks(t.rng, (4, 3))
    un, sn, vn = trunc(t)(u, s, v)
    for a, b in zip(s, sn):
        t.equal(b, a, "nothing cut without limits")
    s = (np.array([3., 1., 0.]), np.array([2., 0.]))
    u = (t.rng.randn(4, 3), t.rng.randn(4, 2))
    r = trunc(t)(u, s, u)
    t.equal([q.size for q in r[1]], [2, 1], "values that are zero never pass the strict cutoff")


@case
def at_the_cutoff(t):
    """values equal to the cutoff are dropped, neighbours kept"""
    for smax in (1., 2., 3.7, 1e-5):
        for rtol in (.5, .1, 1e-6, 2.2e-16):
            c = rtol * smax
            s = (np.array([smax, np.nextafter(c, 9), c]), np.array([c, np.nextafter(c, 0)]))
            s = tuple(np.sort(q)[::-1] for q in s)
            u = (t.rng.randn(2, 3), t.rng.randn(2, 2))
            check(t, u, s, u, rtol, None)
            check(t, u, s, u, rtol, 2)
            check(t, u, s, u, rtol, 3)


@case
def largest_in_second_block(t):
    s = (np.array([1., .4, .1]), np.array([10., .5]))
    u = (t.rng.randn(2, 3), t.rng.randn(2, 2))
    for rtol in (.05, .04, .1, .01, .2):
        for lmax in (None, 1, 2, 3, 4):
            check(t, u, s, u, rtol, lmax)


@case
def number_types(t):
    u, s, v = blocks(t.rng, (4, 3))
    for lmax in (3, 3., np.int64(3), np.float64(3.)):
        check(t, u, s, v, .0, lmax)
    try:
        from xprec import ddouble
    except ImportError:
        return
    sd = tuple(q.astype(ddouble) for q in s)
    r = trunc(t)(u, sd, v, 1e-3, 4)
    e = reference(s, 1e-3, 4)
    t.equal([q.size for q in r[1]], e, "extended precision values")


@case
def rejected(t):
    u, s, v = blocks(t.rng, (3, 2))
    f = trunc(t)
    for lmax in (-1, 1.5, -.5, 2.0001, -3):
        t.raises(ValueError, lambda: f(u, s, v, 0, lmax), "invalid size", lmax=lmax)
    for rtol in (-1e-9, 1.0001, -1, 2, np.nan, np.inf):
        t.raises(ValueError, lambda: f(u, s, v, rtol), "invalid cutoff", rtol=rtol)
        t.raises(ValueError, lambda: f(u, s, v, rtol, 2), "invalid cutoff", rtol=rtol)
    K = kernel.LogisticKernel(5.)
    for n in (-1, 1.5):
        t.raises(ValueError, lambda: sve.compute(K, 1e-6, n_sv=n), "invalid n_sv", n=n)
    for c in (-.1, 1.1):
        t.raises(ValueError, lambda: sve.compute(K, 1e-6, cutoff=c), "invalid cutoff", c=c)


@case
def through_compute(t):
    for cls in (kernel.LogisticKernel, kernel.RegularizedBoseKernel):
        K = cls(30.)
        full = sve.compute(K, 1e-7, cutoff=1e-12)
        for n in (1, 2, 5, 6, full.s.size, 1000):
            r = sve.compute(K, 1e-7, cutoff=1e-12, n_sv=n)
            k = min(n, full.s.size)
            t.check(r.s.size == k == r.u.size == r.v.size, "n_sv functions", n=n, got=r.s.size)
            t.close(r.s, full.s[:k], "leading values", 1e-9, 1e-14 * full.s[0], n=n)
        for c in (.5, .1, 1e-3, 1e-6):
            r = sve.compute(K, 1e-7, cutoff=c)
            k = int((full.s > c * full.s[0]).sum())
            t.check(r.s.size == k == r.u.size == r.v.size, "cutoff", c=c, got=r.s.size, expected=k)
            r = sve.compute(K, 1e-7, cutoff=c, n_sv=3)
            t.check(r.s.size == min(k, 3), "cutoff and n_sv", c=c)
        for strat in (sve.SamplingSVE, sve.CentrosymmSVE):
            r = sve.compute(K, 1e-7, cutoff=1e-12, n_sv=7, sve_strat=strat)
            t.close(r.s, full.s[:7], "same values for either strategy", 1e-6, 1e-11 * full.s[0])


def fake_result(rng, s, eps=None):
    n = len(s)
    data = rng.randn(3, 2, n)
    p = poly.PiecewiseLegendrePoly(data, [-1., 0., 1.], symm=(-1)**np.arange(n))
    q = poly.PiecewiseLegendrePoly(data[::-1], [-1., 0., 1.], symm=(-1)**np.arange(n))
    return sve.SVEResult(p, np.array(s, float), q, None, eps)


@case
def part(t):
    s = [8., 4., 4., 2., 1., .5, 1e-3]
    for own in (1e-9, .125, .3):
        r = fake_result(t.rng, s, own)
        x = np.array([-.7, .3])
        ux, vx = r.u(x), r.v(x)
        for eps in (None, 0., 1e-9, 1e-3, 1e-3 / 8, .125, np.nextafter(.125, 1),
                    np.nextafter(.125, 0), .25, .5, .5000001, 1., .3):
            for ms in (None, 0, 1, 2, 3, 5, 6, 7, 8, 100, np.int64(4)):
                got = t.attempt(lambda: r.part(eps, ms), "part", eps=eps, max_size=ms)
                if got is None:
                    continue
                u, sv, v = got
                e = own if eps is None else eps
                k = sum(q >= e * s[0] for q in s)
                k = k if ms is None else min(k, int(ms))
                t.equal(sv, s[:k], "leading values at or above the accuracy", eps=eps, max_size=ms)
                t.equal(u(x), ux[:k], "leading left functions", eps=eps, max_size=ms)
                t.equal(v(x), vx[:k], "leading right functions", eps=eps, max_size=ms)
                t.equal(u.symm, r.u.symm[:k], "parity", eps=eps)
        u, sv, v = r.part(max_size=3)
        t.check(sv.size <= 3, "keyword")
        a, b, c = r
        t.check(a is r.u and b is r.s and c is r.v, "iteration gives u, s, v")
        t.equal(r.u(x), ux, "result unchanged")


@case
def part_of_real_result(t):
    r = get_sve(10.)
    for eps in (1e-2, 1e-6, 1e-10):
        for ms in (None, 2, 6):
            u, s, v = r.part(eps, ms)
            k = int((r.s >= eps * r.s[0]).sum())
            k = k if ms is None else min(ms, k)
            t.check(u.size == s.size == v.size == k, "size", eps=eps, ms=ms)
            t.equal(s, r.s[:k], "values")
    u, s, v = r.part()
    k = int((r.s >= r.eps * r.s[0]).sum())
    t.check(s.size == k, "own accuracy", eps=r.eps)
