import numpy as np
from harness import case, THOROUGH
from ref import basis, sve
from sparse_ir import _roots, poly


def oracle_check(t, f, g, **inp):
    g = np.asarray(g)
    g0, fx = g.copy(), np.asarray(f(g), float)
    r = t.attempt(lambda: _roots.discrete_extrema(f, g), "search", g=g, **inp)
    if r is None:
        return
    r = np.asarray(r)
    t.equal(g, g0, "grid unchanged")
    d = np.signbit(fx[1:] - fx[:-1])
    cells = [i for i in range(len(g) - 2) if d[i] != d[i + 1]]
    a = np.abs(fx)
    left = a[0] > a[1] or np.signbit(fx[0]) != np.signbit(fx[1])
    right = a[-1] > a[-2] or np.signbit(fx[-1]) != np.signbit(fx[-2])
    n = len(cells) + left + right
    if not t.check(r.ndim == 1 and r.size == n, "number of extrema", g=g, values=fx, got=r,
                   expected=(bool(left), [g[i + 1] for i in cells], bool(right)), **inp):
        return
    if r.size and r.dtype.kind not in 'iu':
        t.check((r == np.round(r)).all(), "integers", got=r, **inp)
    k = 0
    if left:
        t.check(r[0] == g[0], "left end reported", got=r, **inp)
        k = 1
    for i in cells:
        q = r[k]
        k += 1
        lo, hi = g[i], g[i + 2]
        if not t.check(lo < q < hi, "strictly inside the two cells", q=q, cell=(lo, hi), **inp):
            continue
        if hi - lo > 200000:
            continue
        ns = np.arange(lo, hi + 1)
        av = np.abs(np.asarray(f(ns), float))
        dv = np.diff(av)
        m = av.argmax()
        unimodal = (dv[:m] >= 0).all() and (dv[m:] <= 0).all() and 0 < m < len(ns) - 1
        if unimodal:
            j = int(q - lo)
            t.check(av[j] >= av[j - 1] and av[j] >= av[j + 1],
                    "magnitude not below both neighbours", q=q, cell=(lo, hi), **inp)
    if right:
        t.check(r[-1] == g[-1], "right end reported", got=r, **inp)


def bump(c, s=1.):
    return lambda n: s / (1. + (np.asarray(n, float) - c)**2)


@case
def unimodal(t):
    for c in (0, 1, 2, 3, 4.4, 4.6, 7, 9, 10, 17.3, 33, 50, 63, 64):
        for s in (1., -1.):
            for g in (np.arange(12), np.array([0, 5, 10]), np.array([0, 7, 64]),
                      np.array([0, 3, 30, 64]), np.array([0, 1, 2, 4, 8, 16, 32, 64]),
                      np.array([0, 64]), np.array([0, 1, 2]), np.array([0, 2, 4, 6]),
                      np.array([0, 10, 11, 12, 64])):
                oracle_check(t, bump(c, s), g, c=c, s=s)


@case
def random_values(t):
    for trial in range(400 if not THOROUGH else 6000):
        n = t.rng.randint(2, 8)
        step = t.rng.randint(1, 4)
        g = np.cumsum(t.rng.randint(1, step + 2, n))
        table = dict(zip(range(g[0], g[-1] + 1), t.rng.choice([-3., -2., -1., 0., .5, 1., 2.],
                                                             g[-1] - g[0] + 1)))
        if trial % 2:
            table = {k: v + 1e-3 * t.rng.rand() for k, v in table.items()}

        def f(x):
            return np.vectorize(lambda q: table[int(q)])(x).astype(float)
        oracle_check(t, f, g, table=[table[k] for k in sorted(table)])


@case
def waves(t):
    for w in (.3, 1., 2.5, .05):
        for ph in (0., .4, 1.9):
            f = lambda n: np.sin(w * np.asarray(n, float) + ph) * np.exp(-.01 * np.asarray(n))
            for g in (np.arange(100), np.arange(3), np.arange(2), np.unique(np.geomspace(
                    1, 500, 40).astype(int))):
                oracle_check(t, f, g, w=w, ph=ph)


@case
def wide_cells(t):
    """the bisection must end at the maximum for any position in a wide bracket"""
    for lo, mid, hi in ((0, 100, 200), (0, 1, 1000), (0, 999, 1000), (5, 50, 51), (0, 500, 1013)):
        for c in range(lo + 1, hi, max(1, (hi - lo) // 97)):
            for s in (1., -1.):
                oracle_check(t, bump(c, s), np.array([lo, mid, hi]), c=c, s=s)


@case
def plateaus(t):
    for top in ((5, 6), (5, 7), (3, 9)):
        f = lambda n: np.where((np.asarray(n) >= top[0]) & (np.asarray(n) <= top[1]), 1.,
                               1. / (2 + np.abs(np.asarray(n, float) - top[0])))
        for g in (np.arange(12), np.array([0, 5, 12]), np.array([0, 6, 12])):
            oracle_check(t, f, g, top=top)


@case
def end_points(t):
    tests = [(lambda n: 1. / (1 + n), [0, 1, 2, 3]), (lambda n: n * 1., [0, 1, 2, 3]),
             (lambda n: -1. / (1 + n), [0, 1, 2]), (lambda n: 1. - 2. * (n > 0), [0, 1, 2]),
             (lambda n: 0. * n + 1, [0, 1, 2]), (lambda n: np.where(n == 3, -1., 1.), [0, 1, 2, 3]),
             (lambda n: np.where(n == 0, -1e-3, 1.), [0, 1, 2, 3]), (lambda n: n - 1.5, [0, 1, 2, 3])]
    for k, (f, g) in enumerate(tests):
        oracle_check(t, lambda n: np.asarray(f(np.asarray(n))), np.array(g), k=k)


@case
def basis_extrema(t):
    for stat, zeta in (('F', 1), ('B', 0)):
        for beta, wmax in ((1., 10.), (3., 14.)):
            b = basis(stat, beta, wmax)
            for l in range(0, b.size):
                f = b.uhat[l]
                part = f.poly.symm == (1 if zeta == 0 else -1)
                val = (lambda n: f(n).real) if part else (lambda n: f(n).imag)
                for nm in ('extrema', 'sign_changes'):
                    full = t.attempt(lambda: getattr(f, nm)(), nm, l=l, stat=stat)
                    pos = t.attempt(lambda: getattr(f, nm)(positive_only=True), nm, l=l)
                    if full is None or pos is None:
                        continue
                    t.check((full % 2 == zeta).all() and (pos % 2 == zeta).all(), nm + " parity",
                            l=l, stat=stat, full=full)
                    t.check((pos >= 0).all(), nm + " non-negative", l=l, pos=pos)
                    t.equal(np.sort(full), -np.sort(full)[::-1], nm + " mirror-symmetric", l=l)
                    t.equal(np.sort(full[full >= 0]), np.sort(pos), nm + " non-negative part", l=l,
                            stat=stat)
                    t.check(np.unique(full).size == full.size, nm + " distinct", l=l)
                # every change of direction among small frequencies is reported
                n = 2 * np.arange(64) + zeta
                v = val(n)
                e = f.extrema(positive_only=True)
                a = np.abs(v)
                inner = [int(n[i]) for i in range(1, 63)
                         if np.signbit(v[i] - v[i - 1]) != np.signbit(v[i + 1] - v[i])]
                first = a[0] > a[1] or np.signbit(v[0]) != np.signbit(v[1])
                exp = ([int(n[0])] if first else []) + inner
                t.equal([int(q) for q in e if q < n[63]], exp, "extrema on small frequencies", l=l,
                        stat=stat, beta=beta)
                sc = f.sign_changes(positive_only=True)
                e = [int(n[i]) for i in range(63) if v[i] == 0 or (
                    v[i + 1] != 0 and np.signbit(v[i]) != np.signbit(v[i + 1]))]
                t.equal([int(q) for q in sc if q < n[63]], e, "sign changes on small frequencies",
                        l=l, stat=stat)
            t.raises(ValueError, lambda: b.uhat.extrema(), "vector")
            t.raises(ValueError, lambda: b.uhat.sign_changes(), "vector")


@case
def parts_and_grids(t):
    b = basis('F', 1., 10.)
    f = b.uhat[3]
    g = np.arange(40)
    for part in ('real', 'imag'):
        e = _roots.discrete_extrema(lambda n: getattr(f(2 * n + 1), part), g)
        t.equal(f.extrema(part=part, grid=g, positive_only=True), 2 * e + 1, "chosen part and grid",
                part=part)
        z = _roots.find_all(lambda n: getattr(f(2 * n + 1), part), g, type='discrete')
        t.equal(f.sign_changes(part=part, grid=g, positive_only=True), 2 * z + 1,
                "chosen part and grid", part=part)
    t.raises(ValueError, lambda: f.extrema(part='abs'), "bad part")
    rng = t.rng
    knots = np.array([-1., 0., 1.])
    p = poly.PiecewiseLegendrePoly(rng.randn(3, 2), knots)
    ft = poly.PiecewiseLegendreFT(p, 'odd')
    t.raises(ValueError, lambda: ft.extrema(), "parity unknown")
    t.raises(ValueError, lambda: ft.sign_changes(), "parity unknown")
    t.attempt(lambda: ft.extrema(part='real'), "explicit part needs no parity")


@case
def symmetrize(t):
    f = t.private(poly, '_symmetrize_matsubara')
    for x, e in (([1, 3], [-3, -1, 1, 3]), ([0, 2, 8], [-8, -2, 0, 2, 8]), ([0], [0]), ([5], [-5, 5]),
                 ([], []), ([2, 4], [-4, -2, 2, 4])):
        t.equal(f(np.array(x, int)), np.array(e, int), "mirror image", x=x)
    for x in ([3, 1], [-1, 1], [-2, 0]):
        t.raises(ValueError, lambda: f(np.array(x)), "bad points", x=x)
