import numpy as np
from harness import case, THOROUGH
from ref import random_poly, pw_eval, sve, basis
from sparse_ir import _roots, poly


def expected_cells(f, g):
    fx = f(g)
    hits = [g[i] for i in range(len(g)) if fx[i] == 0]
    cells = [(g[i], g[i + 1]) for i in range(len(g) - 1)
             if fx[i] != 0 and fx[i + 1] != 0 and (fx[i] < 0) != (fx[i + 1] < 0)]
    return hits, cells


def check(t, f, g, typ='continuous', **inp):
    g0 = np.array(g)
    r = t.attempt(lambda: _roots.find_all(f, g, type=typ), "search", g=g, **inp)
    if r is None:
        return
    r = np.asarray(r)
    t.equal(np.asarray(g), g0, "grid unchanged", **inp)
    hits, cells = expected_cells(f, np.asarray(g))
    t.check(r.ndim == 1 and r.size == len(hits) + len(cells), "one root per hit and sign change",
            g=g, expected=(hits, cells), got=r, **inp)
    t.check((np.diff(r) >= 0).all(), "ascending", got=r, **inp)
    if r.size != len(hits) + len(cells):
        return
    h = [q for q in r if q in hits]
    t.check(len(h) >= len(hits), "grid zeros reported exactly", got=r, hits=hits, **inp)
    eps = np.finfo(float).eps * max(abs(np.asarray(g)).max(), 1e-300)
    for a, b in cells:
        c = [q for q in r if a <= q <= b and q not in hits]
        if not t.check(len(c) == 1, "exactly one root in the cell", cell=(a, b), got=r, **inp):
            continue
        q = c[0]
        if typ == 'discrete':
            fv = f(np.array([q, q + 1]))
            t.check(float(q).is_integer() and a <= q < b, "integer in the cell", q=q, cell=(a, b))
            t.check(np.signbit(fv[0]) == np.signbit(f(np.array([a]))[0]) and
                    np.signbit(fv[0]) != np.signbit(fv[1]), "last integer before a sign change",
                    q=q, cell=(a, b), **inp)
        else:
            lo, hi = max(a, q - 1.01 * eps), min(b, q + 1.01 * eps)
            pts = np.array([lo, q, hi, np.nextafter(q, a), np.nextafter(q, b)])
            fv = f(pts)
            t.check(np.signbit(fv).any() and not np.signbit(fv).all() or (fv == 0).any(),
                    "bracketed by a sign change to working precision", q=q, cell=(a, b),
                    values=fv, **inp)


@case
def continuous(t):
    fs = [np.cos, lambda x: np.sin(7 * x) - .3, lambda x: x, lambda x: x**3 - .25 * x,
          lambda x: np.where(x < .3, -1., 2.), lambda x: -x + .7, lambda x: np.exp(x) - 2,
          lambda x: np.abs(x) - .1, lambda x: x**2 + 1, lambda x: -np.ones_like(x),
          lambda x: np.zeros_like(x), lambda x: (x - .5)**2, lambda x: 1e-300 * (x - .123),
          lambda x: 1e200 * (x + .777)]
    gs = [np.linspace(-1, 1, n) for n in (2, 3, 4, 5, 11, 50, 201)] + \
        [np.linspace(0, 10, 41), np.sort(t.rng.uniform(-1, 1, 30)), np.linspace(.1, .2, 5),
         np.array([-1., 1.]), np.array([-1., .3, 1.]), np.array([1000., 1000.5, 2000.]),
         np.array([-5., -.5, 0, .5, 5.]), np.array([0., 1e-8, .5, .5000001, 1.])]
    for k, f in enumerate(fs):
        for g in gs:
            check(t, f, g, k=k)


@case
def single_point(t):
    r = _roots.find_all(lambda x: x, np.array([0.]))
    t.equal(r, [0.], "single grid point with a zero")
    r = _roots.find_all(lambda x: x, np.array([1.]))
    t.check(np.size(r) == 0, "single grid point without a zero")


@case
def hits_next_to_changes(t):
    """zeros on grid points never hide or duplicate changes in other cells"""
    for trial in range(200 if not THOROUGH else 3000):
        n = t.rng.randint(2, 9)
        vals = t.rng.choice([-2., -1., 0., 1., 3.], n)
        g = np.arange(n, dtype=float)
        f = lambda x: np.interp(x, g, vals)
        check(t, f, g, vals=vals)
        gi = np.arange(n) * 7
        fi = lambda x: np.interp(x, gi, vals)
        check(t, fi, gi, 'discrete', vals=vals)


@case
def discrete(t):
    fs = [lambda n: np.cos(.7 * n + .1), lambda n: n - 7.5, lambda n: 7.5 - n, lambda n: n - 7.,
          lambda n: 100.5 - 1. * n * n, lambda n: np.ones_like(n, float), lambda n: n - 1e6 + .5,
          lambda n: np.where(n >= 13, 1., -1.), lambda n: np.where(n > 999999, -1., 1.),
          lambda n: np.sin(np.log1p(np.abs(n)) * 5)]
    gs = [np.arange(20), np.array([0, 1]), np.array([0, 2]), np.array([0, 3]), np.array([3, 8, 20]),
          np.array([0, 100, 10000, 2**25]), np.array([-50, -7, 0, 3, 9, 33]),
          poly.PiecewiseLegendreFT._DEFAULT_GRID, np.array([0, 1, 10**12]),
          np.array([5, 6, 7, 14, 15])]
    for k, f in enumerate(fs):
        for g in gs:
            check(t, f, g, 'discrete', k=k)


@case
def many_changes(t):
    """cells of very different width converge one after the other"""
    for trial in range(10):
        c = np.sort(t.rng.uniform(0, 1, 12))**4
        f = lambda x: np.prod([np.asarray(x, float) - q for q in c], axis=0)
        g = np.r_[0, (c[1:] + c[:-1]) / 2, 1]
        r = _roots.find_all(f, g)
        t.close(r, c, "all roots", 0, 1e-15, c=c)


@case
def bad_arguments(t):
    t.raises(ValueError, lambda: _roots.find_all(np.cos, np.zeros((2, 2))), "2-d grid")
    t.raises(ValueError, lambda: _roots.find_all(np.cos, np.linspace(0, 4, 9), type='x'), "bad type")


@case
def list_grid(t):
    check(t, np.cos, [0., 1., 2., 3.], 'continuous')
    check(t, lambda n: np.asarray(n) - 2.5, [0, 1, 2, 3], 'discrete')


@case
def integer_grid_continuous(t):
    r = t.attempt(lambda: _roots.find_all(lambda x: x - .5, np.array([0., 1., 2.])), "roots")
    t.close(r, [.5], "root", 1e-14)


def make_symmetric(rng, sign, P=5, half=3, roots=None, lo=-1., hi=1.):
    """piecewise polynomial with exact parity"""
    kp = np.r_[0., np.sort(rng.uniform(.05, .95, half - 1)), 1.]
    knots = np.r_[-kp[:0:-1], kp]
    dp = rng.randn(P, half)
    flip = (-1.)**np.arange(P)[:, None]
    if sign < 0:                    # odd functions vanish at the midpoint
        dp[0, 0] -= (dp[:, 0] * flip[:, 0]).sum()
    data = np.concatenate([sign * flip * dp[:, ::-1], dp], axis=1)
    mid, hl = (lo + hi) / 2, (hi - lo) / 2
    return poly.PiecewiseLegendrePoly(data, mid + hl * knots, symm=np.array(sign)), data, \
        mid + hl * knots


def poly_of_roots(rts, knots, symm=None):
    """piecewise polynomial equal to prod (x - r)"""
    c = np.polynomial.polynomial.polyfromroots(rts)
    f = lambda x: np.polynomial.polynomial.polyval(x, c)
    P = len(c)
    x, w = np.polynomial.legendre.leggauss(P + 1)
    data = np.zeros((P, len(knots) - 1))
    for i, (a, b) in enumerate(zip(knots, knots[1:])):
        xx = (a + b) / 2 + (b - a) / 2 * x
        for p in range(P):
            e = np.polynomial.legendre.legval(x, np.eye(P)[p])
            data[p, i] = (f(xx) * e * w).sum() * (2 * p + 1) / 2 * np.sqrt((b - a) / 2)
    return poly.PiecewiseLegendrePoly(data, knots, symm=None if symm is None else np.array(symm))


@case
def poly_roots(t):
    K = np.array([-1., -.6, -.2, .2, .6, 1.])          # midpoint inside a segment
    K2 = np.array([-1., -.5, 0., .5, 1.])              # midpoint on a knot
    for knots in (K, K2):
        for rts in ((.1, .33, .77), (-.9, -.45, .05, .55, .99), (.7,), (-.123,)):
            r = poly_of_roots(rts, knots).roots(6)
            t.close(r, np.sort(rts), "roots without parity", 0, 1e-13, rts=rts, knots=knots)
        for pos in ((.3,), (.11, .47), (.12, .4, .81)):
            full = np.sort(np.r_[-np.array(pos), pos])
            r = poly_of_roots(full, knots, 1).roots(6)
            t.close(r, full, "even function", 0, 1e-13, pos=pos, knots=knots)
            t.close(r, -r[::-1], "mirror-symmetric", 0, 1e-15)
            full = np.sort(np.r_[-np.array(pos), 0, pos])
            r = poly_of_roots(full, knots, -1).roots(6)
            t.close(r, full, "odd function", 0, 1e-13, pos=pos, knots=knots)
            t.check((r == 0).sum() == 1, "midpoint included once", r=r)
            # the same on other intervals
            for a, b in ((0., 1.), (0., 10.), (2., 6.)):
                m, h = (a + b) / 2, (b - a) / 2
                for sgn in (1, -1):
                    fl = np.sort(np.r_[-np.array(pos), ([0] if sgn < 0 else []), pos])
                    q = poly_of_roots(m + h * fl, m + h * knots, sgn)
                    t.close(q.roots(6), m + h * fl, "other interval", 0, 1e-7 * h,
                            pos=pos, lo=a, hi=b, sgn=sgn)
        r = poly_of_roots((0.,), knots, -1).roots()
        t.close(r, [0.], "only the midpoint", 0, 1e-15, knots=knots)
        c = poly.PiecewiseLegendrePoly(np.ones((1, len(knots) - 1)), knots, symm=np.array(1))
        t.check(np.size(c.roots()) == 0, "no root", knots=knots)


@case
def random_symmetric(t):
    for trial in range(40 if not THOROUGH else 500):
        sign = int(t.rng.choice([1, -1]))
        lo, hi = [(-1., 1.), (0., 3.)][trial % 2]
        p, data, knots = make_symmetric(t.rng, sign, lo=lo, hi=hi)
        r = t.attempt(lambda: p.roots(), "roots", sign=sign)
        if r is None:
            continue
        mid = (lo + hi) / 2
        t.close(r, (2 * mid - r)[::-1], "mirror-symmetric", 0, 1e-13, r=r)
        t.check((np.diff(r) >= 0).all() and (r >= lo).all() and (r <= hi).all(), "ascending, inside",
                r=r)
        t.check((sign == 1) or (r == mid).sum() == 1, "midpoint when odd", r=r, sign=sign)
        # every sign change of the refined half grid shows up
        g = np.unique(np.r_[knots, (knots[1:] + knots[:-1]) / 2])
        gp = g[g > mid + 1e-9]
        s = np.signbit(pw_eval(data[..., None], knots, gp)[0])
        n = (s[1:] != s[:-1]).sum()
        rp = r[(r > gp[0]) & (r < gp[-1])]
        t.check(rp.size == n, "one root per sign change of the grid", r=r, n=n, sign=sign)


@case
def alpha(t):
    knots = np.array([-1., 1.])
    rts = np.array([-.9, -.5, -.1, .35, .8])
    p = poly_of_roots(rts, knots)
    t.close(p.roots(alpha=20), rts, "fine grid", 0, 1e-13)
    t.check(p.roots(alpha=1).size == 1, "only end points compared with alpha=1")
    ref = t.private(poly, '_refine_grid')
    k = np.array([0., 1., 3., 3.5])
    for a in (1, 2, 3, 5):
        e = np.r_[np.concatenate([k[i] + (k[i + 1] - k[i]) * np.arange(a) / a for i in range(3)]),
                  3.5]
        t.close(ref(k, a), e, "refined grid", 1e-14, 1e-15, alpha=a)


@case
def basis_roots(t):
    for lam in (10., 42., 1e3):
        s = sve(lam)
        for nm, f in (('u', s.u), ('v', s.v)):
            n = int((s.s > 1e-12 * s.s[0]).sum())
            for l in range(0, n, 1 if lam < 100 else 5):
                r = f[l].roots()
                t.check(r.size == l, "l-th function has l roots", lam=lam, f=nm, l=l, got=r.size)
                t.close(r, -r[::-1], "mirror-symmetric", 0, 1e-15, lam=lam, l=l)
                t.check(l % 2 == 0 or (r == 0).any(), "zero for odd l", lam=lam, l=l)
                if l:
                    mid = np.r_[-1, r, 1]
                    mid = (mid[1:] + mid[:-1]) / 2
                    sg = np.sign(f[l](mid))
                    t.check((sg[1:] != sg[:-1]).all(), "sign alternates between roots", lam=lam,
                            l=l)
    b = basis('F', 3., 14.)
    for l in (0, 1, 4, 5):
        r = b.u[l].roots()
        t.check(r.size == l and (r >= 0).all() and (r <= 3).all(), "scaled functions", l=l, r=r)
        t.close(r, (3. - r)[::-1], "mirror-symmetric about beta/2", 0, 1e-14, l=l)


@case
def vectors_rejected(t):
    t.raises(ValueError, lambda: sve(10.).u.roots(), "vector of polynomials")
