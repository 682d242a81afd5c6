from fractions import Fraction as F
import numpy as np
from harness import case, THOROUGH
from sparse_ir import _gauss

Rule = _gauss.Rule


def rules(t):
    for n in (1, 2, 3, 7, 20):
        x = np.sort(t.rng.uniform(-1, 1, n))
        w = t.rng.rand(n) + .1
        yield Rule(x, w), n
        a, b = sorted(t.rng.uniform(-5, 5, 2))
        x = np.sort(t.rng.uniform(a, b, n))
        yield Rule(x, w, a=a, b=b), n
        yield _gauss.legendre(n), n
        yield _gauss.legendre(n).reseat(2., 3.5), n
        yield Rule(np.r_[-1., np.sort(t.rng.uniform(-1, 1, n)), 1.], np.ones(n + 2)), n + 2


def exact_reseat(r, a, b):
    a, b, ra, rb = F(float(a)), F(float(b)), F(float(r.a)), F(float(r.b))
    s = (b - a) / (rb - ra)
    x = [a + s * (F(float(q)) - ra) for q in r.x]
    return (np.array([float(q) for q in x]), np.array([float(s * F(float(q))) for q in r.w]),
            np.array([float(s * F(float(q))) for q in r.x_forward]),
            np.array([float(s * F(float(q))) for q in r.x_backward]))


@case
def defaults(t):
    for n in (1, 4):
        x, w = np.sort(t.rng.uniform(2, 3, n)), t.rng.rand(n)
        r = Rule(x, w, a=2, b=3)
        t.equal(r.x, x, "nodes")
        t.equal(r.w, w, "weights")
        t.close(r.x_forward, x - 2, "distance from the left end", 1e-15)
        t.close(r.x_backward, 3 - x, "distance from the right end", 1e-15)
        t.check(r.a == 2 and r.b == 3, "interval")
        r = Rule(list(x), list(w), list(x + 7), list(x + 9), 2, 3)
        t.equal(r.x_forward, x + 7, "given forward differences kept")
        t.equal(r.x_backward, x + 9, "given backward differences kept")
    r = Rule(np.array([.1]), np.array([2.]))
    t.check(r.a == -1 and r.b == 1, "default interval")


@case
def reseat(t):
    for r, n in rules(t):
        for a, b in ((-1., 1.), (0., 1.), (2., 2.5), (-3., 4.), (-1, 1), (1e6, 1e6 + 1), (-1e-9, 1e-9),
                     (0, 1e-300), (.25, .75)):
            s = r.reseat(a, b)
            x, w, f, g = exact_reseat(r, a, b)
            sc = max(abs(a), abs(b))
            t.close(s.x, x, "nodes mapped affinely", 1e-14, 8e-15 * sc, lo=a, hi=b, n=n)
            t.close(s.w, w, "weights scaled", 1e-14, lo=a, hi=b, n=n)
            t.close(s.x_forward, f, "left distances scaled", 1e-14, lo=a, hi=b, n=n)
            t.close(s.x_backward, g, "right distances scaled", 1e-14, lo=a, hi=b, n=n)
            t.check(s.a == a and s.b == b, "interval recorded", lo=a, hi=b)
        # twice
        s = r.reseat(3., 4.).reseat(-2., 5.)
        x, w, f, g = exact_reseat(r, -2., 5.)
        t.close(s.x, x, "reseat twice", 1e-13, 1e-13)
        t.close(s.w, w, "reseat twice", 1e-13)


@case
def scale(t):
    for r, n in rules(t):
        for c in (2., .5, -1., 3, 0.):
            s = r.scale(c)
            t.close(s.w, c * r.w, "weights", 1e-15, c=c)
            for k in ('x', 'x_forward', 'x_backward'):
                t.equal(getattr(s, k), getattr(r, k), k + " unchanged", c=c)
            t.check(s.a == r.a and s.b == r.b, "interval unchanged")


@case
def piecewise(t):
    for r, n in rules(t):
        for edges in ([0., 1.], [-1, 0, 1], [-1., -.5, .1, .2, 1.], [2, 3, 5, 7], (0., 1e-9, 1.),
                      np.r_[-1., np.sort(t.rng.uniform(-1, 1, 12)), 1.], [-4., -3., 10.],
                      [0., .1, .3, 1.]):
            s = r.piecewise(edges)
            e = np.asarray(edges, float)
            X = [exact_reseat(r, p, q) for p, q in zip(e[:-1], e[1:])]
            sc = np.abs(e).max()
            t.close(s.x, np.hstack([q[0] for q in X]), "piecewise nodes", 1e-14, 8e-15 * sc,
                    edges=e, n=n)
            t.close(s.w, np.hstack([q[1] for q in X]), "piecewise weights", 1e-13, edges=e, n=n)
            fw = np.hstack([q[2] + (p - e[0]) for q, p in zip(X, e[:-1])])
            bw = np.hstack([q[3] + (e[-1] - p) for q, p in zip(X, e[1:])])
            t.close(s.x_forward, fw, "left distances of the joint interval", 1e-14, edges=e, n=n)
            t.close(s.x_backward, bw, "right distances of the joint interval", 1e-14, edges=e, n=n)
            t.check(s.a == e[0] and s.b == e[-1], "interval", edges=e)
            if (np.diff(r.x) >= 0).all() and n < 20:
                t.check((np.diff(s.x) >= -1e-15).all(), "nodes ascending", edges=e)


@case
def accuracy_at_the_ends(t):
    """distances keep full relative accuracy next to the end points"""
    for n in (3, 10):
        r = _gauss.legendre(n)
        e = np.r_[-1., -1 + 1e-14, -1 + 1e-8, 0., 1 - 1e-8, 1 - 1e-14, 1.]
        s = r.piecewise(e)
        one = exact_reseat(r, e[0], e[1])
        t.close(s.x_forward[:n], one[2], "first piece", 1e-14, n=n)
        one = exact_reseat(r, e[-2], e[-1])
        t.close(s.x_backward[-n:], one[3], "last piece", 1e-14, n=n)
        t.check((s.x_forward > 0).all() and (s.x_backward > 0).all(), "distances positive")


@case
def rejected(t):
    r = _gauss.legendre(3)
    for e in ([1., 0.], [0., 0.], [0., 1., 1.], [0., 2., 1.], [-1., -1., 1.], [0, 1, .5, 2],
              [0., 1., np.nan], [1, 2, 3, 3], [3, 2, 1]):
        t.raises(ValueError, lambda: r.piecewise(e), "unsorted edges", edges=e)
    A, B = r.reseat(0., 1.), r.reseat(1., 2.)
    for parts in ((B, A), (A, A), (A, r.reseat(1.5, 2)), (A, r.reseat(.5, 2)), (A, B, A),
                  (A, B, r.reseat(2 + 1e-12, 3)), (A, r.reseat(1 - 1e-12, 3))):
        t.raises(ValueError, lambda: Rule.join(*parts), "pieces that do not touch")


@case
def join(t):
    A = Rule([.1, .6], [1., 2.], a=0, b=1)
    B = Rule([1.5], [3.], a=1, b=2.5)
    C = Rule([3., 3.5, 4.], [1., 1., 5.], a=2.5, b=4)
    j = Rule.join(A, B, C)
    t.equal(j.x, [.1, .6, 1.5, 3., 3.5, 4.], "nodes")
    t.equal(j.w, [1., 2., 3., 1., 1., 5.], "weights")
    t.close(j.x_forward, j.x, "left distances", 1e-15)
    t.close(j.x_backward, 4 - j.x, "right distances", 1e-15, 1e-15)
    t.check(j.a == 0 and j.b == 4, "interval")
    j = Rule.join(B)
    t.equal(j.x, B.x, "single")
    t.close(j.x_forward, B.x_forward, "single")
    e = Rule.join()
    t.check(np.size(e.x) == 0 and np.size(e.w) == 0, "empty join")
    s = C.reseat(0, 2)
    t.equal(C.x, [3., 3.5, 4.], "original unchanged")


@case
def integrals(t):
    """the rule of the union integrates what the pieces integrate"""
    r = _gauss.legendre(6)
    for e in ([-1., .3, 1.], [0., .01, .5, 2.], [-7., -3., -2.9]):
        s = r.piecewise(e)
        for f, p in ((lambda x: x**0, lambda x: x), (lambda x: x**7 - 3 * x**2, lambda x: x**8 / 8
                                                    - x**3)):
            t.close((f(s.x) * s.w).sum(), p(e[-1]) - p(e[0]), "integral", 1e-12, 1e-12, e=e)
            x = s.x_forward + s.a
            t.close((f(x) * s.w).sum(), p(e[-1]) - p(e[0]), "integral via distances", 1e-12,
                    1e-12, e=e)


@case
def casting(t):
    types = [np.float32, np.float64, np.longdouble]
    try:
        from xprec import ddouble
        types.append(ddouble)
    except ImportError:
        pass
    for r, n in rules(t):
        for dt in types:
            s = r.astype(dt)
            for k in ('x', 'w', 'x_forward', 'x_backward'):
                v = getattr(s, k)
                t.check(v.dtype == np.dtype(dt), k + " dtype", dt=dt)
                t.close(v.astype(float), getattr(r, k).astype(dt).astype(float), k + " values")
            t.close(float(s.a), float(np.dtype(dt).type(r.a)), "left end", dt=dt)
            t.close(float(s.b), float(np.dtype(dt).type(r.b)), "right end", dt=dt)
            t.check(np.asarray(s.a).dtype == np.dtype(dt), "dtype of ends", dt=dt)


@case
def nested(t):
    k = _gauss.kronrod_31_15()
    for a, b in ((-1., 1.), (0., .5), (3., 10.)):
        s = k.reseat(a, b)
        x, w, f, g = exact_reseat(k, a, b)
        t.close(s.x, x, "nested nodes", 1e-14, 1e-14, lo=a, hi=b)
        t.close(s.w, w, "nested weights", 1e-14)
        t.close(s.v, k.v * (b - a) / 2, "inner weights", 1e-14, lo=a, hi=b)
        t.check(s.a == a and s.b == b, "interval")
        t.close(s.x_forward, f, "left distances", 1e-14)
        t.close(s.x_backward, g, "right distances", 1e-14)
    s = k.scale(3.)
    t.close(s.w, 3 * k.w, "scaled weights", 1e-15)
    t.close(s.v, 3 * k.v, "scaled inner weights", 1e-15)
    t.equal(s.x, k.x, "nodes kept")
    s = k.astype(np.float32)
    t.check(s.v.dtype == np.float32 and s.x.dtype == np.float32, "cast")
    t.close(s.v, k.v.astype(np.float32), "cast inner weights")
    # column-vector reseat as used by the adaptive integration
    a, b = np.array([0., 1., 5.]), np.array([1., 1.5, 9.])
    s = k.reseat(a[:, None], b[:, None])
    for i in range(3):
        u = k.reseat(a[i], b[i])
        t.close(s.x[i], u.x, "vectorised reseat", 1e-15, 1e-15)
        t.close(s.w[i], u.w, "vectorised reseat", 1e-15)
        t.close(s.v[i], u.v, "vectorised reseat", 1e-15)
    t.close(s.x[:, s.vsel].shape[1], k.v.size, "inner nodes")
