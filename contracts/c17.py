"""Contracts for C17: default sampling points."""
import warnings
from .common import *
from . import c15, c16

LEVEL = 'proof'


def warned(cx, f):
    """result and whether a warning was given"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = cx.run(f)
    return r, len(w) > 0


def have(cx, label, f):
    if cx.prove(label, f):
        cx.assume(f)


def roots_contract(cx, name, lo, hi):
    """roots of a basis function (C08): ascending; strictly inside since basis
    functions do not vanish at the ends"""
    m = cx.dim('n_' + name, 0)
    x = cx.array(name, (m,))
    cx.assume_all([m, m], lambda i, j: T.implies(T.lt(lin(i), lin(j)), T.le(x.v(i), x.v(j))))
    cx.assume_all([m], lambda i: T.and_(T.lt(lo, x.v(i)), T.lt(x.v(i), hi)))
    return m, x


def points(cx, x, want, lo, hi, warn, strict=True):
    n = dexpr(x._shape[0])
    m = z3.Int('n_result')
    cx.assume(T.eq(m, n))
    i, j = cx.idx(m, 'i'), cx.idx(m, 'j')
    a, b = x.v(i), x.v(j)
    cx.prove('sorted', T.implies(T.lt(lin(i), lin(j)), T.le(a, b)))
    cmp = T.lt if strict else T.le
    cx.prove('inside the interval', T.and_(cmp(lo, a), cmp(a, hi)))
    if not warn:
        cx.prove('as many as asked for, or a warning', T.ge(n, want))
    for nm in 'nan', :
        cx.prove_elem('defined', x.at(i), a)


def direct(where):
    """_default_sampling_points for any set of functions"""
    def f(cx):
        b = cx.m('basis')
        size, L = cx.dim('size', 1), cx.int('L')
        cx.assume(T.ge(L.v(), 1))
        asked = []

        class Single:
            def __init__(self, key):
                self.key = key

            def deriv(self, n=1):
                return Single(('d', n, self.key))

            def roots(self, *a, **kw):
                asked.append(self.key)
                return roots_contract(cx, 'roots', -1, 1)[1]

        class Fns:
            xmin, xmax = -1., 1.

            def __init__(self):
                self.size = cx.dimval(size)
                self.shape = self.size,

            def __getitem__(self, l):
                cx.prove('selects an existing function', T.and_(
                    T.le(T.neg(lin(size)), asarr(l).v()), T.lt(asarr(l).v(), lin(size))))
                return Single(l)
        u = Fns()
        if where == 'scaled-left':
            u.xmin = cx.real('xmin')
            cx.assume(T.ne(u.xmin.v(), -1))
        elif where == 'scaled-right':
            u.xmax = cx.real('xmax')
            cx.assume(T.ne(u.xmax.v(), 1))
        if where:
            cx.raises('scaled functions', ValueError, b._default_sampling_points, u, L)
            return
        x, w = warned(cx, lambda: b._default_sampling_points(u, L))
        cx.prove('one set of roots', len(asked) == 1)
        points(cx, asarr(x), L.v(), -1, 1, w)
    return f


def of_basis(domain, npoints):
    """default_tau/omega_sampling_points of a basis built by its constructor"""
    def f(cx):
        b, k0, N, beta, wmax, K, sv = c16.original(cx)
        poly = cx.m('poly')
        asked = []

        def roots(p, *a, **kw):
            asked.append(p)
            cx.prove('one function', len(p.data._shape) == 2)
            lo, hi = asarr(p.xmin).v(), asarr(p.xmax).v()
            return roots_contract(cx, 'roots', lo, hi)[1]
        cx.patch(poly.PiecewiseLegendrePoly, 'roots', roots)
        cx.patch(poly.PiecewiseLegendrePoly, 'deriv', lambda p, n=1: p)
        L = cx.int('L')
        cx.assume(T.ge(L.v(), 1))
        kw = dict(npoints=L) if npoints else {}
        x, w = warned(cx, lambda: getattr(b, f'default_{domain}_sampling_points')(**kw))
        want = L.v() if npoints else lin(k0)
        bt, wm = beta.v(), wmax.v()
        x = asarr(x)
        if domain == 'tau':
            # products of positive numbers with numbers in the interval
            points(cx, x, want, 0, bt, w)
        else:
            points(cx, x, want, T.neg(wm), wm, w, strict=False)
    return f


class Hat:
    """contract of a set of Fourier transformed functions and of the search for
    their sign changes and extrema (C08, C09)"""
    rec = None

    def __init__(self, cx, freq, size, positive, key=None):
        self.cx, self.freq, self.key = cx, freq, key
        self.zeta = {'odd': 1, 'even': 0}[freq]
        self.n, self.pos = size, positive
        self.size = cx.dimval(size)
        self.shape = self.size,

    def __getitem__(self, l):
        v = asarr(l).v()
        self.cx.prove('selects an existing function', T.and_(
            T.le(T.neg(lin(self.n)), v), T.lt(v, lin(self.n))))
        return Hat(self.cx, self.freq, self.n, self.pos, v)

    def search(self, name, positive_only):
        cx = self.cx
        cx.prove('as asked: non-negative or all', positive_only is self.pos)
        cx.prove('of one function', self.key is not None)
        m = cx.dim('n_' + name, 1)
        x = cx.array(name, (m,), 'i')
        cx.assume_all([m, m], lambda i, j: T.implies(T.lt(lin(i), lin(j)), T.lt(x.v(i), x.v(j))))
        cx.assume_all([m], lambda i: T.eq(T.mod(x.v(i), 2), self.zeta))
        if positive_only:
            cx.assume_all([m], lambda i: T.ge(x.v(i), 0))
        else:
            cx.assume_all([m], lambda i: T.eq(x.v(i), T.neg(x.v(T.sub(T.sub(m, 1), lin(i))))))
        self.found = m, x
        return m, x

    def extrema(self, *, part=None, grid=None, positive_only=False):
        return self.search('extrema', positive_only)[1]

    def sign_changes(self, *, part=None, grid=None, positive_only=False):
        cx = self.cx
        m, x = self.search('changes', positive_only)
        if self.freq == 'even':
            # an odd function vanishes at zero frequency, which is on the grid (C08, C10)
            z = cx.idx(m, 'z')
            cx.assume(T.implies(T.eq(T.mod(self.key, 2), 1), T.eq(x.v(z), 0)))
            self.zero = z
        return x


def frequencies_ok(cx, r, freq, positive, want, warn):
    zeta = {'odd': 1, 'even': 0}[freq]
    n = dexpr(r._shape[0])
    m = z3.Int('n_result')
    cx.assume(T.eq(m, n))
    i, j = cx.idx(m, 'i'), cx.idx(m, 'j')
    cx.prove_elem('defined', r.at(i), r.v(i))
    cx.prove('integers', r.dtype.kind == 'i')
    cx.prove('sorted and distinct', T.implies(T.lt(i, j), T.lt(r.v(i), r.v(j))))
    cx.prove('parity', T.eq(T.mod(r.v(i), 2), zeta))
    if positive:
        cx.prove('non-negative', T.ge(r.v(i), 0))
    else:
        # the set is symmetric: -r[i] is one of the points
        hit = [T.eq(r.v(T.sub(T.sub(m, 1), i)), T.neg(r.v(i)))]
        for src, cls, v in cx.ctx.__dict__.get('uniques', ()):
            for c in (0, 1):
                # mirror image of the entry of the concatenated array, if any
                d = T.sub(z3.Int('n_cat'), src(T.z(i)))
                hit.append(T.eq(r.v(cls(T.z(d))), T.neg(r.v(i))))
                hit.append(T.eq(r.v(cls(T.z(src(T.z(i))))), T.neg(r.v(i))))
        cx.prove('mirror-symmetric', T.or_(*hit))
        if not warn:
            cx.prove('as many as asked for, or a warning', T.ge(n, want))
    return m


def zero_included(cx, r, m, hints):
    hit = [T.and_(T.le(0, h), T.lt(h, m), T.eq(r.v(h), 0)) for h in hints]
    cx.prove('zero included', T.or_(*hit))


def matsubara(freq, positive):
    def f(cx):
        b = cx.m('basis')
        size, L = cx.dim('size', 1), cx.int('L')
        cx.assume(T.ge(L.v(), 1))
        h = Hat(cx, freq, size, positive)
        singles = []
        get = Hat.__getitem__

        def item(self, l):
            q = get(self, l)
            singles.append(q)
            return q
        cx.patch(Hat, '__getitem__', item)
        r, w = warned(cx, lambda: b._default_matsubara_sampling_points(
            h, L, positive_only=positive))
        check_frequencies(cx, r, singles[-1], freq, positive, L.v(), w)
    return f


def check_frequencies(cx, r, single, freq, positive, want, w):
    r = asarr(r)
    m0, x0 = single.found
    us = cx.ctx.__dict__.get('uniques', ())
    if us:
        # the unique values of 0 and the mirrored points: entry c > 0 is x0[c - 1]
        cx.assume(T.eq(z3.Int('n_cat'), T.add(m0, 1)))
    m = frequencies_ok(cx, r, freq, positive, want, w)
    if freq == 'even':
        hints = [cls(T.z(0)) for _, cls, _ in us]
        if hasattr(single, 'zero'):
            hints.append(T.z(lin(single.zero)))
        zero_included(cx, r, m, hints)


def of_basis_matsubara(stat, positive, npoints):
    def f(cx):
        singles = []
        k_all = []

        class FTS(c15.FT):
            def __init__(self, *a, **kw):
                super().__init__(*a, **kw)
                N = self.poly.data._shape[2]
                self.hat = Hat(cx, self.freq, N, positive)
                self.zeta = self.hat.zeta
                self.size, self.shape = self.hat.size, self.hat.shape
                self.extrema, self.sign_changes = self.hat.extrema, self.hat.sign_changes

            def __getitem__(self, l):
                if isinstance(l, slice):
                    return super().__getitem__(l)
                singles.append(self.hat[l])
                return singles[-1]
        cx.patch('poly', 'PiecewiseLegendreFT', FTS)
        c15_FT = c15.FT
        cx.patch(c15, 'FT', FTS)
        b, k0, N, beta, wmax, K, sv = c16.original(cx, stat)
        L = cx.int('L')
        cx.assume(T.ge(L.v(), 1))
        kw = dict(npoints=L) if npoints else {}
        if positive:
            kw['positive_only'] = True
        r, w = warned(cx, lambda: b.default_matsubara_sampling_points(**kw))
        want = L.v() if npoints else lin(k0)
        check_frequencies(cx, r, singles[-1], {'F': 'odd', 'B': 'even'}[stat], positive, want, w)
    return f


def fence(freq, positive):
    def f(cx):
        b = cx.m('basis')
        zeta = {'odd': 1, 'even': 0}[freq]
        h = Hat(cx, freq, cx.dim('size', 1), positive, 0)
        m, x = h.search('wn', positive)
        r = asarr(cx.run(b._fence_matsubara_sampling, x, positive))
        n = dexpr(r._shape[0])
        k = z3.Int('n_result')
        cx.assume(T.eq(k, n))
        i, j, q = cx.idx(k, 'i'), cx.idx(k, 'j'), cx.idx(m, 'q')
        cx.prove('sorted and distinct', T.implies(T.lt(i, j), T.lt(r.v(i), r.v(j))))
        cx.prove('parity', T.eq(T.mod(r.v(i), 2), zeta))
        if positive:
            cx.prove('non-negative', T.ge(r.v(i), 0))
        us = cx.ctx.__dict__.get('uniques', ())
        cx.prove('points kept', T.or_(*[T.and_(T.le(0, c), T.lt(c, k), T.eq(r.v(c), x.v(q)))
                                        for _, cls, _ in us for c in [cls(T.z(q))]]))
    return f


D = 'basis._default_sampling_points'
M = 'basis._default_matsubara_sampling_points'
SCENARIOS = [Scenario('points', direct(''), functions=[D]),
             Scenario('scaled-left', direct('scaled-left'), functions=[D]),
             Scenario('scaled-right', direct('scaled-right'), functions=[D])]
for d_ in ('tau', 'omega'):
    for n_ in (False, True):
        SCENARIOS.append(Scenario(f"{d_}{'-npoints' if n_ else ''}", of_basis(d_, n_), functions=[
            D, f'basis.FiniteTempBasis.default_{d_}_sampling_points']))
for f_ in ('odd', 'even'):
    for p_ in (False, True):
        s_ = {'odd': 'F', 'even': 'B'}[f_]
        SCENARIOS += [
            Scenario(f"frequencies-{f_}{'-positive' if p_ else ''}", matsubara(f_, p_),
                     functions=[M]),
            Scenario(f"basis-{s_}{'-positive' if p_ else ''}", of_basis_matsubara(s_, p_, p_),
                     functions=[M, 'basis.FiniteTempBasis.default_matsubara_sampling_points']),
            Scenario(f"fence-{f_}{'-positive' if p_ else ''}", fence(f_, p_),
                     functions=['basis._fence_matsubara_sampling'])]
ASSUMED = ["basis functions do not vanish at the ends of the interval, so their roots (C08) "
           "and those of their derivatives lie strictly inside",
           "odd-numbered functions are odd, so their even-frequency transform vanishes at zero, "
           "which is on the search grid (C08, C10, C14)",
           "the search for discrete extrema finds at least one (C09)"]
BOUNDED = ["conditioning of the default sampling problems (battery)",
           "mirror symmetry of _fence_matsubara_sampling, which no default uses (battery)"]
