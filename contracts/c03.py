"""C03 discretisation segments."""
from .common import *
from .c01 import SHORT

LEVEL = 'proof'


def lam(cx):
    L = cx.real('Lambda')
    cx.assume(T.and_(T.gt(L.v(), 0), T.le(L.v(), 10 ** 9)))
    # log10 is increasing and log10(10^9) = 9
    cx.assume(T.le(T.func('log10', L.v()), 9))
    return L


def eps_(cx, name='eps'):
    e = cx.real(name)
    cx.assume(T.gt(e.v(), 0))
    return e


def hints(cx, kern, sign=None, eps=None):
    kernel = cx.m('kernel')
    K = cx.run(getattr(kernel, kern), lam(cx), label='constructor')
    if sign is not None:
        K = cx.run(K.get_symmetrized, sign, label='get_symmetrized')
    return K, cx.run(K.sve_hints, eps_(cx) if eps is None else eps, label='sve_hints')


def log_bound(j):
    """j log(j+1) <= 1200 for 0 <= j <= 200 (product of bounded non-negative numbers)"""
    j = lin(j)
    lg = T.func('log', T.add(j, 1))
    return T.implies(T.le(j, 200), T.and_(T.ge(T.mul(j, lg), 0), T.le(T.mul(j, lg), 1200)))


def segments(kern, which, order):
    """ends, finiteness and symmetry, or (order) strict monotonicity"""
    def f(cx):
        K, h = hints(cx, kern)
        s = cx.run(lambda: getattr(h, 'segments_' + which), label='segments')
        cx.increasing_sums(log_bound)
        n = T.sub(dexpr(s._shape[0]), 1)
        lo, hi = K.xrange if which == 'x' else K.yrange
        half = T.floordiv(n, 2)
        if order:
            cx.prove('at least two segments', T.ge(n, 2))
            cx.assume(T.ge(n, 2))
            i = cx.idx(n, 'seg')
            for c in (T.lt(lin(i), half), T.eq(lin(i), T.sub(half, 1)), T.eq(lin(i), 0),
                      T.eq(lin(i), half), T.eq(lin(i), T.sub(n, 1))):
                cx.decide(c)
            cx.prove('strictly increasing', T.lt(s.v(i), s.v(T.add(lin(i), 1))))
            return
        cx.prove_elem('starts at the lower end', s.at(0), Fr(lo))
        cx.prove_elem('ends at the upper end', s.at(n), Fr(hi))
        cx.prove('zero is the middle point', T.and_(T.eq(T.mod(n, 2), 0), T.eq(
            s.v(half), 0)))
        j = cx.idx(T.add(n, 1), 'pt')
        e = s.at(j)
        cx.prove('points are finite', T.and_(wdb(e.wd), T.not_(e.nan)))
        for c in (T.lt(lin(j), half), T.eq(lin(j), half)):
            cx.decide(c)
        cx.prove('mirror-symmetric', T.eq(s.v(T.sub(n, lin(j))), T.neg(s.v(j))))
    return f


def grid(cx, name):
    """an arbitrary symmetric grid as established for the full kernels: 2h+1 points"""
    h = cx.dim('half', 1)
    a = cx.array(name, (T.add(T.mul(2, h), 1),))
    cx.assume_all([T.add(T.mul(2, h), 1)], lambda i: T.eq(
        a.v(i), T.neg(a.v(T.sub(T.mul(2, h), lin(i))))))
    cx.assume_all([T.mul(2, h)], lambda i: T.lt(a.v(i), a.v(T.add(lin(i), 1))))
    cx.assume(T.eq(a.v(h), 0))
    return a, h


def reduced(which):
    """segments of the reduced kernels from the contract of the full ones"""
    def f(cx):
        kernel = cx.m('kernel')
        a, h = grid(cx, 'grid')

        class Hints(kernel.AbstractSVEHints):
            segments_x = a
            segments_y = a
            ngauss = cx.int('ngauss')
            nsvals = cx.int('nsvals')
        inner = Hints()
        cx.assume(T.ge(inner.nsvals.v(), 1))

        class K(kernel.AbstractKernel):
            is_centrosymmetric = True

            def sve_hints(self, eps):
                return inner
        for sign in (1, -1):
            Kr = cx.run(K().get_symmetrized, sign)
            hr = cx.run(Kr.sve_hints, eps_(cx))
            s = cx.run(lambda: getattr(hr, 'segments_' + which))
            cx.prove_shape('number of points at or above zero', s, (T.add(h, 1),))
            k = cx.idx(T.add(h, 1), 'k')
            cx.prove('exactly the points at or above zero',
                     T.eq(s.v(k), a.v(T.add(h, lin(k)))))
            cx.prove('Gauss points unchanged', T.eq(cx.val(hr.ngauss), inner.ngauss.v()))
            nv = cx.val(hr.nsvals)
            cx.prove('half the singular values, rounded up', T.and_(
                T.ge(T.mul(2, nv), inner.nsvals.v()), T.le(T.mul(2, nv), T.add(
                    inner.nsvals.v(), 1)), T.ge(nv, 1)))
    return f


def asymmetric(cx):
    """segments that are not symmetric are refused"""
    kernel = cx.m('kernel')
    n = cx.dim('n', 2)
    a = cx.array('grid', (n,))
    i = cx.idx(n)
    d = T.add(a.v(i), a.v(T.sub(T.sub(n, 1), lin(i))))
    cx.assume(T.gt(T.abs_(d), T.add(Fr(1, 10 ** 7), T.mul(Fr(1, 10 ** 4), T.abs_(a.v(i))))))

    class Hints(kernel.AbstractSVEHints):
        segments_x = a
    cx.raises('asymmetric grid', ValueError,
              lambda: kernel._SVEHintsReduced(Hints()).segments_x)


def numbers(kern, sign):
    def f(cx):
        kernel = cx.m('kernel')
        L = lam(cx)
        K = cx.run(getattr(kernel, kern), L, label='constructor')
        if sign is not None:
            K = cx.run(K.get_symmetrized, sign)
        e1, e2 = eps_(cx, 'eps1'), eps_(cx, 'eps2')
        cx.assume(T.le(e2.v(), e1.v()))
        h1, h2 = cx.run(K.sve_hints, e1), cx.run(K.sve_hints, e2)
        for nm in ('ngauss', 'nsvals'):
            a = cx.run(lambda: getattr(h1, nm), label=nm)
            b = cx.run(lambda: getattr(h2, nm), label=nm)
            cx.prove(f'{nm} is positive', T.gt(cx.val(a), 0))
            cx.prove(f'{nm} does not decrease for a tighter accuracy',
                     T.le(cx.val(a), cx.val(b)))
            cx.prove(f'{nm} is an integer', T.is_intish(cx.val(a)))
    return f


SCENARIOS = []
for k in SHORT:
    cls = '_SVEHintsLogistic' if k == 'LogisticKernel' else '_SVEHintsRegularizedBose'
    for w in 'xy':
        for o in (False, True):
            SCENARIOS.append(Scenario(
                f'{SHORT[k]}-segments-{w}' + ('-order' if o else ''), segments(k, w, o),
                functions=[f'kernel.{k}.sve_hints', f'kernel.{cls}.segments_{w}']))
    for sg in (None, 1, -1):
        SCENARIOS.append(Scenario(
            f'{SHORT[k]}-numbers' + ('' if sg is None else f'-reduced{sg}'), numbers(k, sg),
            functions=[f'kernel.{cls}.ngauss', f'kernel.{cls}.nsvals'] + (
                [] if sg is None else ['kernel._SVEHintsReduced.ngauss',
                                       'kernel._SVEHintsReduced.nsvals'])))
SCENARIOS += [Scenario(f'reduced-segments-{w}', reduced(w), functions=[
    'kernel.ReducedKernel.sve_hints', f'kernel._SVEHintsReduced.segments_{w}',
    'kernel._symm_segments']) for w in 'xy']
SCENARIOS += [Scenario('asymmetric', asymmetric, functions=['kernel._symm_segments'])]
ASSUMED = ["log10(10^9) = 9, log10 increasing; j log(j+1) <= 1200 for 0 <= j <= 200",
           "a cumulative sum of positive increments is increasing (induction)"]
BOUNDED = ["strict monotonicity and symmetry after rounding to doubles (battery, all decades of "
           "Lambda)"]
