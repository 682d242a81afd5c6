import copy
import threading
import numpy as np
from harness import case, THOROUGH
from ref import basis, sve, random_poly
import sparse_ir
from sparse_ir import kernel, poly, sampling, dlr, augment, adapter, _util, _gauss


def digest(obj, path='', out=None, seen=None, depth=0):
    """contents of all arrays and numbers reachable from an object"""
    out = {} if out is None else out
    seen = {} if seen is None else seen
    if id(obj) in seen:
        return out
    if isinstance(obj, np.ndarray):
        out[path] = (obj.shape, str(obj.dtype), obj.tobytes())
    elif isinstance(obj, (int, float, complex, str, bytes, bool, np.generic)):
        out[path] = repr(obj)
    elif isinstance(obj, (list, tuple)):
        seen[id(obj)] = obj
        for k, q in enumerate(obj):
            digest(q, f"{path}[{k}]", out, seen, depth + 1)
    elif hasattr(obj, '__dict__') and depth < 6 and type(obj).__module__.startswith('sparse_ir'):
        seen[id(obj)] = obj
        for k, q in sorted(vars(obj).items()):
            digest(q, f"{path}.{k}", out, seen, depth + 1)
    return out


def unchanged(before, after):
    """what was there before is still there (caches may be added)"""
    return all(after.get(k) == v for k, v in before.items())


def subjects():
    """(name, object, list of calls)"""
    out = []
    for stat, beta, wmax in (('F', 1., 10.), ('B', 3., 14.)):
        b = basis(stat, beta, wmax)
        z = int(stat == 'F')
        tau = beta * np.array([.1, .5, .2, 1., 0.])
        w = wmax * np.array([-1., .3, 0., 1.])
        n = 2 * np.array([-3, 0, 7, 10**6]) + z
        out.append(('u', b.u, lambda o, a=tau: o(a)))
        out.append(('u[3]', b.u[3], lambda o, a=tau: o(a)))
        out.append(('v', b.v, lambda o, a=w: o(a)))
        out.append(('value', b.u, lambda o, a=tau[:2]: o.value([0, 1], a)))
        out.append(('uhat', b.uhat, lambda o, a=n: o(a)))
        out.append(('uhat[2]', b.uhat[2], lambda o, a=n: o(a)))
        out.append(('deriv', b.u, lambda o, a=tau: o.deriv(2)(a)))
        out.append(('roots', b.u[4], lambda o: o.roots()))
        out.append(('overlap', b.u, lambda o: o.overlap(np.sin)))
        for s in (sparse_ir.TauSampling(b), sparse_ir.MatsubaraSampling(b),
                  sparse_ir.MatsubaraSampling(b, positive_only=True)):
            x = np.cos(np.arange(3. * b.size)).reshape(b.size, 3)
            y = np.cos(np.arange(2. * s.sampling_points.size)).reshape(2, -1)
            out.append((type(s).__name__ + ' evaluate', s, lambda o, a=x: o.evaluate(a, 0)))
            out.append((type(s).__name__ + ' fit', s, lambda o, a=y: o.fit(a, 1)))
        d = dlr.DiscreteLehmannRepresentation(b, wmax * np.array([-.5, 0., .9]))
        out.append(('dlr u', d.u, lambda o, a=tau: o(a)))
        out.append(('dlr uhat', d.uhat, lambda o, a=n: o(a)))
        out.append(('dlr to_IR', d, lambda o: o.to_IR(np.arange(3.))))
        a = augment.AugmentedBasis(b, *([augment.TauLinear, augment.TauConst] if stat == 'B' else
                                        [augment.MatsubaraConst]))
        out.append(('aug u', a.u, lambda o, a=tau: o(a)))
        out.append(('aug uhat', a.uhat, lambda o, a=n: o(a)))
    x = np.linspace(-1, 1, 7)
    for K in (kernel.LogisticKernel(7.), kernel.RegularizedBoseKernel(3.)):
        out.append(('kernel', K, lambda o, a=x: o(a, a[::-1].copy())))
        out.append(('kernel, x_plus', K, lambda o, a=x: o(a, .4, a + 1, 1 - a)))
        for sg in (1, -1):
            out.append(('reduced kernel', K.get_symmetrized(sg),
                        lambda o, a=np.abs(x): o(a, a[::-1].copy())))
    r = _gauss.legendre(5)
    out.append(('rule', r, lambda o: (o.reseat(2, 3).x, o.scale(2.).w,
                                      o.piecewise(np.array([0., 1., 4.])).x)))
    out.append(('model', basis('F', 1., 10.).uhat._model,
                lambda o, a=np.array([101, 4001]): o.giw(a)))
    q = adapter.Basis('F', 10., sve(10.))
    out.append(('adapter', q, lambda o: (o.ulx(3, .2), o.vly(2, -.3), o.compute_unl([0, 4]))))
    return [s for s in out if s[1] is not None]


def eq(a, b):
    if isinstance(a, tuple):
        return all(eq(x, y) for x, y in zip(a, b))
    return np.array_equal(a, b, equal_nan=True)


@case
def repeatable(t):
    S = subjects()
    first = [copy.deepcopy(f(o)) for _, o, f in S]
    state = [digest(o) for _, o, f in S]
    for rnd in range(3):
        order = t.rng.permutation(len(S))
        for k in order:
            nm, o, f = S[k]
            args = f.__defaults__
            before = [np.copy(q) for q in args] if args else []
            r = f(o)
            t.check(eq(r, first[k]), "same result whatever was called before", name=nm, rnd=rnd)
            for q, e in zip(args or (), before):
                t.equal(q, e, "arguments unchanged", name=nm)
            t.check(unchanged(state[k], digest(o)), "object unchanged", name=nm)


@case
def results_are_independent(t):
    """changing a returned array does not change later results"""
    S = subjects()
    for nm, o, f in S:
        r = f(o)
        e = copy.deepcopy(r)
        for q in (r if isinstance(r, tuple) else (r,)):
            if isinstance(q, np.ndarray) and q.ndim and q.flags.writeable:
                q[...] = 77
        t.check(eq(f(o), e), "returned array is not shared", name=nm)


@case
def bound_methods(t):
    """stored bound methods keep evaluating their own object"""
    p, q = basis('F', 1., 10.), basis('B', 3., 14.)
    tau, n = np.array([.1, .9]), np.array([1, -3])
    f, g = p.uhat.__call__, q.uhat.__call__
    e, h = p.uhat(n), q.uhat(n - 1)
    t.equal(f(n), e, "first object")
    t.equal(g(n - 1), h, "second object")
    t.equal(f(n), e, "first object again")
    u, v = dlr.TauPoles('F', 1., [1., -2.]), dlr.TauPoles('B', 2., [.5])
    fu, fv = u.__call__, v.__call__
    eu, ev = u(tau), v(tau)
    v(tau)
    t.equal(fu(tau), eu, "poles in time")
    t.equal(fv(tau), ev, "poles in time")
    t.equal(fu(tau), eu, "poles in time")
    m, o = dlr.MatsubaraPoles('F', 1., [1., -2.]), dlr.MatsubaraPoles('F', 2., [.5])
    fm, fo = m.__call__, o.__call__
    em, eo = m(n), o(n)
    t.equal(fm(n), em, "poles in frequency")
    t.equal(fo(n), eo, "poles in frequency")
    A, B = poly._PowerModel(np.array([[1.], [2.]])), poly._PowerModel(np.array([[-3.], [7.], [1.]]))
    fa, fb = A.giw, B.giw
    ea, eb = A.giw(n), B.giw(n)
    t.equal(fa(n), ea, "models")
    t.equal(fb(n), eb, "models")
    t.equal(fa(n), ea, "models")

    class Host:
        def __init__(self, k):
            self.k = k

        @_util.ravel_argument()
        def first(self, x):
            return self.k * x

        @_util.ravel_argument(last_dim=True)
        def last(self, x):
            return np.array([self.k, 1.])[:, None] * x
    hosts = [Host(k) for k in (2., 3., 5.)]
    fs = [(h.first, h.last) for h in hosts]
    x = t.rng.randn(2, 3)
    for _ in range(2):
        for h, (a, b) in zip(hosts, fs):
            t.equal(a(x), h.k * x, "own object", k0=h.k)
            t.equal(b(x), np.stack([h.k * x, x]), "own object, function axis first", k0=h.k)
    t.equal(hosts[0].first(x), 2 * x, "own object")

    @_util.ravel_argument()
    def plain(x):
        return x + 1
    t.equal(plain(x), x + 1, "plain function")
    hosts[1].first(x)
    t.equal(plain(x), x + 1, "plain function")


@case
def nested_calls(t):
    """a call in the middle of another call"""
    class Host:
        def __init__(self, k, other=None):
            self.k, self.other = k, other

        @_util.ravel_argument()
        def f(self, x):
            y = self.other.f(x) if self.other else 0
            return self.k * x + y
    a = Host(2.)
    b = Host(10., a)
    c = Host(100., b)
    x = np.array([[1., 2.]])
    t.equal(c.f(x), 112 * x, "nested")
    g = a.f
    t.equal(c.f(x), 112 * x, "nested")
    t.equal(g(x), 2 * x, "stored")


@case
def threads(t):
    S = subjects()
    S = [s for s in S if s[0] in ('u', 'uhat', 'uhat[2]', 'dlr u', 'dlr uhat', 'model', 'kernel',
                                  'aug uhat', 'reduced kernel', 'value')]
    expected = [copy.deepcopy(f(o)) for _, o, f in S]
    bad = []

    def work(seed):
        rng = np.random.RandomState(seed)
        for _ in range(60 if not THOROUGH else 600):
            k = rng.randint(len(S))
            try:
                if not eq(S[k][2](S[k][1]), expected[k]):
                    bad.append(S[k][0])
            except Exception as e:
                bad.append(f"{S[k][0]}: {type(e).__name__}: {e}")
    import sys
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(s,)) for s in range(6)]
        [q.start() for q in ts]
        [q.join() for q in ts]
    finally:
        sys.setswitchinterval(old)
    t.check(not bad, "concurrent evaluation", bad=bad[:5])


@case
def constructors_copy(t):
    """objects do not follow later changes of the arrays they were built from"""
    data, knots = t.rng.randn(3, 2, 4), np.array([-1., .2, 1.])
    p = poly.PiecewiseLegendrePoly(data, knots, symm=np.zeros(4))
    x = np.array([-.3, .7])
    e = p(x)
    d2, k2 = data.copy(), knots.copy()
    data *= 2
    knots[1] = .4
    t.equal(p(x), e, "polynomial built from arrays")
    p = poly.PiecewiseLegendrePoly(d2, k2)
    q = p[1:3]
    r = p[[0, 2]]
    s = p.deriv()
    f = poly.PiecewiseLegendreFT(p)
    eq_, er, es, ef = q(x), r(x), s(x), f([0, 2])
    c = digest(p)
    q.data *= 1.
    r(x), s(x), s.deriv(), f[1]([2])
    t.check(unchanged(c, digest(p)), "selections and derivatives leave the object alone")


@case
def scaled_polynomials(t):
    """building a basis does not change the expansion"""
    r = sve(10.)
    before = digest(r)
    for stat in 'FB':
        b = sparse_ir.FiniteTempBasis(stat, 2., 5., 1e-5, sve_result=r)
        b[:3], b.rescale(3.), b.uhat[:2]
        b.default_tau_sampling_points(), b.default_matsubara_sampling_points()
        dlr.DiscreteLehmannRepresentation(b)
    adapter.Basis('F', 10., r).d_ulx(2, .3, 1)
    t.check(unchanged(before, digest(r)), "expansion unchanged")


def evaluators():
    """(name, function of an array, points, functions axis: first ('f'), last ('l') or none)"""
    out = []
    for stat, beta, wmax in (('F', 1., 10.), ('B', 3., 14.)):
        b = basis(stat, beta, wmax)
        z = int(stat == 'F')
        tau = beta * np.array([.1, .5, .2, 1., 0., .7, .4, .9])
        w = wmax * np.array([-1., .3, 0., 1., .1, .2, -.4, .5])
        n = 2 * np.array([-3, 0, 7, 10**6, 1, -10**5, 2, 5]) + z
        d = dlr.DiscreteLehmannRepresentation(b, wmax * np.array([-.5, 0., .9]))
        a = augment.AugmentedBasis(b, *([augment.TauLinear, augment.TauConst] if stat == 'B' else
                                        [augment.MatsubaraConst]))
        out += [('u', b.u, tau, 'f'), ('u[3]', b.u[3], tau, ''), ('v', b.v, w, 'f'),
                ('deriv', b.u.deriv(), tau, 'f'), ('uhat', b.uhat, n, 'f'),
                ('value', lambda x, b=b: b.u.value(2, x), tau, ''),
                ('uhat[2]', b.uhat[2], n, ''), ('uhat[:3]', b.uhat[:3], n, 'f'),
                ('dlr u', d.u, tau, 'f'), ('dlr uhat', d.uhat, n, 'f'),
                ('aug u', a.u, tau, 'f'), ('aug uhat', a.uhat, n, 'f'),
                ('model', b.uhat._model.giw, n, 'l')]
        if stat == 'B':
            out += [(f'{type(g).__name__}', g, tau, '') for g in a._augmentations] + \
                   [(f'{type(g).__name__} hat', g.hat, n, '') for g in a._augmentations]
    for K in (kernel.LogisticKernel(7.), kernel.RegularizedBoseKernel(3.)):
        x = np.linspace(-1, 1, 8)
        out += [('kernel, x', lambda a, K=K: K(a, np.float64(.3)), x, ''),
                ('kernel, y', lambda a, K=K: K(np.float64(-.3), a), x, ''),
                ('kernel, edges', lambda a, K=K: K(a, np.float64(.3), a + 1, 1 - a), x, ''),
                ('kernel, x_plus', lambda a, K=K: K(np.float64(.5), np.float64(.3),
                                                    a, None), x * 0 + 1.5, '')]
    return [e for e in out if e[1] is not None]


@case
def arguments_in_every_form(t):
    for nm, f, x, axis in evaluators():
        e = np.array(f(x.copy()))

        def forms():
            yield 'vector', x.copy(), slice(None), x.shape
            yield 'matrix', x.reshape(2, 4).copy(), slice(None), (2, 4)
            yield 'transposed', np.asfortranarray(x.reshape(2, 4)), slice(None), (2, 4)
            yield 'three axes', x.reshape(2, 2, 2).copy(), slice(None), (2, 2, 2)
            yield 'strided', np.repeat(x, 2)[::2], slice(None), x.shape
            yield 'reversed', x[::-1].copy()[::-1], slice(None), x.shape
            yield 'empty', x[:0].copy(), slice(0, 0), (0,)
            yield 'scalar', np.array(x[1]), 1, ()
            yield 'one', x[2:3].copy(), slice(2, 3), (1,)
        for form, a, sel, sh in forms():
            for ro in (False, True):
                a.flags.writeable = not ro
                before = a.copy()
                try:
                    r = np.asarray(f(a))
                except ValueError as exc:
                    t.check(False, "accepts the argument", name=nm, form=form, ro=ro,
                            error=str(exc))
                    continue
                t.equal(a, before, "argument unchanged", name=nm, form=form, ro=ro)
                q = e[..., sel] if axis != 'l' else e[sel]
                q = np.asarray(q).reshape((e.shape[:-1] + sh) if axis == 'f' else
                                          (sh + e.shape[1:]) if axis == 'l' else sh)
                t.check(r.shape == q.shape, "shape of the argument", name=nm, form=form,
                        shape=r.shape)
                t.equal(np.isnan(r), np.isnan(q), "defined alike", name=nm, form=form)
                r, q = [np.where(np.isnan(q), 0, v) for v in (r, q)]
                t.close(r, q, "same values in every form", name=nm, form=form, rtol=1e-13,
                        atol=1e-13 * max(1, np.nanmax(np.abs(e))))


@case
def after_errors(t):
    """a call that is refused leaves no trace"""
    S = subjects()
    first = [copy.deepcopy(f(o)) for _, o, f in S]
    for (nm, o, f), e in zip(S, first):
        state = digest(o)
        for bad in ((np.array([1e6, np.nan]),), (np.array([.5, 1e9]),), ('x',), (),
                    (np.ones((2, 2)), 5, 6, 7)):
            for g in (o if callable(o) else None, getattr(o, 'evaluate', None),
                      getattr(o, 'fit', None), getattr(o, 'value', None),
                      getattr(o, 'to_IR', None)):
                if g is None:
                    continue
                try:
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        g(*bad)
                except Exception:
                    pass
        t.check(unchanged(state, digest(o)), "object unchanged by refused calls", name=nm)
        t.check(eq(f(o), e), "same result after refused calls", name=nm)
