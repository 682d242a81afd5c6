"""Contracts for C23: frame conditions and independence of the history of calls.

Every subject is called on arbitrary arguments in arbitrary states: the result must be
the one of an object that was never used before, nothing reachable before the calls may
have been written, and stored bound methods belong to the object they were taken from."""
import types
import numpy as np
from .common import *
from . import c01, c10, c11, c17, c18, c20, c21, c22

LEVEL = 'proof'


# ---- frame --------------------------------------------------------------------------
def ours(cls):
    return getattr(cls, '__module__', '').startswith('sparse_ir')


def children(o):
    """named parts of an object that calls could change"""
    if isinstance(o, types.ModuleType):
        return [(k, v) for k, v in vars(o).items() if not k.startswith('__')]
    if isinstance(o, type):
        return [(k, v) for k, v in vars(o).items()
                if k not in ('__dict__', '__weakref__', '__setattr__')] if ours(o) else []
    if isinstance(o, (staticmethod, classmethod)):
        return [('fn', o.__func__)]
    if isinstance(o, property):
        return [('get', o.fget)]
    if isinstance(o, types.FunctionType):
        if not o.__globals__.get('__name__', '').startswith('sparse_ir'):
            return []
        out = [('defaults', o.__defaults__), ('kwdefaults', o.__kwdefaults__)]
        out += list(vars(o).items())
        for k, c in enumerate(o.__closure__ or ()):
            try:
                out.append((f'closure {k}', c.cell_contents))
            except ValueError:
                pass
        return out
    if isinstance(o, types.MethodType):
        return [('self', o.__self__), ('fn', o.__func__)]
    if isinstance(o, dict):
        return [(repr(k), v) for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return list(enumerate(o))
    if ours(type(o)):
        return list(vars(o).items())
    return []


class Frame:
    """everything reachable from the given objects and from the modules of the package"""

    def __init__(self, cx, *roots):
        self.cx = cx
        self.seen, self.arrays, self.writes = {}, [], []
        mods = [cx.m(q) for q in ('_util', '_gauss', '_roots', 'kernel', 'poly', 'sampling',
                                  'dlr', 'augment', 'adapter', 'abstract', 'basis')]
        for r in list(roots) + mods:
            self.visit(r)
        self.watched = []
        for o, kids in list(self.seen.values()):
            if isinstance(o, type) and ours(o) and not issubclass(o, BaseException) and \
                    '__setattr__' not in vars(o):
                self.watch(o)

    def visit(self, root):
        todo = [root]
        while todo:
            o = todo.pop()
            if id(o) in self.seen:
                continue
            if isinstance(o, SArr):
                self.seen[id(o)] = o, []
                self.arrays.append((o, o.buf, o.buf.version))
                continue
            if isinstance(o, np.ndarray):
                self.seen[id(o)] = o, []
                self.arrays.append((o, None, o.copy()))
                continue
            kids = children(o)
            if kids or ours(type(o)) or isinstance(o, (dict, list)):
                self.seen[id(o)] = o, kids
                todo += [v for _, v in kids]

    def watch(self, cls):
        me = self
        missing = object()

        def setter(obj, name, value):
            if id(obj) in me.seen:
                old = getattr(obj, '__dict__', {}).get(name, missing)
                if old is not missing and old is not None and old is not value:
                    me.writes.append(f'{type(obj).__name__}.{name}')
            object.__setattr__(obj, name, value)
        cls.__setattr__ = setter
        self.watched.append(cls)

    def check(self, label='frame'):
        for cls in self.watched:
            del cls.__setattr__
        changed = sorted(set(self.writes))
        for o, kids in self.seen.values():
            new = dict(children(o))
            for k, v in kids:
                # caches may be filled in
                if v is not None and k not in new:
                    changed.append(f'{k} removed')
                elif v is not None and new[k] is not v and not (
                        type(v) is type(new[k]) and isinstance(v, (int, str, float, bool))
                        and v == new[k]) and not isinstance(
                            v, (types.BuiltinMethodType, types.MethodWrapperType)):
                    changed.append(f'{type(o).__name__}: {k}')
        for o, buf, old in self.arrays:
            if buf is None:
                if o.shape != old.shape or not np.array_equal(o, old):
                    changed.append('array overwritten')
            elif o.buf is not buf or buf.version != old:
                changed.append(f"{getattr(o, '_uf', 'array')} overwritten")
        what = ', '.join(sorted(set(changed))[:4])
        self.cx.prove(label + ': nothing that existed before is changed' +
                      (f' (changed: {what})' if what else ''), not changed)

    def owns(self, r):
        """is the result storage of something that existed before?"""
        return isinstance(r, SArr) and any(r.buf is b for _, b, _ in self.arrays)


def clone(o, memo=None):
    """the same object as its constructor left it"""
    memo = {} if memo is None else memo
    if id(o) in memo:
        return memo[id(o)]
    if ours(type(o)) and not isinstance(o, (type, types.ModuleType)) and hasattr(o, '__dict__'):
        c = object.__new__(type(o))
        memo[id(o)] = c
        for k, v in vars(o).items():
            object.__setattr__(c, k, clone(v, memo))
        return c
    if type(o) in (list, tuple):
        return type(o)(clone(q, memo) for q in o)
    if type(o) is dict:
        return {k: clone(v, memo) for k, v in o.items()}
    if isinstance(o, types.MethodType):
        return types.MethodType(o.__func__, clone(o.__self__, memo))
    return o


class Other:
    """independent symbolic inputs"""

    def __init__(self, cx, prefix):
        self._cx, self._p = cx, prefix

    def __getattr__(self, k):
        f = getattr(self._cx, k)
        if k in ('dim', 'array', 'real', 'int', 'cplx', 'scalar_in'):
            return lambda name, *a, **kw: f(self._p + name, *a, **kw)
        return f


def agree(cx, label, r, e):
    """same shape, same elements (also where they are not numbers)"""
    if isinstance(e, (tuple, list)):
        cx.prove(f'{label}: number of results', len(r) == len(e))
        for k, (a, b) in enumerate(zip(r, e)):
            agree(cx, f'{label} {k}', a, b)
        return
    r, e = asarr(r), asarr(e)
    cx.prove_shape(label, r, e._shape)
    q = tuple(cx.idx(d) for d in e._shape)
    a, b = r.at(*q), e.at(*q)
    cx.prove_eq(f'{label}: element', a.val, b.val)
    cx.prove(f'{label}: defined alike', T.and_(T.eq(T.z(wdb(a.wd)), T.z(wdb(b.wd))),
                                               T.eq(T.z(a.nan), T.z(b.nan))))


def result(o):
    """arrays of a result"""
    if isinstance(o, SArr):
        return o
    if ours(type(o)):
        return [v for k, v in sorted(vars(o).items()) if isinstance(v, SArr)]
    if isinstance(o, (tuple, list)):
        return [result(q) for q in o]
    return asarr(o)


def pure(build, get, args, view=False):
    """history: fresh call; then calls with other arguments and on another object, stored
    bound methods, repeated calls"""
    def f(cx):
        o = build(cx)
        u = build(Other(cx, 'other_'))
        fresh = clone(o)
        b, a, c = args(cx, o), args(Other(cx, 'first_'), o), args(Other(cx, 'own_'), u)
        run = lambda g, x: result(c17.warned(cx, lambda: g(*x))[0])
        e = run(get(fresh), b)
        f1, g1 = get(o), get(u)
        es = run(get(clone(u)), c)
        frame = Frame(cx, o, u, fresh, a, b, c, e, es, f1, g1)
        try:
            s1 = run(g1, c)
            run(f1, a)
            r1 = run(f1, b)
            s2 = run(g1, c)
            r2 = run(get(o), b)
        finally:
            frame.check()
        agree(cx, 'stored method after other calls', r1, e)
        agree(cx, 'again', r2, e)
        agree(cx, 'other object', s1, es)
        agree(cx, 'other object, after calls on this one', s2, es)
        if not view:
            for r in (r1 if isinstance(r1, list) else [r1]):
                cx.prove('result has its own storage', not frame.owns(r))
    return f


# ---- the decorator -----------------------------------------------------------------
IN = T.fn('inner', T.RS, T.IS, T.RS, T.RS)


def ravel(last, rank, inst):
    def f(cx):
        util = cx.m('_util')
        K = cx.dim('K', 1)

        def body(key, x):
            x = asarr(x)
            cx.prove('inner function gets a vector', x.ndim == 1)
            s, n = x.snap(), x._shape[0] if x.ndim else 1
            val = lambda l, p: E(IN(T.z(key), T.z(lin(l)), T.z(R(s((p,)).val))))
            if last:
                return mk(lambda ix: val(ix[0], ix[1]), (K, n), S.F64)
            return mk(lambda ix: val(ix[1], ix[0]), (n, K), S.F64)

        class Host:
            def __init__(self, key):
                self.key = key

            @util.ravel_argument(last_dim=last)
            def __call__(self, x):
                return body(self.key, x)

            @util.ravel_argument(last_dim=last)
            def nested(self, x):
                other(x)
                return body(self.key, x)

        free = util.ravel_argument(last_dim=last)(lambda x: body(Fr(0), x))
        hosts = [Host(cx.real(f'key{k}').v()) for k in range(3)]
        other = hosts[2].__call__
        desc = dict(vars(Host))
        sh = tuple(cx.dim(f'n{k}', 0) for k in range(rank))
        x = cx.array('x', sh) if rank else cx.scalar_in('x', 'f')
        y = cx.array('y', (cx.dim('m', 0),))
        frame = Frame(cx, x, y, *desc.values())

        def correct(label, r, key, x=x, sh=sh):
            r = asarr(r)
            cx.prove_shape(label, r, (K,) + sh if last else sh + (K,))
            q, l = tuple(cx.idx(d) for d in sh), cx.idx(K)
            cx.prove_elem(label, r.at(*((l,) + q if last else q + (l,))),
                          IN(T.z(key), T.z(lin(l)), T.z(R(x.v(*q)))))
        call = lambda g, x=x: cx.run(g, x)
        try:
            if inst:
                stored = [h.__call__ for h in hosts]
                nest = [h.nested for h in hosts]
                for k in (0, 1, 0, 2, 1):
                    correct(f'stored method {k}', call(stored[k]), hosts[k].key)
                call(stored[1], y)
                correct('after other arguments', call(stored[0]), hosts[0].key)
                correct('direct call', call(hosts[1]), hosts[1].key)
                correct('direct call', call(hosts[0]), hosts[0].key)
                correct('stored method after direct calls', call(stored[1]), hosts[1].key)
                correct('nested', call(nest[0]), hosts[0].key)
                correct('nested', call(nest[1]), hosts[1].key)
                correct('stored method after nested calls', call(stored[0]), hosts[0].key)
                correct('through the class', cx.run(type(hosts[0]).__call__.__get__(
                    hosts[1], Host), x), hosts[1].key)
                correct('earlier method', call(stored[0]), hosts[0].key)
            else:
                correct('function', call(free), Fr(0))
                call(hosts[1])
                correct('function after methods', call(free), Fr(0))
        finally:
            frame.check()
    return f


# ---- subjects ----------------------------------------------------------------------
def points(cx, lo, hi, rank):
    sh = tuple(cx.dim(f'n{k}', 0) for k in range(rank))
    x = cx.array('x', sh) if rank else cx.scalar_in('x', 'f')
    ins = lambda *ix: T.and_(T.le(lo, x.v(*ix)), T.le(x.v(*ix), hi))
    cx.assume_all(sh, ins) if rank else cx.assume(ins())
    return x


def poly_args(rank, with_l=False):
    def args(cx, p):
        P, I, L, data, knots = p._c
        x = points(cx, knots.v(0), knots.v(I), rank)
        if not with_l:
            return x,
        l = cx.int('l')
        cx.assume(T.and_(T.le(0, l.v()), T.lt(l.v(), lin(L[0]))))
        return l, x
    return args


def the_poly(cx):
    cx.m('poly')
    return make_poly(cx, ('L',), symm=True)


def deriv_args(cx, p):
    return ()


def derivs(n):
    def get(p):
        def both():
            d = p.deriv(n)
            return [d.data, d.symm, d.knots, d.dx]
        return both
    return get


def element(kind):
    def get(p):
        def item(l):
            r = p[l]
            return [r.data, r.symm, r.knots]
        return item

    def args(cx, p):
        l = cx.int('l')
        cx.assume(T.and_(T.le(0, l.v()), T.lt(l.v(), lin(p._c[2][0]))))
        return l,
    return pure(the_poly, get, args, view=True)


class Model:
    """contract of the asymptotic model (C11): a function of frequency per basis function"""

    def __init__(self, cx, L, key):
        self.L, self.key = L, key

    def giw(self, wn):
        s = asarr(wn).snap()
        f = [T.fn(f'model_{q}', T.RS, T.IS, T.IS, T.RS) for q in ('re', 'im')]
        return mk(lambda ix: E(Cx(*[g(T.z(self.key), T.z(lin(ix[1])), T.z(s((ix[0],)).val))
                                    for g in f])),
                  (asarr(wn)._shape[0], self.L), S.C128)


def the_ft(freq, asymp):
    def build(cx):
        poly = cx.m('poly')
        p = make_poly(cx, ('L',), Fr(-1), Fr(1))
        P, I, (L,), data, knots = p._c
        kw = {}
        if asymp:
            kw = dict(n_asymp=cx.int('n_asymp'), power_model=Model(cx, L, cx.real('key').v()))
        ft = cx.run(poly.PiecewiseLegendreFT, p, freq, label='constructor', **kw)
        f = [T.fn(f'unl_{q}', T.RS, T.RS, T.IS, T.IS, T.RS) for q in ('re', 'im')]

        def inner_stub(q, n):
            # contract of the direct transform (C10): a function of the polynomial and n
            s, k, a = asarr(n).snap(), q.knots.v(0), q.data.v(0, 0, 0)
            return mk(lambda ix: E(Cx(*[g(T.z(a), T.z(q.knots.v(T.sub(lin(q._c[1]), 1))),
                                          T.z(lin(ix[0])), T.z(s((ix[1],)).val)) for g in f])),
                      (q.data._shape[2], asarr(n)._shape[0]), S.C128)
        cx.patch('poly', '_compute_unl_inner', inner_stub)
        return ft
    return build


def frequencies(zeta, rank, kind='i'):
    def args(cx, o):
        sh = tuple(cx.dim(f'n{k}', 0) for k in range(rank))
        n = cx.array('n', sh, kind) if rank else cx.scalar_in('n', kind)
        if zeta is not None:
            par = lambda *ix: T.eq(n.v(*ix) % 2, zeta)
            cx.assume_all(sh, par) if rank else cx.assume(par())
        return n,
    return args


def the_model(M):
    return lambda cx: c11.model(cx, M)[0]


def the_kernel(name, sign=None):
    def build(cx):
        K = cx.run(getattr(cx.m('kernel'), name), c01.lam(cx), label='constructor')
        return K if sign is None else cx.run(K.get_symmetrized, sign)
    return build


def kernel_args(shape, which, lo=-1):
    def args(cx, o):
        x, y, sh, ix = c01.args(cx, shape)
        c01.box(cx, x, lo)
        c01.box(cx, y, lo)
        extra = [None, None]
        for k, (nm, fn) in enumerate((('p', lambda *q: T.to_real(x.v(*q)) if lo == 0
                                       else T.add(1, T.to_real(x.v(*q)))),
                                      ('m', lambda *q: T.sub(1, T.to_real(x.v(*q)))))):
            if nm in which:
                extra[k] = cx.fnarray(x._shape, fn)
                extra[k]._is_scalar = not x._shape
        return (x, y, *extra)
    return args


def the_rule(nested):
    def build(cx):
        g = cx.m('_gauss')
        n = cx.dim('n', 1)
        a, b = cx.real('a'), cx.real('b')
        cx.assume(T.lt(a.v(), b.v()))
        x, w = cx.array('x', (n,)), cx.array('w', (n,))
        if not nested:
            return cx.run(g.Rule, x, w, a=a, b=b, label='constructor')
        return cx.run(g.NestedRule, x, w, cx.array('v', (cx.dim('nv', 1),)), a=a, b=b,
                      label='constructor')
    return build


def two_ends(cx, o):
    c, d = cx.real('c'), cx.real('d')
    cx.assume(T.lt(c.v(), d.v()))
    return c, d


def pieces(cx, o):
    return knots_array(cx, cx.dim('pieces', 1), 'edges'),


def the_sampling(kind):
    return lambda cx: c18.build(cx, kind, True)[1]


def coefficients(kind, rank, axis, what, coef='c'):
    def args(cx, s):
        n = s.matrix.a._shape[1 if what == 'evaluate' else 0] if what == 'evaluate' else \
            asarr(s.sampling_points)._shape[0]
        dims = [n if d == axis else cx.dim(f'd{d}') for d in range(rank)]
        return cx.array('al', dims, coef), axis
    return args


def positive_svd(build, rows, cols):
    def f(cx):
        if isinstance(cx, Other):
            # one kind of other object is enough: as many points as needed, well conditioned
            cx.assume(T.ge(z3.Int(cx._p + rows), z3.Int(cx._p + cols)))
            cx.assume(T.gt(T.fn(cx._p + 'points', T.IS, T.IS)(0), 0))
        s = build(cx)
        sv = cx.ctx.svds[-1][2]
        if isinstance(cx, Other):
            cx.assume_all(sv._shape, lambda k: T.eq(sv.v(k), 1))
        cx.assume(T.gt(sv.v(0), 0))
        cx.assume_all(sv._shape, lambda k: T.or_(T.eq(sv.v(k), 0), T.gt(sv.v(k), 0)))
        return s
    return f


def the_poles(cls, stat):
    def build(cx):
        d = cx.m('dlr')
        beta = cx.real('beta')
        cx.assume(T.gt(beta.v(), 0))
        P, w = c20.poles(cx)
        return cx.run(getattr(d, cls), stat, beta, w, label='constructor')
    return build


def tau_of(cx, o):
    return points(cx, 0, asarr(o._beta).v(), 1),


def the_dlr(cx):
    return c20.build(cx, 'F', True)[0]


def dlr_args(what, rank, axis):
    def args(cx, o):
        n = asarr(o.matrix.a)._shape[1 if what == 'to_IR' else 0]
        dims = [n if d == axis else cx.dim(f'd{d}') for d in range(rank)]
        return cx.array('g', dims), axis
    return args


def the_augmentation(cls):
    return lambda cx: c21.make(cx, cls)[0]


def aug_tau(cx, g):
    return points(cx, 0, asarr(g._beta).v(), 1),


def the_augmented(n):
    def build(cx):
        b = c21.build(cx, n)
        return b[0]
    return build


def the_adapter(cx):
    return c22.build(cx, 'F')[0]


def one_function(cx, b):
    return cx.int('l'), cx.array('X', (cx.dim('a'), cx.dim('c')))


def all_functions(cx, b):
    return None, cx.array('X', (cx.dim('a'),))


SCENARIOS = [Scenario(f"ravel{'-last' if q else ''}-{r}{'' if i else '-free'}", ravel(q, r, i),
                      functions=['_util.RavelArgumentDecorator.__init__',
                                 '_util.RavelArgumentDecorator.__get__',
                                 '_util.RavelArgumentDecorator.__call__', '_util.ravel_argument'])
             for q in (False, True) for r in (0, 1, 2, 3) for i in (True, False)
             if i or r in (0, 2)]


def add(name, fn, *functions):
    SCENARIOS.append(Scenario(name, fn, functions=list(functions)))


PP, FT, PM = 'poly.PiecewiseLegendrePoly.', 'poly.PiecewiseLegendreFT.', 'poly._PowerModel.'
for r_ in (0, 1, 2):
    add(f'poly-call-{r_}', pure(the_poly, lambda p: p.__call__, poly_args(r_)),
        PP + '__call__', PP + '_split')
add('poly-value', pure(the_poly, lambda p: p.value, poly_args(1, True)), PP + 'value')
for n_ in (0, 1, 2):
    add(f'poly-deriv-{n_}', pure(the_poly, derivs(n_), deriv_args, view=True), PP + 'deriv')
add('poly-select', element('int'), PP + '__getitem__')
for fr_, z_ in (('odd', 1), ('even', 0)):
    for as_ in (False, True):
        add(f"ft-{fr_}{'-asymp' if as_ else ''}", pure(
            the_ft(fr_, as_), lambda o: o.__call__, frequencies(z_, 1)), FT + '__call__')
add('model', pure(the_model(3), lambda o: o.giw, frequencies(None, 1)), PM + 'giw')
for k_ in ('LogisticKernel', 'RegularizedBoseKernel'):
    fs_ = [f'kernel.{k_}.__call__', f'kernel.{k_}._compute', 'kernel._check_domain']
    add(f'{k_}', pure(the_kernel(k_), lambda o: o.__call__, kernel_args('1d', '')), *fs_)
    add(f'{k_}-edges', pure(the_kernel(k_), lambda o: o.__call__, kernel_args('1d', 'pm')), *fs_)
    for s_ in (1, -1):
        add(f'{k_}-reduced{s_:+d}', pure(the_kernel(k_, s_), lambda o: o.__call__, kernel_args(
            '1d', '', 0)), *fs_, 'kernel.ReducedKernel.__call__')
for n_ in (False, True):
    q_ = 'nested-' if n_ else ''
    c_ = '_gauss.' + ('NestedRule' if n_ else 'Rule')
    add(f'{q_}reseat', pure(the_rule(n_), lambda o: o.reseat, two_ends, view=True),
        c_ + '.reseat')
    add(f'{q_}scale', pure(the_rule(n_), lambda o: o.scale, lambda cx, o: (cx.real('f'),),
                           view=True), c_ + '.scale')
for k_ in ('tau', 'freq', 'positive'):
    c_ = 'sampling.' + ('TauSampling' if k_ == 'tau' else 'MatsubaraSampling')
    add(f'{k_}-evaluate', pure(the_sampling(k_), lambda s: s.evaluate, coefficients(
        k_, 2, 1, 'evaluate')), c_ + '.evaluate', 'sampling.AbstractSampling.evaluate')
    add(f'{k_}-fit', pure(positive_svd(the_sampling(k_), 'M', 'L'), lambda s: s.fit, coefficients(
        k_, 2, 1, 'fit')), c_ + '.fit', 'sampling.AbstractSampling.fit',
        'sampling.DecomposedMatrix.lstsq', 'sampling.SplitDecomposedMatrix.lstsq')
for s_ in 'FB':
    add(f'poles-frequency-{s_}', pure(the_poles('MatsubaraPoles', s_), lambda o: o.__call__,
                                      frequencies(c20.zeta_of(s_), 1)),
        'dlr.MatsubaraPoles.__call__')
    add(f'poles-time-{s_}', pure(the_poles('TauPoles', s_), lambda o: o.__call__, tau_of),
        'dlr.TauPoles.__call__')
D_ = 'dlr.DiscreteLehmannRepresentation.'
add('dlr-to', pure(the_dlr, lambda o: o.to_IR, dlr_args('to_IR', 2, 1)), D_ + 'to_IR')
add('dlr-from', pure(positive_svd(the_dlr, 'L', 'p'), lambda o: o.from_IR, dlr_args('from_IR', 2, 1)),
    D_ + 'from_IR')
for c_ in ('TauConst', 'TauLinear', 'MatsubaraConst'):
    A_ = f'augment.{c_}.'
    add(f'{c_}', pure(the_augmentation(c_), lambda g: g.__call__, aug_tau), A_ + '__call__')
    add(f'{c_}-hat', pure(the_augmentation(c_), lambda g: g.hat, frequencies(0, 1)), A_ + 'hat')
for n_ in (0, 2):
    add(f'augmented-u-{n_}', pure(the_augmented(n_), lambda b: b.u.__call__,
                                  lambda cx, o: (cx.array('tau', (cx.dim('n', 0),)),)),
        'augment.AugmentedTauFunction.__call__')
    add(f'augmented-uhat-{n_}', pure(the_augmented(n_), lambda b: b.uhat.__call__,
                                     frequencies(None, 1)),
        'augment.AugmentedMatsubaraFunction.__call__')
for m_ in ('ulx', 'vly'):
    add(f'adapter-{m_}', pure(the_adapter, lambda b, m_=m_: getattr(b, m_), one_function),
        f'adapter.Basis.{m_}')
    add(f'adapter-{m_}-all', pure(the_adapter, lambda b, m_=m_: getattr(b, m_), all_functions),
        f'adapter.Basis.{m_}')
add('adapter-unl', pure(the_adapter, lambda b: b.compute_unl, lambda cx, b: (
    cx.array('n', (cx.dim('m', 2),), 'i'),)), 'adapter.Basis.compute_unl')

ASSUMED = ["single operations of Python and NumPy may run concurrently (a call that writes to no "
           "object existing before it cannot be observed by, or observe, a concurrent call; "
           "caches may be filled in)",
           "caches that calls fill in are themselves covered: results must be those of an object "
           "never used"]
BOUNDED = ["histories: a stored method called before and after calls with other arguments and on "
           "another object (the frame condition extends this to every history); threads (battery)"]
