"""Hooks called by the instrumented source (see load.py).

Every hook behaves exactly like the Python construct it replaces when its
arguments are concrete.
"""
import builtins
import z3

from . import terms as T
from . import symarr as S
from .terms import Unsupported
from .symarr import SArr, SymSeq, cx, dexpr, dim_scalar, scalar, asarr, PathEnd


# ---- builtins -----------------------------------------------------------------
def sym_len(x):
    if isinstance(x, SArr):
        if not x._shape:
            raise TypeError("len() of unsized object")
        d = x._shape[0]
        return d if isinstance(d, int) else dim_scalar(d)
    if isinstance(x, SymSeq):
        d = dexpr(x.length)
        return d if isinstance(d, int) else dim_scalar(x.length)
    n = getattr(type(x), '__len__', None)
    if n is not None and not isinstance(x, (list, tuple, dict, str, set, frozenset, range)):
        r = n(x)
        return r
    return builtins.len(x)


def sym_int(x=0, *a):
    if isinstance(x, SArr):
        if x.ndim and not all(S.is_one(d) for d in x._shape):
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        e = x.at(*([0] * x.ndim))
        if x.kind == 'c':
            raise TypeError("int() argument must not be complex")
        if getattr(x, '_dim', None) is not None:
            return x
        r = S.cast_elem(e, S.INT64, explicit=True)
        v = T.simp(r.val)
        if isinstance(v, int):
            return v
        if r.wd is not True:
            cx().obligation("int() of a defined value", r.wd)
        return scalar(v, S.INT64)
    return builtins.int(x, *a)


def sym_float(x=0.0):
    if isinstance(x, SArr):
        if x.ndim and not all(S.is_one(d) for d in x._shape):
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        if x.kind == 'c':
            raise TypeError("float() argument must not be complex")
        e = x.at(*([0] * x.ndim))
        if x.kind == 'f':
            return x if x.ndim == 0 else scalar(e.val, S.F64, e.wd, e.nan)
        return scalar(T.to_real(e.val), S.F64, e.wd, e.nan)
    return builtins.float(x)


def sym_complex(x=0, y=0):
    if isinstance(x, SArr) or isinstance(y, SArr):
        return asarr(x).astype(complex) + 1j * asarr(y)
    return builtins.complex(x, y)


def sym_range(*a):
    if not any(isinstance(x, SArr) for x in a):
        return builtins.range(*a)
    vals = []
    for x in a:
        if isinstance(x, SArr):
            if x.kind != 'i':
                raise TypeError("'float' object cannot be interpreted as an integer")
            vals.append(T.simp(x.scalar().val))
        else:
            vals.append(x)
    if all(isinstance(v, int) for v in vals):
        return builtins.range(*vals)
    if len(vals) == 1:
        lo, hi = 0, vals[0]
    elif len(vals) == 2:
        lo, hi = vals
    else:
        raise Unsupported("range with step")
    d = T.simp(T.sub(hi, lo)) if lo != 0 else hi
    if not cx().entails(T.ge(d, 0)):
        d = T.ite(T.ge(d, 0), d, 0)
    return SymSeq(d, lambda k: scalar(T.simp(T.add(lo, S.lin(k))), S.INT64))


def _symlen(x):
    if isinstance(x, SymSeq):
        return None if isinstance(dexpr(x.length), int) else x.length
    if isinstance(x, SArr):
        if not x._shape:
            raise TypeError("iteration over a 0-d array")
        return None if isinstance(dexpr(x._shape[0]), int) else x._shape[0]
    return None


def _item(x):
    if isinstance(x, SymSeq):
        return x.item
    if isinstance(x, SArr):
        def item(k):
            if isinstance(k, int):
                return x[k]
            # the caller keeps k in range (no bounds check here: k may be the index
            # of an alternative that is not selected)
            f = x.snap()
            r = S.mk(lambda ix: f((k,) + tuple(ix)), x._shape[1:], x.dtype)
            if len(x._shape) == 1:
                r._is_scalar = True
            return r
        return item
    x = builtins.list(x)
    return lambda k: x[k]


def _idx(k):
    if isinstance(k, int):
        return k
    s = scalar(S.lin(k), S.INT64)
    s._ixobj = k
    return s


def as_seq(x):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, SArr):
        return SymSeq(x._shape[0], _item(x))
    if isinstance(x, builtins.range):
        return SymSeq(len(x), lambda k: x[k] if isinstance(k, int) else scalar(
            T.add(x.start, T.mul(x.step, S.lin(k))), S.INT64))
    x = builtins.list(x)
    return SymSeq(len(x), lambda k: x[k])


def sym_zip(*xs, **kw):
    if not any(_symlen(x) is not None for x in xs):
        return builtins.zip(*xs, **kw)
    seqs = [as_seq(x) for x in xs]
    d = seqs[0].length
    for s in seqs[1:]:
        if not S.dims_equal(d, s.length):
            if cx().branch(T.lt(dexpr(s.length), dexpr(d))):
                d = s.length
    return SymSeq(d, lambda k: tuple(s.item(k) for s in seqs))


def sym_enumerate(x, start=0):
    if _symlen(x) is None:
        return builtins.enumerate(x, start)
    s = as_seq(x)
    return SymSeq(s.length, lambda k: (scalar(T.add(S.lin(k), start), S.INT64), s.item(k)))


def sym_map(f, *xs):
    if not any(_symlen(x) is not None for x in xs):
        return builtins.map(f, *xs)
    z = sym_zip(*xs)
    if len(xs) == 1:
        s = as_seq(xs[0])
        return s.map(f)
    return z.map(lambda t: f(*t))


def sym_list(*x):
    if x and _symlen(x[0]) is not None:
        return as_seq(x[0])
    return builtins.list(*x)


def sym_tuple(*x):
    if x and _symlen(x[0]) is not None:
        return as_seq(x[0])
    return builtins.tuple(*x)


def sym_iter(x):
    if _symlen(x) is not None:
        return as_seq(x)
    return builtins.iter(x)


def sym_reversed(x):
    if _symlen(x) is not None:
        s = as_seq(x)
        n = dexpr(s.length)
        return SymSeq(s.length, lambda k: s.item(T.simp(T.sub(T.sub(n, 1), S.lin(k)))))
    return builtins.reversed(x)


def _minmax(name):
    def f(*a, **k):
        xs = a
        if len(a) == 1:
            if _symlen(a[0]) is not None:
                x = a[0]
                return S.reduce_minmax(asarr(x), None, name)
            xs = builtins.list(a[0])
            if not xs:
                if 'default' in k:
                    return k['default']
                raise ValueError(f"{name}() arg is an empty sequence")
        if not any(isinstance(x, SArr) for x in xs) or k.get('key') is not None:
            return getattr(builtins, name)(*a, **k)
        r = xs[0]
        for x in xs[1:]:
            better = (asarr(x) > asarr(r)) if name == 'max' else (asarr(x) < asarr(r))
            if better:
                r = x
        return r
    return f


def sym_sum(x, start=0):
    if _symlen(x) is not None:
        s = as_seq(x)
        return asarr(s).sum(axis=0) + start
    r = start
    for v in x:
        r = r + v
    return r


def sym_sorted(x, **kw):
    if _symlen(x) is not None:
        if kw:
            raise Unsupported("sorted() with key")
        from . import symnp
        return as_seq(symnp.sort(asarr(x)))
    return builtins.sorted(x, **kw)


def sym_abs(x):
    return abs(x)


def sym_bool(x=False):
    return builtins.bool(x)


def sym_round(x, nd=None):
    if isinstance(x, SArr):
        if nd is not None:
            raise Unsupported("round digits")
        return sym_int(x.round())
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def _anyall(kind):
    def f(x):
        if _symlen(x) is not None:
            return builtins.bool(S.reduce_bool(asarr(x), None, kind))
        return getattr(builtins, kind)(x)
    return f


class ScalarType:
    """dtype.type: constructor of scalars of that type"""

    def __init__(self, dt):
        self.dt = dt

    def __call__(self, x=0):
        if isinstance(x, SArr):
            r = x.astype(self.dt)
            if not r._shape:
                r._is_scalar = True
            return r
        return self.dt.type(x)

    def __eq__(self, o):
        return o is self.dt.type or isinstance(o, ScalarType) and o.dt == self.dt

    def __hash__(self):
        return hash(self.dt.type)


def sym_type(x):
    import numpy as np
    if isinstance(x, np.dtype):
        return ScalarType(x)
    return x.type


# ---- calls with a starred sequence -----------------------------------------------
class StarArg:
    def __init__(self, seq):
        self.seq = seq


def callstar(f, seq):
    if _symlen(seq) is not None:
        if f is HOOKS['__sym_zip__']:
            return transpose_seq(as_seq(seq))
        return f(StarArg(as_seq(seq)))
    return f(*seq)


def transpose_seq(s):
    """zip(*s) for a sequence of tuples of equal, known length"""
    ctx = cx()
    k = ctx.fresh_idx(s.length)
    ctx.scopes.append(S.Scope())
    try:
        probe = s.item(k)
    finally:
        loc = ctx.scopes.pop().facts
    for lf in loc:
        ctx.fact(ctx.forall([k], T.implies(ctx.in_range(k, s.length), lf)))
    if not isinstance(probe, tuple):
        raise Unsupported("zip(*seq) of other than tuples")
    if ctx.branch(T.eq(dexpr(s.length), 0)):
        return []
    return [SymSeq(s.length, lambda q, c=c: s.item(q)[c]) for c in range(len(probe))]


def unstar(t):
    if len(t) == 1 and isinstance(t[0], StarArg):
        return t[0].seq
    if any(isinstance(x, StarArg) for x in t):
        raise Unsupported("starred symbolic sequence among other arguments")
    return t


# ---- comprehensions ---------------------------------------------------------------
def symcomp(kind, it, f):
    if _symlen(it) is not None:
        s = as_seq(it).map(f)
        return S.SymList(s.length, s.item) if kind == 'list' else s
    if kind == 'list':
        return [f(x) for x in it]
    return (f(x) for x in it)


# ---- loop contracts ------------------------------------------------------------------
class LoopContract:
    """invariant of a loop.

    inv(env, k) -> list of (label, formula): env gives the current values of
    the local variables, k the number of completed iterations (for loops).
    havoc: variable -> function(ctx, old value, env) giving an arbitrary value
    of the right kind; default: same shape and dtype, arbitrary elements.
    variant: optional function(env) -> integer/real that must decrease.
    """

    def __init__(self, key, inv, havoc=None, keep=(), variant=None, assume=None):
        self.key, self.inv, self.havoc = key, inv, dict(havoc or {})
        self.keep = set(keep)
        self.variant = variant
        self.extra = assume


LOOPS = {}        # key -> LoopContract; installed by the running scenario


class Env:
    def __init__(self, d):
        self.__dict__['_d'] = d

    def __getattr__(self, n):
        try:
            return self._d[n]
        except KeyError:
            raise Unsupported(f"loop contract refers to missing variable {n!r}")

    def __contains__(self, n):
        return n in self._d


class LoopState:
    pass


def loop_begin(key, it, loc):
    st = LoopState()
    c = LOOPS.get(key)
    st.c = c
    if c is None:
        raise Unsupported(f"loop {key} has no contract in this scenario")
    st.seq = None
    if it is not None:
        st.seq = as_seq(it)
        st.n = dexpr(st.seq.length)
    st.loc = dict(loc)
    ctx = cx()
    for lab, f in c.inv(Env(st.loc), 0):
        ctx.obligation(f"loop {c.key[1]}#{c.key[2]} invariant holds on entry: {lab}", f)
    st.k = ctx.fresh_int('it') if it is not None else None
    st.new = {}
    return st


def fresh_like(ctx, name, old):
    from .scenario import fresh_array
    if isinstance(old, SArr):
        return fresh_array(ctx, ctx.fresh(name), old._shape, old.dtype, scalar=getattr(
            old, '_is_scalar', False))
    if isinstance(old, bool):
        return scalar(z3.Bool(ctx.fresh(name)))
    if isinstance(old, int):
        return scalar(z3.Int(ctx.fresh(name)))
    if isinstance(old, float):
        return scalar(z3.Real(ctx.fresh(name)))
    raise Unsupported(f"cannot havoc loop variable {name} of type {type(old).__name__}")


_MISSING = object()


def loop_havoc(st, name):
    old = st.loc.get(name, _MISSING)
    if name in st.c.havoc:
        v = st.c.havoc[name](cx(), None if old is _MISSING else old, Env(st.loc))
    elif old is _MISSING:
        v = None                       # first bound inside the loop
    elif name in st.c.keep:
        v = old
    else:
        v = fresh_like(cx(), name, old)
    st.new[name] = v
    return v


def loop_assume(st, loc):
    ctx = cx()
    env = Env(dict(loc))
    st.entry = env
    if st.k is not None:
        ctx.fact(z3.And(st.k >= 0, st.k <= T.z(st.n)))
    for lab, f in st.c.inv(env, st.k):
        if not (isinstance(f, bool) and f):
            from .prover import EqGoal
            if isinstance(f, EqGoal):
                a, b = T.cx(f.a), T.cx(f.b)
                f = T.and_(T.eq(a.re, b.re), T.eq(a.im, b.im)) \
                    if isinstance(f.a, T.Cx) or isinstance(f.b, T.Cx) else T.eq(f.a, f.b)
            ctx.fact(f)
    if st.c.variant is not None:
        st.var0 = st.c.variant(env)


def loop_iter(st):
    return cx().branch(T.lt(st.k, st.n))


def loop_item(st):
    return st.seq.item(st.k)


def loop_enter(st, loc):
    pass


def loop_end(st, loc):
    from .prover import is_quant
    ctx = cx()
    c = st.c
    env = Env(dict(loc))
    k = None if st.k is None else st.k + 1
    for lab, f in c.inv(env, k):
        ok = ctx.obligation(f"loop {c.key[1]}#{c.key[2]} invariant preserved: {lab}", f)
        if ok and isinstance(f, z3.BoolRef) and not is_quant(f):
            ctx.fact(f)          # proved: available to the following obligations
    if c.variant is not None:
        v0, v1 = st.var0, c.variant(env)
        ctx.obligation(f"loop {c.key[1]}#{c.key[2]} variant decreases",
                       T.and_(T.lt(v1, v0), T.ge(v0, 0)))
    raise PathEnd()


HOOKS = {
    '__sym_len__': sym_len, '__sym_int__': sym_int, '__sym_float__': sym_float,
    '__sym_range__': sym_range, '__sym_zip__': sym_zip, '__sym_map__': sym_map,
    '__sym_list__': sym_list, '__sym_tuple__': sym_tuple, '__sym_max__': _minmax('max'),
    '__sym_min__': _minmax('min'), '__sym_sorted__': sym_sorted,
    '__sym_enumerate__': sym_enumerate, '__sym_sum__': sym_sum, '__sym_abs__': sym_abs,
    '__sym_bool__': sym_bool, '__sym_round__': sym_round, '__sym_iter__': sym_iter,
    '__sym_complex__': sym_complex, '__sym_reversed__': sym_reversed,
    '__sym_any__': _anyall('any'), '__sym_all__': _anyall('all'),
    '__sym_type__': sym_type, '__callstar__': callstar, '__unstar__': unstar, '__symcomp__': symcomp,
    '__loop_begin__': loop_begin, '__loop_havoc__': loop_havoc,
    '__loop_assume__': loop_assume, '__loop_iter__': loop_iter, '__loop_item__': loop_item,
    '__loop_enter__': loop_enter, '__loop_end__': loop_end,
    '__symlist__': lambda: S.SymList(0, lambda k: None),
}
