"""The numpy that the verified code sees.

With a symbolic context active, every function below works on symbolic arrays;
outside of one (module import) everything is delegated to the real numpy.
External numeric algorithms (sort, searchsorted, svd, ...) are represented by
their contracts; each use is recorded in TRUSTED.
"""
from fractions import Fraction
import builtins
import types
import numpy as np
import z3

from . import terms as T
from .terms import Unsupported, Cx
from . import symarr as S
from .symarr import (E, SArr, Ctx, cx, mk, scalar, asarr, as_dim, dexpr, factors, mkprod,
                     same, lin, Flat, Part, DimSum, DimProd, INT64, F64, C128, BOOL,
                     broadcast_shape, broadcast_fn, align_idx, cast_elem, wdb, SymSeq,
                     contains_sym, binop, unop, ufunc_call, elem_binop, elem_unop,
                     from_conc, const_array, uninit, result_kind, unop_dtype)
from . import indexing
from .sums import make_sum

TRUSTED = set()          # external contracts used


def trusted(name):
    TRUSTED.add(name)


def active():
    return Ctx.cur is not None


# ---- constants and types ------------------------------------------------------
newaxis = None
inf = float('inf')
nan = float('nan')
ndarray = SArr
float64, float32, double, int64 = np.float64, np.float32, np.double, np.int64
complex128, bool_, integer = np.complex128, np.bool_, np.integer
floating, complexfloating, inexact = np.floating, np.complexfloating, np.inexact
number, generic = np.number, np.generic
dtype = np.dtype


class _Finfo:
    pass


def finfo(dt):
    d = getattr(dt, 'dtype', None)
    dt = d if isinstance(d, np.dtype) else np.dtype(dt)
    fi = np.finfo(dt)
    if not active():
        return fi
    r = _Finfo()
    r.eps = scalar(Fraction(float(fi.eps)), F64)
    r.tiny = scalar(Fraction(float(fi.tiny)), F64)
    r.max = scalar(Fraction(float(fi.max)), F64)
    return r


def issubdtype(a, b):
    return np.issubdtype(a, b)


def result_type(*args):
    ds = []
    for a in args:
        if isinstance(a, SArr):
            ds.append(a.dtype)
        elif isinstance(a, SymSeq):
            ds.append(a.to_array().dtype)
        elif isinstance(a, (list, tuple)):
            ds.append(asarr(a).dtype)
        else:
            ds.append(a)
    return np.result_type(*ds)


def _delegate(name):
    f = getattr(np, name)

    def g(*a, **k):
        return f(*a, **k)
    return g


def _dual(fn):
    """use the real numpy when no context is active"""
    name = fn.__name__.rstrip('_')

    def g(*a, **k):
        if not active():
            return getattr(np, name)(*a, **k)
        return fn(*a, **k)
    g.__name__ = name
    return g


# ---- creation -----------------------------------------------------------------
@_dual
def array(x, dtype=None, copy=True):
    a = asarr(x)
    if getattr(a, '_is_scalar', False):
        r = mk(a.snap(), a._shape, a.dtype)
        r._is_scalar = False
        return r if dtype is None else r.astype(dtype)
    a = a.copy()
    return a if dtype is None else a.astype(dtype)


@_dual
def asarray(x, dtype=None):
    a = asarr(x)
    if isinstance(x, SArr) and x.ndim == 0 and getattr(x, '_is_scalar', False):
        d = getattr(x, '_dim', None)
        e = x.at()
        a = mk(lambda ix: e, (), x.dtype)
        a._is_scalar = False
        if d is not None:
            a._dim = d
    elif getattr(a, '_is_scalar', False):
        f = a.snap()
        a = mk(f, (), a.dtype)
        a._is_scalar = False
    if dtype is not None and a.dtype != np.dtype(dtype):
        a = a.astype(dtype)
    return a


asanyarray = asarray


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(as_dim(x) for x in s)
    return (as_dim(s),)


def _kconst(v, dt):
    k = dt.kind
    if k == 'c':
        return Cx(Fraction(v), Fraction(0))
    if k == 'f':
        return Fraction(v)
    if k == 'b':
        return bool(v)
    return int(v)


@_dual
def zeros(shape, dtype=float):
    dt = np.dtype(dtype)
    return mk(lambda ix: E(_kconst(0, dt)), _shape(shape), dt)


@_dual
def ones(shape, dtype=float):
    dt = np.dtype(dtype)
    return mk(lambda ix: E(_kconst(1, dt)), _shape(shape), dt)


@_dual
def empty(shape, dtype=float):
    dt = np.dtype(dtype)
    u = uninit(dt, ())
    return mk(lambda ix: u, _shape(shape), dt)


@_dual
def full(shape, v, dtype=None):
    v = asarr(v)
    dt = v.dtype if dtype is None else np.dtype(dtype)
    return mk(lambda ix: cast_elem(v.at(), dt), _shape(shape), dt)


@_dual
def zeros_like(a, dtype=None):
    a = asarr(a)
    dt = a.dtype if dtype is None else np.dtype(dtype)
    return mk(lambda ix: E(_kconst(0, dt)), a._shape, dt)


@_dual
def ones_like(a, dtype=None):
    a = asarr(a)
    dt = a.dtype if dtype is None else np.dtype(dtype)
    return mk(lambda ix: E(_kconst(1, dt)), a._shape, dt)


@_dual
def empty_like(a, dtype=None):
    a = asarr(a)
    dt = a.dtype if dtype is None else np.dtype(dtype)
    u = uninit(dt, ())
    return mk(lambda ix: u, a._shape, dt)


@_dual
def full_like(a, v, dtype=None):
    a, v = asarr(a), asarr(v)
    dt = a.dtype if dtype is None else np.dtype(dtype)
    f = broadcast_fn(v, a._shape)
    return mk(lambda ix: cast_elem(f(ix), dt, explicit=True), a._shape, dt)


@_dual
def arange(*args, dtype=None):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args
    st, sp, se = asarr(start), asarr(stop), asarr(step)
    if dtype is not None:
        dt = np.dtype(dtype)
    else:
        dt = INT64 if builtins.all(x.kind == 'i' for x in (st, sp, se)) else F64
    s0 = T.simp(st.scalar().val)
    stp = T.simp(se.scalar().val)
    if not (T.is_const(stp) and stp == 1):
        raise Unsupported("arange step")
    if T.is_const(s0) and s0 == 0 and sp.kind == 'i':
        d = as_dim(stop) if not isinstance(stop, (int, np.integer)) else int(stop)
    else:
        dd = T.sub(sp.scalar().val, st.scalar().val)
        dd = z3.simplify(dd, som=True) if isinstance(dd, z3.ExprRef) else dd
        if T.is_const(dd):
            d = int(-(-Fraction(dd) // 1))
        elif T.is_intish(dd):
            d = T.simp(dd)
        elif dd.sort() == T.RS and z3.is_app(dd) and dd.decl().kind() == z3.Z3_OP_TO_REAL:
            d = dd.arg(0)
        else:
            raise Unsupported("arange bounds")
    if isinstance(d, int):
        d = builtins.max(d, 0)
    elif not cx().branch(T.ge(dexpr(d), 0)):
        d = 0

    def fn(ix):
        return cast_elem(E(T.add(s0, lin(ix[0]))), dt)
    return mk(fn, (d,), dt)


@_dual
def linspace(start, stop, num=50, endpoint=True, axis=0, dtype=None):
    a, b = asarr(start), asarr(stop)
    n = as_dim(num)
    shape = broadcast_shape(a._shape, b._shape)
    if axis not in (0, -1):
        raise Unsupported("linspace axis")
    nd = len(shape)
    ax = 0 if axis == 0 else nd
    out = list(shape)
    out.insert(ax, n)
    div = T.sub(dexpr(n), 1) if endpoint else dexpr(n)
    fa, fb = a.snap(), b.snap()
    sa, sb = a._shape, b._shape

    def fn(ix):
        ix = list(ix)
        k = lin(ix.pop(ax))
        ix = tuple(ix)
        ea = fa(align_idx(ix, sa, shape))
        eb = fb(align_idx(ix, sb, shape))
        frac = elem_binop('div', E(T.to_real(k)), E(T.to_real(div)))
        d = elem_binop('sub', E(T.to_real(eb.val), eb.wd, eb.nan), E(T.to_real(ea.val), ea.wd, ea.nan))
        r = elem_binop('add', ea, elem_binop('mul', frac, d))
        if isinstance(dexpr(n), int) and dexpr(n) == 1:
            return E(T.to_real(ea.val), ea.wd, ea.nan)
        return E(r.val, r.wd, r.nan)
    return mk(fn, tuple(out), F64)


# ---- elementwise ----------------------------------------------------------------
def _un(op):
    def f(x, out=None, where=True, dtype=None):
        if not active():
            kw = {}
            if out is not None:
                kw['out'] = out
            if where is not True:
                kw['where'] = where
            return getattr(np, op)(x, **kw)
        if x is None:
            raise TypeError(f"loop of ufunc does not support argument 0 of type NoneType "
                            f"which has no callable {op} method")
        a = asarr(x)
        o = {'fabs': 'abs'}.get(op, op)
        dt = unop_dtype(o, a)
        if out is None and where is True:
            return unop(o, a)
        return ufunc_call(lambda e: elem_unop(o, e), [a], dt, out, where)
    f.__name__ = op
    return f


sqrt, exp, expm1, log, log10, log2 = map(_un, ('sqrt', 'exp', 'expm1', 'log', 'log10', 'log2'))
sin, cos, sinh, cosh, tanh = map(_un, ('sin', 'cos', 'sinh', 'cosh', 'tanh'))
arcsin, arccos = map(_un, ('arcsin', 'arccos'))
abs, sign, signbit, isnan = map(_un, ('abs', 'sign', 'signbit', 'isnan'))
reciprocal, square, logical_not = map(_un, ('reciprocal', 'square', 'logical_not'))
_conj, _neg, _inv = _un('conjugate'), _un('negative'), _un('invert')


def conj(x, out=None, where=True):
    if not active():
        return np.conj(x) if out is None else np.conj(x, out=out, where=where)
    a = asarr(x)
    if out is None and where is True:
        return unop('conj', a)
    return ufunc_call(lambda e: elem_unop('conj', e), [a], a.dtype, out, where)


conjugate = conj
absolute = abs


def negative(x, out=None, where=True):
    if not active():
        return np.negative(x)
    a = asarr(x)
    if out is None and where is True:
        return unop('neg', a)
    return ufunc_call(lambda e: elem_unop('neg', e), [a], a.dtype, out, where)


def invert(x):
    return unop('invert', asarr(x)) if active() else np.invert(x)


bitwise_not = invert


def _bin(op, npname):
    def f(x, y, out=None, where=True):
        if not active():
            kw = {}
            if out is not None:
                kw['out'] = out
            if where is not True:
                kw['where'] = where
            return getattr(np, npname)(x, y, **kw)
        if out is None and where is True:
            return binop(op, x, y)
        a, b = asarr(x), asarr(y)
        for o, raw in ((a, x), (b, y)):
            if isinstance(raw, (int, float, complex)):
                o._is_scalar = True
        return ufunc_call(lambda p, q: elem_binop(op, p, q), [a, b], result_kind(op, a, b),
                          out, where)
    f.__name__ = npname
    return f


add, subtract, multiply, divide = (_bin('add', 'add'), _bin('sub', 'subtract'),
                                   _bin('mul', 'multiply'), _bin('div', 'divide'))
true_divide = divide
floor_divide, mod, power = _bin('floordiv', 'floor_divide'), _bin('mod', 'mod'), _bin('pow', 'power')
remainder = mod
maximum, minimum = _bin('max', 'maximum'), _bin('min', 'minimum')
less, less_equal, greater, greater_equal = (_bin('lt', 'less'), _bin('le', 'less_equal'),
                                            _bin('gt', 'greater'), _bin('ge', 'greater_equal'))
equal, not_equal = _bin('eq', 'equal'), _bin('ne', 'not_equal')


def _logical(op, npname):
    def f(x, y):
        if not active():
            return getattr(np, npname)(x, y)
        return binop(op, asarr(x).astype(bool), asarr(y).astype(bool))
    f.__name__ = npname
    return f


logical_and, logical_or, logical_xor = (_logical('and', 'logical_and'), _logical('or', 'logical_or'),
                                        _logical('xor', 'logical_xor'))


@_dual
def round(a, decimals=0):
    if decimals != 0:
        raise Unsupported("round decimals")
    return unop('round', asarr(a))


rint = around = round


@_dual
def where(c, *ab):
    if not ab:
        return asarr(c).nonzero()
    a, b = map(asarr, ab)
    for o, raw in zip((a, b), ab):
        if isinstance(raw, (int, float, complex)):
            o._is_scalar = True
    c = asarr(c)
    shape = broadcast_shape(c._shape, a._shape, b._shape)
    dt = result_kind('add', a, b) if not (a.kind == 'b' and b.kind == 'b') else BOOL
    fc, fa, fb = c.snap(), a.snap(), b.snap()
    sc, sa, sb = c._shape, a._shape, b._shape

    def fn(ix):
        ec = fc(align_idx(ix, sc, shape))
        cv = T.to_bool(ec.val)
        ea = cast_elem(fa(align_idx(ix, sa, shape)), dt)
        eb = cast_elem(fb(align_idx(ix, sb, shape)), dt)
        return E(T.ite(cv, ea.val, eb.val),
                 T.and_(wdb(ec.wd), T.ite(cv, wdb(ea.wd), wdb(eb.wd))),
                 T.ite(cv, ea.nan, eb.nan))
    r = mk(fn, shape, dt)
    return r


@_dual
def choose(i, arrs):
    i = asarr(i)
    arrs = [asarr(a) for a in arrs]
    shape = broadcast_shape(i._shape, *[a._shape for a in arrs])
    fi = i.snap()
    n = len(arrs)
    ok = cx().close(list(i._shape), lambda ix: T.and_(T.le(0, fi(ix).val), T.lt(fi(ix).val, n)))
    if not (ok is True or cx().branch(ok)):
        raise ValueError("invalid entry in choice array")
    fs = [(a.snap(), a._shape) for a in arrs]
    dt = arrs[0].dtype
    for a in arrs[1:]:
        dt = np.result_type(dt, a.dtype)

    def fn(ix):
        e = fi(align_idx(ix, i._shape, shape))
        r = S.imag_cycle(e.val, [g(align_idx(ix, sh, shape)) for g, sh in fs]) \
            if n == 4 else None
        if r is not None:
            return r
        for k in range(n - 1, -1, -1):
            x = fs[k][0](align_idx(ix, fs[k][1], shape))
            r = x if r is None else E(T.ite(T.eq(e.val, k), x.val, r.val),
                                      T.ite(T.eq(e.val, k), wdb(x.wd), wdb(r.wd)), False)
        return r
    return mk(fn, shape, dt)


@_dual
def modf(x):
    a = asarr(x)
    f = a.snap()
    tr = T.fn('m_trunc', T.RS, T.IS)

    def parts(ix):
        e = f(ix)
        v = T.to_real(e.val)
        k = tr(T.z(v))
        kr = z3.ToReal(k)
        vz = T.z(v)
        cx().fact(z3.If(vz >= 0, z3.And(kr <= vz, vz < kr + 1), z3.And(kr >= vz, vz > kr - 1)))
        return E(T.sub(v, kr), e.wd, e.nan), E(kr, e.wd, e.nan)
    return (mk(lambda ix: parts(ix)[0], a._shape, F64), mk(lambda ix: parts(ix)[1], a._shape, F64))


@_dual
def clip(a, lo, hi):
    return asarr(a).clip(lo, hi)


@_dual
def nan_to_num(a):
    raise Unsupported("nan_to_num")


@_dual
def real(x):
    return asarr(x).real


@_dual
def imag(x):
    return asarr(x).imag


# ---- reductions ------------------------------------------------------------------
@_dual
def all_(a, axis=None):
    return S.reduce_bool(a, axis, 'all')


@_dual
def any_(a, axis=None):
    return S.reduce_bool(a, axis, 'any')


@_dual
def sum_(a, axis=None):
    return S.reduce_sum(asarr(a), axis)


@_dual
def max_(a, axis=None):
    return S.reduce_minmax(asarr(a), axis, 'max')


@_dual
def min_(a, axis=None):
    return S.reduce_minmax(asarr(a), axis, 'min')


@_dual
def cumsum(a, axis=None):
    return asarr(a).cumsum(axis)


@_dual
def argmax(a, axis=None):
    return asarr(a).argmax(axis)


@_dual
def mean(a, axis=None):
    return asarr(a).mean(axis)


amax, amin = max_, min_
all, any, sum, max, min = all_, any_, sum_, max_, min_


@_dual
def count_nonzero(a):
    a = asarr(a)
    f = a.snap()
    return S.reduce_sum(a.astype(bool), None)


@_dual
def diff(a, n=1):
    if n != 1:
        raise Unsupported("diff")
    a = asarr(a)
    return a[1:] - a[:-1]


@_dual
def allclose(a, b, rtol=1e-5, atol=1e-8):
    a, b = asarr(a), asarr(b)
    rtol, atol = T.lift_const(rtol), T.lift_const(atol)
    shape = broadcast_shape(a._shape, b._shape)
    fa, fb = a.snap(), b.snap()

    def body(ix):
        x = fa(align_idx(ix, a._shape, shape)).val
        y = fb(align_idx(ix, b._shape, shape)).val
        return T.le(T.abs_(T.sub(x, y)), T.add(atol, T.mul(rtol, T.abs_(y))))
    f = cx().close(list(shape), body)
    return scalar(f, BOOL)


@_dual
def isclose(a, b, rtol=1e-5, atol=1e-8):
    a, b = asarr(a), asarr(b)
    return S.unop('abs', a - b) <= S.unop('abs', b) * rtol + atol


@_dual
def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not S.dims_equal(x, y):
            return False
    return (a == b).all()


@_dual
def isfinite(a):
    a = asarr(a)
    f = a.snap()
    return mk(lambda ix: E(T.not_(f(ix).nan)), a._shape, BOOL)


# ---- joining ----------------------------------------------------------------------
def _concat(arrs, axis):
    arrs = [asarr(a) for a in arrs]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if builtins.any(a.ndim != nd for a in arrs):
        raise ValueError("all the input array dimensions must match")
    if not -nd <= axis < nd:
        raise np.exceptions.AxisError("axis out of bounds")
    axis %= nd
    for a in arrs[1:]:
        for k in range(nd):
            if k != axis and not S.dims_equal(a._shape[k], arrs[0]._shape[k]):
                raise ValueError("all the input array dimensions except for the "
                                 "concatenation axis must match exactly")
    dt = arrs[0].dtype
    for a in arrs[1:]:
        dt = np.promote_types(dt, a.dtype) if 'O' not in (dt.kind, a.dtype.kind) else dt
    parts = [a._shape[axis] for a in arrs]
    live = [k for k, p in enumerate(parts) if not (isinstance(dexpr(p), int) and dexpr(p) == 0)]
    if len(live) == 0:
        return arrs[0].astype(dt)
    if len(live) == 1:
        return arrs[live[0]].astype(dt)
    arrs = [arrs[k] for k in live]
    parts = [parts[k] for k in live]
    flatp = builtins.all(isinstance(dexpr(p), int) for p in parts)
    dim = builtins.sum(dexpr(p) for p in parts) if flatp else DimSum(parts)
    ds = DimSum(parts)
    shape = list(arrs[0]._shape)
    for k in range(nd):
        if k != axis:
            for a in arrs:
                if isinstance(a._shape[k], (DimProd, DimSum)):
                    shape[k] = a._shape[k]
    shape[axis] = dim
    fs = [a.snap() for a in arrs]

    def fn(ix):
        ix = list(ix)
        i = ix[axis]
        if isinstance(i, Part) and i.dim is ds or \
                isinstance(i, Part) and len(i.dim.parts) == len(parts) and \
                builtins.all(same(p, q) for p, q in zip(i.dim.parts, parts)):
            ix[axis] = i.k
            return cast_elem(fs[i.p](tuple(ix)), dt)
        i = lin(i)
        r = None
        for p in range(len(parts) - 1, -1, -1):
            o = ds.offset(p)
            ix[axis] = T.simp(T.sub(i, o))
            if r is None:
                if isinstance(i, int) and isinstance(o, int) and i < o:
                    continue
                r = cast_elem(fs[p](tuple(ix)), dt)
            else:
                c = T.lt(i, ds.offset(p + 1))
                c = T.simp(c) if isinstance(c, z3.ExprRef) else c
                if c is False:
                    continue
                e = cast_elem(fs[p](tuple(ix)), dt)
                r = E(T.ite(c, e.val, r.val), T.ite(c, wdb(e.wd), wdb(r.wd)),
                      T.ite(c, e.nan, r.nan))
        return r
    return mk(fn, tuple(shape), dt)


def _tolist(x):
    if isinstance(x, SArr):
        return list(x)
    return list(x)


class JoinedSeq:
    """hstack of a symbolic-length sequence of 1-d arrays of equal length"""


@_dual
def concatenate(arrs, axis=0):
    if isinstance(arrs, SymSeq):
        return _concat_seq(arrs, axis)
    return _concat(_tolist(arrs), axis)


def _concat_seq(seq, axis):
    """concatenation of n arrays of equal shape: a product axis"""
    ctx = cx()
    k = ctx.fresh_idx(seq.length)
    ctx.scopes.append(S.Scope())
    try:
        probe = asarr(seq.item(k))
    finally:
        loc = ctx.scopes.pop().facts
    for lf in loc:
        ctx.fact(ctx.forall([k], T.implies(ctx.in_range(k, seq.length), lf)))
    sh = probe._shape
    if axis < 0:
        axis += len(sh)
    inner = sh[axis]
    d = mkprod(factors(seq.length) + factors(inner))
    shape = list(sh)
    shape[axis] = d
    nf = len(factors(seq.length))

    def fn(ix):
        ix = list(ix)
        fs = factors(d)
        c = indexing.comps(ix[axis], fs)
        k = c[0] if nf == 1 else Flat(c[:nf], fs[:nf])
        rest = c[nf:]
        ix[axis] = 0 if not rest else rest[0] if len(rest) == 1 else Flat(rest, fs[nf:])
        return asarr(seq.item(k)).at(*ix)
    return mk(fn, tuple(shape), probe.dtype)


@_dual
def hstack(arrs):
    if isinstance(arrs, SymSeq):
        return _concat_seq(arrs, 0)
    arrs = [atleast_1d(a) for a in _tolist(arrs)]
    return _concat(arrs, 0 if arrs[0].ndim == 1 else 1)


@_dual
def vstack(arrs):
    arrs = [atleast_2d(a) for a in _tolist(arrs)]
    return _concat(arrs, 0)


@_dual
def stack(arrs, axis=0):
    if axis != 0:
        arrs = [expand_dims(a, axis) for a in arrs]
        return _concat(arrs, axis)
    arrs = [asarr(a) for a in arrs]
    if not arrs:
        raise ValueError("need at least one array to stack")
    sh = arrs[0]._shape
    for a in arrs[1:]:
        if a.ndim != len(sh):
            raise ValueError("all input arrays must have the same shape")
        for x, y in zip(a._shape, sh):
            if not S.dims_equal(x, y):
                raise ValueError("all input arrays must have the same shape")
    dt = arrs[0].dtype
    for a in arrs[1:]:
        dt = np.promote_types(dt, a.dtype)
    fs = [a.snap() for a in arrs]
    n = len(fs)

    def fn(ix):
        i = lin(ix[0])
        rest = tuple(ix[1:])
        if isinstance(i, int):
            return cast_elem(fs[i](rest), dt)
        r = S.imag_cycle(i, [cast_elem(g(rest), dt) for g in fs]) if n == 4 else None
        if r is not None:
            return r
        for k in range(n - 1, -1, -1):
            e = cast_elem(fs[k](rest), dt)
            r = e if r is None else E(T.ite(T.eq(i, k), e.val, r.val),
                                      T.ite(T.eq(i, k), wdb(e.wd), wdb(r.wd)),
                                      T.ite(T.eq(i, k), e.nan, r.nan))
        return r
    return mk(fn, (n,) + tuple(sh), dt)


S_stack = stack


@_dual
def atleast_1d(a):
    a = asarr(a)
    return a if a.ndim else indexing.reshape(a, (1,))


@_dual
def atleast_2d(a):
    a = asarr(a)
    if a.ndim == 0:
        return indexing.reshape(a, (1, 1))
    return a[None, :] if a.ndim == 1 else a


@_dual
def expand_dims(a, axis):
    a = asarr(a)
    n = a.ndim + 1
    key = [slice(None)] * a.ndim
    key.insert(axis % n, None)
    return a[tuple(key)]


@_dual
def broadcast_arrays(*arrs):
    arrs = [asarr(a) for a in arrs]
    shape = broadcast_shape(*[a._shape for a in arrs])
    out = []
    for a in arrs:
        f = broadcast_fn(a, shape)
        out.append(mk(f, shape, a.dtype))
    return out


@_dual
def broadcast_to(a, shape):
    a = asarr(a)
    shape = _shape(shape)
    f = broadcast_fn(a, shape)
    return mk(f, shape, a.dtype)


@_dual
def ravel(a):
    return asarr(a).ravel()


@_dual
def reshape(a, shape):
    return asarr(a).reshape(shape)


@_dual
def transpose(a, axes=None):
    return indexing.transpose(asarr(a), axes)


@_dual
def squeeze(a, axis=None):
    a = asarr(a)
    if axis is not None:
        raise Unsupported("squeeze axis")
    keep = []
    for k, d in enumerate(a._shape):
        e = dexpr(d)
        if isinstance(e, int):
            if e != 1:
                keep.append(k)
        elif not cx().branch(T.eq(e, 1)):
            keep.append(k)
    f = a.snap()

    def fn(ix):
        r = [0] * a.ndim
        for k, i in zip(keep, ix):
            r[k] = i
        return f(tuple(r))
    return mk(fn, tuple(a._shape[k] for k in keep), a.dtype)


@_dual
def moveaxis(a, src, dst):
    a = asarr(a)
    n = a.ndim
    for v in (src, dst):
        if not isinstance(v, (int, np.integer)):
            raise Unsupported("moveaxis argument")
        if not -n <= v < n:
            raise np.exceptions.AxisError(f"axis {v} is out of bounds")
    order = [k for k in range(n) if k != src % n]
    order.insert(dst % n, src % n)
    return indexing.transpose(a, tuple(order))


@_dual
def swapaxes(a, i, j):
    return asarr(a).swapaxes(i, j)


@_dual
def ndim(a):
    return asarr(a).ndim


@_dual
def shape(a):
    return asarr(a).shape


@_dual
def size(a):
    return asarr(a).size


@_dual
def matmul(a, b):
    return S.matmul(a, b)


@_dual
def dot(a, b):
    return S.matmul(a, b)


@_dual
def outer(a, b):
    a, b = asarr(a), asarr(b)
    return a[:, None] * b[None, :]


@_dual
def einsum(spec, *ops):
    ops = [asarr(o) for o in ops]
    ins, out = spec.replace(' ', '').split('->')
    ins = ins.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum")
        for c, d in zip(s, o._shape):
            if c in dims:
                if not S.dims_equal(dims[c], d):
                    raise ValueError("einsum dimension mismatch")
            else:
                dims[c] = d
    red = [c for c in dims if c not in out]
    fs = [o.snap() for o in ops]

    def fn(ix):
        env = dict(zip(out, ix))

        def body(rx):
            e2 = dict(env)
            e2.update(zip(red, rx))
            r = None
            for s, f in zip(ins, fs):
                v = f(tuple(e2[c] for c in s))
                r = v if r is None else elem_binop('mul', r, v)
            return r
        return make_sum([dims[c] for c in red], body, False)
    dt = ops[0].dtype
    for o in ops[1:]:
        dt = np.promote_types(dt, o.dtype)
    return mk(fn, tuple(dims[c] for c in out), dt)


# ---- sorting and searching: contracts -----------------------------------------------
def _sorted_contract(a, tag, perm=True):
    """(permutation function, inverse) of a 1-d array sorting it ascending"""
    ctx = cx()
    n = dexpr(a._shape[0])
    f = a.snap()
    name = ctx.fresh(tag)
    p = z3.Function(name, T.IS, T.IS)
    q = z3.Function(name + 'inv', T.IS, T.IS)
    k, k2 = z3.Int(name + 'k'), z3.Int(name + 'k2')
    nz = T.z(n)
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nz),
                                       z3.And(0 <= p(k), p(k) < nz, q(p(k)) == k)),
                       patterns=[p(k)]))
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nz),
                                       z3.And(0 <= q(k), q(k) < nz, p(q(k)) == k)),
                       patterns=[q(k)]))
    v1, v2 = f((p(k),)).val, f((p(k2),)).val
    ctx.fact(z3.ForAll([k, k2], T.z(T.implies(T.and_(T.le(0, k), T.lt(k, k2), T.lt(k2, n)),
                                              T.le(v1, v2))),
                       patterns=[z3.MultiPattern(p(k), p(k2))]))
    # a sequence that is already sorted and strictly increasing is unchanged
    inc = ctx.forall([k, k2], T.implies(T.and_(T.le(0, k), T.lt(k, k2), T.lt(k2, n)),
                                        T.lt(f((k,)).val, f((k2,)).val)))
    if not isinstance(inc, bool):
        ctx.fact(z3.Implies(inc, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nz), p(k) == k),
                                           patterns=[p(k)])))
    return p, q


_SORTCACHE = {}


def _sort_perm(a):
    ctx = cx()
    f = a.snap()
    i = z3.Int('sort_i')
    b = T.z(f((i,)).val)
    key = (b.get_id(), T.z(dexpr(a._shape[0])).get_id())
    cache = ctx.__dict__.setdefault('sortcache', {})
    if key not in cache:
        cache[key] = (_sorted_contract(a, 'perm'), b, f, a._shape[0])
    return cache[key][0]


@_dual
def argsort(a, *args, **kw):
    trusted('numpy.argsort: a permutation that sorts ascending')
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("argsort of n-d array")
    p, _ = _sort_perm(a)
    return mk(lambda ix: E(p(T.z(lin(ix[0])))), a._shape, INT64)


@_dual
def sort(a, axis=-1):
    trusted('numpy.sort: ascending permutation of its argument')
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("sort of n-d array")
    n = dexpr(a._shape[0])
    if isinstance(n, int) and n <= 1:
        return a.copy()
    p, _ = _sort_perm(a)
    f = a.snap()
    return mk(lambda ix: f((p(T.z(lin(ix[0]))),)), a._shape, a.dtype)


@_dual
def unique(a):
    trusted('numpy.unique: strictly increasing enumeration of the set of values')
    ctx = cx()
    a = asarr(a).ravel()
    f = a.snap()
    d = a._shape[0]
    n = dexpr(d)
    tag = ctx.fresh('uniq')
    m = z3.Int(tag + 'n')
    src = z3.Function(tag + 'src', T.IS, T.IS)      # position of value k
    cls = z3.Function(tag + 'cls', T.IS, T.IS)      # class of position i
    k, k2 = z3.Int(tag + 'k'), z3.Int(tag + 'k2')
    nz = T.z(n)
    ctx.fact(z3.And(m >= 0, m <= nz, z3.Implies(nz > 0, m > 0)))
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= src(k), src(k) < nz)),
                       patterns=[src(k)]))
    v = lambda i: f((i,)).val
    ctx.fact(z3.ForAll([k, k2], T.z(T.implies(T.and_(T.le(0, k), T.lt(k, k2), T.lt(k2, m)),
                                              T.lt(v(src(k)), v(src(k2))))),
                       patterns=[z3.MultiPattern(src(k), src(k2))]))
    ctx.fact(z3.ForAll([k], T.z(T.implies(T.and_(T.le(0, k), T.lt(k, n)),
                                          T.and_(T.le(0, cls(k)), T.lt(cls(k), m),
                                                 T.eq(v(src(cls(k))), v(k))))),
                       patterns=[cls(k)]))
    ctx.__dict__.setdefault('uniques', []).append((src, cls, v))
    return mk(lambda ix: f((src(T.z(lin(ix[0]))),)), (m,), a.dtype)


@_dual
def searchsorted(a, x, side='left'):
    trusted('numpy.searchsorted: partition point of a sorted array')
    ctx = cx()
    a, x = asarr(a), asarr(x)
    n = dexpr(a._shape[0])
    fa, fx = a.snap(), x.snap()
    # precondition: a is sorted
    i, j = ctx.fresh_idx(n, 's'), ctx.fresh_idx(n, 's')
    srt = ctx.forall([i, j], T.implies(T.and_(T.le(0, i), T.le(i, j), T.lt(j, n)),
                                       T.le(fa((i,)).val, fa((j,)).val)))
    ctx.obligation("searchsorted: array is sorted", srt)
    nd = x.ndim
    # the same question has the same answer
    key = None
    if builtins.all(not isinstance(d, (S.DimProd, S.DimSum)) for d in x._shape):
        e = fx(tuple(z3.Int(f'ss_i{k}') for k in range(nd)))
        key = [T.z(fa((z3.Int('ss_k'),)).val), T.z(e.val), T.z(n)] + [
            T.z(dexpr(d)) for d in x._shape] if not isinstance(e.val, Cx) else None
    cache = ctx.__dict__.setdefault('searches', [])
    for key2, side2, tag2 in cache if key else ():
        if side2 == side and len(key2) == len(key) and builtins.all(
                p.eq(q) for p, q in zip(key, key2)):
            tag = tag2
            break
    else:
        tag = ctx.fresh('ss')
        if key:
            cache.append((key, side, tag))
    fz = z3.Function(tag, *([T.IS] * nd), T.IS) if nd else None

    def fn(ix):
        args = [T.z(lin(q)) for q in ix]
        r = fz(*args) if nd else z3.Int(tag)
        e = fx(ix)
        kk = z3.Int(tag + 'q')
        ak = fa((kk,)).val
        below, above = (T.le, T.gt) if side == 'right' else (T.lt, T.ge)
        ctx.fact(z3.And(r >= 0, r <= T.z(n)))
        ctx.fact(ctx.forall([kk], T.implies(T.and_(T.le(0, kk), T.lt(kk, r)), below(ak, e.val))))
        ctx.fact(ctx.forall([kk], T.implies(T.and_(T.le(r, kk), T.lt(kk, n)), above(ak, e.val))))
        # instances at the boundary
        ctx.fact(T.implies(T.gt(r, 0), below(fa((T.simp(T.sub(r, 1)),)).val, e.val)))
        ctx.fact(T.implies(T.lt(r, n), above(fa((r,)).val, e.val)))
        return E(r, e.wd, False)
    return mk(fn, x._shape, INT64)


@_dual
def nonzero(a):
    return asarr(a).nonzero()


# ---- submodules ------------------------------------------------------------------
class _Linalg(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    @staticmethod
    def svd(a, full_matrices=True, **kw):
        if not active():
            return np.linalg.svd(a, full_matrices=full_matrices, **kw)
        from . import linalg
        return linalg.svd(a, full_matrices)

    @staticmethod
    def norm(a, *args, **kw):
        if not active():
            return np.linalg.norm(a, *args, **kw)
        raise Unsupported("norm")

    def __getattr__(self, name):
        raise Unsupported(f"numpy.linalg.{name}")


linalg = _Linalg('numpy.linalg')


class errstate:
    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Exc(types.ModuleType):
    AxisError = np.exceptions.AxisError


exceptions = _Exc('numpy.exceptions')


def get_module():
    """module object to be imported as numpy by the verified code"""
    g = globals()

    class M(types.ModuleType):
        @property
        def pi(self):
            if active():
                return scalar(T.PI, F64)
            return np.pi

        def __getattr__(self, name):
            if active():
                if name in ('complex', 'float', 'int', 'bool', 'object'):
                    raise AttributeError(f"module 'numpy' has no attribute {name!r}")
                raise Unsupported(f"numpy.{name}")
            return getattr(np, name)
    m = M('numpy')
    for k, v in g.items():
        if not k.startswith('_') and k not in (
                'T', 'S', 'E', 'SArr', 'Ctx', 'cx', 'mk', 'get_module', 'active', 'trusted',
                'TRUSTED', 'z3', 'np', 'Fraction', 'types', 'builtins', 'indexing',
                'Unsupported', 'Cx', 'scalar', 'asarr', 'as_dim', 'dexpr', 'factors',
                'mkprod', 'same', 'lin', 'Flat', 'Part', 'DimSum', 'DimProd', 'uninit',
                'binop', 'unop', 'make_sum', 'SymSeq', 'elem_binop', 'elem_unop',
                'from_conc', 'const_array', 'S_stack', 'JoinedSeq'):
            setattr(m, k, v)
    m.random = None
    return m
