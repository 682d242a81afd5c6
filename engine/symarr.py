"""Symbolic numpy arrays and the execution context.

An array is a shape (tuple of dimensions, each a python int, a z3 integer or a
DimProd) together with a function from index tuples to elements.  All shapes
are symbolic, so a statement proved about an array holds for every size.
Basic slicing, transposition, reshaping and broadcasting yield views; in-place
operations write through views exactly as numpy does.

An element is E(val, wd, nan): `wd` is the condition under which the element
is a well-defined finite number (no division by zero, no overflow of exp/sinh/
cosh, no uninitialised memory); `nan` is the condition under which an *input*
element is NaN.
"""
from fractions import Fraction
from typing import NamedTuple, Any
import itertools
import numpy as np
import z3

from . import terms as T
from .terms import Unsupported, Cx


# =====================================================================
# dimensions and indices
# =====================================================================
class DimProd:
    """product of >= 2 atomic dimensions, in memory (C) order"""
    __slots__ = ('factors',)

    def __init__(self, factors):
        self.factors = tuple(factors)

    @property
    def expr(self):
        r = dexpr(self.factors[0])
        for f in self.factors[1:]:
            r = T.mul(r, dexpr(f))
        return r

    def __repr__(self):
        return "*".join(map(str, self.factors))


class DimSum:
    """dimension of a concatenated axis; parts are dimensions"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    @property
    def expr(self):
        r = dexpr(self.parts[0])
        for f in self.parts[1:]:
            r = T.add(r, dexpr(f))
        return T.simp(r)

    def offset(self, p):
        r = 0
        for f in self.parts[:p]:
            r = T.add(r, dexpr(f))
        return r

    def __repr__(self):
        return "+".join(map(str, self.parts))


class Flat:
    """index into a DimProd axis, kept as its components"""
    __slots__ = ('idx', 'dims')

    def __init__(self, idx, dims):
        self.idx, self.dims = tuple(idx), tuple(dims)

    def lin(self):
        r = lin(self.idx[0])
        for i, d in zip(self.idx[1:], self.dims[1:]):
            r = T.add(T.mul(r, dexpr(d)), lin(i))
        return r

    def __repr__(self):
        return f"Flat{self.idx}"


class Part:
    """index into a DimSum axis, known to lie in part p"""
    __slots__ = ('k', 'p', 'dim')

    def __init__(self, k, p, dim):
        self.k, self.p, self.dim = k, p, dim

    def lin(self):
        return T.add(self.dim.offset(self.p), lin(self.k))

    def __repr__(self):
        return f"Part({self.p}:{self.k})"


def lin(i):
    return i.lin() if isinstance(i, (Flat, Part)) else i


def dexpr(d):
    return d.expr if isinstance(d, (DimProd, DimSum)) else d


def mkprod(factors):
    fs = [f for f in factors if not (isinstance(f, int) and f == 1)]
    if not fs:
        return 1
    if len(fs) == 1:
        return fs[0]
    if all(isinstance(f, int) for f in fs):
        r = 1
        for f in fs:
            r *= f
        return r
    return DimProd(fs)


def factors(d):
    """ordered list of atomic factors of a dimension"""
    if isinstance(d, DimProd):
        return list(d.factors)
    if isinstance(d, DimSum):
        return [d]
    if isinstance(d, int):
        return [] if d == 1 else [d]
    if z3.is_mul(d):
        r = []
        for c in d.children():
            r += factors(T.simp(c))
        return r
    return [d]


def same(a, b):
    """structural equality of scalar index/dim expressions"""
    a, b = dexpr(a), dexpr(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int) or isinstance(b, int):
        r = T.simp(T.z(a) == T.z(b))
        return r is True
    if a.eq(b):
        return True
    return T.simp(a - b) == 0 if isinstance(T.simp(a - b), int) else False


def ikey(i):
    if isinstance(i, Flat):
        return ('F',) + tuple(ikey(k) for k in i.idx)
    if isinstance(i, Part):
        return ('P', i.p, ikey(i.k))
    if isinstance(i, z3.ExprRef):
        return ('z', i.get_id())
    return i


class E(NamedTuple):
    val: Any
    wd: Any = True
    nan: Any = False


# =====================================================================
# context
# =====================================================================
class PathEnd(BaseException):
    """the current path has been fully examined"""


class BudgetExceeded(Unsupported):
    pass


class Scope:
    def __init__(self):
        self.facts = []


class Ctx:
    """one symbolic execution path"""
    cur = None

    def __init__(self, prefix=(), prover=None):
        self.prefix = list(prefix)
        self.log = []
        self.alts = []
        self.pc = []                 # path condition (z3 Bool)
        self.scopes = [Scope()]
        self.ranges = {}             # index-constant id -> (const, dim expr)
        self.counter = itertools.count()
        self.prover = prover
        self.maskcache = {}
        self.sums = {}
        self.cumsums = []
        self.rules = []              # contraction rules for the ring prover
        self.notes = []
        self.inputs = {}             # name -> (SArr, shape)
        self.warnings = []
        self.safety = []             # (label, formula) auto obligations
        self.posdims = []
        self.solver_calls = 0
        self.max_branch = 200

    # ---- fresh symbols
    def fresh(self, base):
        return f"{base}!{next(self.counter)}"

    def fresh_int(self, base='k'):
        return z3.Int(self.fresh(base))

    def fresh_idx(self, dim, base='i'):
        fs = factors(dim)
        if len(fs) > 1 and not all(isinstance(f, int) for f in fs):
            return Flat([self.fresh_idx(f, base) for f in fs], fs)
        d = dexpr(dim)
        if isinstance(d, int) and d == 1:
            return 0
        c = self.fresh_int(base)
        self.ranges[c.get_id()] = (c, d)
        return c

    def in_range(self, i, dim):
        """condition 0 <= i < dim"""
        if isinstance(i, Flat):
            return T.and_(*[self.in_range(a, d) for a, d in zip(i.idx, i.dims)])
        if isinstance(i, Part):
            return self.in_range(i.k, i.dim.parts[i.p])
        d = dexpr(dim)
        return T.and_(T.le(0, i), T.lt(i, d))

    # ---- facts
    def fact(self, f):
        if f is True:
            return
        self.scopes[-1].facts.append(T.z(f))

    def assume(self, f):
        if isinstance(f, SArr):
            f = f.scalar().val
        self.fact(f)

    def note_rule(self, r):
        self.rules.append(r)

    def all_facts(self):
        out = []
        for s in self.scopes:
            out += s.facts
        return out

    def hyps(self):
        return list(self.pc) + self.all_facts()

    def consts_of(self, idx):
        if isinstance(idx, Flat):
            return [c for k in idx.idx for c in self.consts_of(k)]
        if isinstance(idx, Part):
            return self.consts_of(idx.k)
        if isinstance(idx, z3.ExprRef):
            return [idx]
        return []

    def close(self, dims, f, kind='all'):
        """Evaluate body f(idx) at fresh indices, quantify over them.

        Facts recorded while evaluating the body are closed as well."""
        if all(isinstance(dexpr(d), int) for d in dims):
            tot = 1
            for d in dims:
                tot *= dexpr(d)
            if tot <= 64:
                out = []
                for ix in itertools.product(*[range(dexpr(d)) for d in dims]):
                    out.append(f(ix))
                return T.and_(*out) if kind == 'all' else T.or_(*out)
        idx = tuple(self.fresh_idx(d) for d in dims)
        bs = [c for i in idx for c in self.consts_of(i)]
        rng = T.and_(*[self.in_range(i, d) for i, d in zip(idx, dims)])
        self.scopes.append(Scope())
        try:
            body = f(idx)
            local = self.scopes[-1].facts
        finally:
            self.scopes.pop()
        for lf in local:
            self.fact(self.forall(bs, T.implies(rng, lf)))
        if isinstance(body, bool):
            # not vacuous only if range nonempty
            if kind == 'all' and body:
                return True
            if kind == 'any' and not body:
                return False
        if not bs:
            return T.and_(rng, body) if kind == 'any' else T.implies(rng, body)
        if kind == 'all':
            return z3.ForAll(bs, T.z(T.implies(rng, body)))
        return z3.Exists(bs, T.z(T.and_(rng, body)))

    def forall(self, bs, body):
        if isinstance(body, bool):
            return body
        used = [b for b in bs if occurs(body, b)]
        if not used:
            return body
        return z3.ForAll(used, body)

    # ---- solving
    def check(self, extra, timeout=3000):
        self.solver_calls += 1
        return self.prover.feasible(self.hyps() + list(extra), timeout)

    def entails(self, f, timeout=3000):
        if isinstance(f, bool):
            return f
        f = T.simp(f)
        if isinstance(f, bool):
            return f
        return self.check([z3.Not(f)], timeout) == 'unsat'

    def branch(self, cond):
        """decide a symbolic condition; forks the path if both are possible"""
        if isinstance(cond, bool):
            return cond
        cond = T.simp(T.to_bool(cond))
        if isinstance(cond, bool):
            return cond
        n = len(self.log)
        if n < len(self.prefix):
            val = self.prefix[n]
            self.log.append(val)
            self.pc.append(cond if val else z3.Not(cond))
            return val
        if n > self.max_branch:
            raise BudgetExceeded("too many branches on one path")
        t = self.check([cond])
        f = self.check([z3.Not(cond)]) if t != 'unsat' else 'sat'
        if t == 'unsat':
            val = False
        elif f == 'unsat':
            val = True
        else:
            val = True
            self.alts.append(self.log + [False])
        self.log.append(val)
        self.pc.append(cond if val else z3.Not(cond))
        return val

    def obligation(self, label, f):
        """automatic (safety) obligation, discharged immediately"""
        if isinstance(f, bool) and f:
            return True
        return self.prover.obligation(self, label, f, auto=True)


def occurs(e, c):
    seen = set()
    stack = [e]
    cid = c.get_id()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == cid:
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def cx():
    return Ctx.cur


# =====================================================================
# arrays
# =====================================================================
class Buf:
    __slots__ = ('fn', 'shape', 'memo', 'version')

    def __init__(self, fn, shape):
        self.shape = shape
        self.version = 0                # number of writes, creation included
        self.set(fn)

    def set(self, f):
        self.version += 1
        self.memo = {}
        memo = self.memo

        def get(idx):
            k = tuple(ikey(i) for i in idx)
            r = memo.get(k)
            if r is None:
                r = (f(idx), idx)
                memo[k] = r
            return r[0]
        self.fn = get


INT64 = np.dtype(np.int64)
F64 = np.dtype(np.float64)
C128 = np.dtype(np.complex128)
BOOL = np.dtype(bool)


def const_array(a, dtype=None):
    """lift a concrete numpy array / number"""
    a = np.asarray(a)
    if dtype is None:
        dtype = a.dtype
    if a.dtype.kind not in 'biufcO':
        raise Unsupported(f"array of dtype {a.dtype}")
    conc = np.empty(a.shape, dtype=object)
    flat = conc.reshape(-1) if a.size else conc.ravel()
    for k, v in enumerate(a.ravel()):
        if isinstance(v, (Cx, z3.ExprRef, Fraction)):
            flat[k] = v
        else:
            try:
                flat[k] = T.lift_const(v)
            except Unsupported:
                flat[k] = None
    return from_conc(conc, dtype)


def conc_elem(v):
    if v is None:
        return E(Fraction(0), True, True)      # nan
    return E(v)


def imag_cycle(x, elems):
    """element number (y mod 4) of c, c*i, -c, -c*i is c * i**y (or its conjugate)"""
    if len(elems) != 4 or not isinstance(x, z3.ExprRef) or not (
            z3.is_app_of(x, z3.Z3_OP_MOD) and z3.is_int_value(x.arg(1))
            and x.arg(1).as_long() == 4):
        return None
    v = []
    for e in elems:
        if wdb(e.wd) is not True or e.nan is not False:
            return None
        c = T.cx(e.val)
        re, im = T.simp(c.re), T.simp(c.im)
        if isinstance(re, z3.ExprRef) or isinstance(im, z3.ExprRef):
            return None
        v.append((Fraction(re), Fraction(im)))
    (a, b) = v[0]
    y = T.z(x.arg(0))
    for sg in (1, -1):
        if v[0] != (0, 0) and v == [(a, b), (-sg * b, sg * a), (-a, -b), (sg * b, -sg * a)]:
            im = T.fn('ipow_im', T.IS, T.RS)(y)
            return E(T.mul(Cx(a, b), Cx(T.fn('ipow_re', T.IS, T.RS)(y), im if sg == 1 else -im)))
    return None


def from_conc(conc, dtype):
    shape = conc.shape
    if dtype.kind in 'f':
        pass

    def fn(idx):
        idx = tuple(lin(i) for i in idx)
        if all(isinstance(i, int) for i in idx):
            return conc_elem(conc[idx])
        # symbolic index into concrete data: nested conditionals
        if conc.size > 400:
            raise Unsupported("symbolic index into large constant array")
        k = next(n for n, i in enumerate(idx) if not isinstance(i, int))
        r = imag_cycle(idx[k], [fn(idx[:k] + (v,) + idx[k+1:]) for v in range(4)]) \
            if conc.shape[k] == 4 else None
        if r is not None:
            return r
        for v in range(conc.shape[k] - 1, -1, -1):
            e = fn(idx[:k] + (v,) + idx[k+1:])
            if r is None:
                r = e
            else:
                c = T.eq(idx[k], v)
                r = E(T.ite(c, e.val, r.val), wd_ite(c, e.wd, r.wd),
                      T.ite(c, e.nan, r.nan))
        return r
    out = SArr(Buf(fn, shape), shape, dtype)
    out._conc_ok = True
    return out


class SArr:
    __array_ufunc__ = None
    __array_priority__ = 1e9
    __hash__ = object.__hash__

    def __init__(self, buf, shape, dtype, fwd=None, inv=None, base=None):
        self.buf = buf
        self._shape = tuple(shape)
        self.dtype = np.dtype(dtype)
        self.fwd = fwd
        self.inv = inv
        self._conc_ok = False

    # ---- element access
    def snap(self):
        """immutable snapshot: function from index tuple to E"""
        f = self.buf.fn
        if self.fwd is None:
            return f
        fwd = self.fwd
        return lambda idx: f(fwd(idx))

    def at(self, *idx):
        return self.snap()(tuple(idx))

    def v(self, *idx):
        return self.at(*idx).val

    def scalar(self):
        if self._shape:
            raise Unsupported("expected scalar")
        return self.at()

    @property
    def shape(self):
        return tuple(d if isinstance(d, int) else dim_scalar(d)
                     for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        d = mkprod([f for s in self._shape for f in factors(s)])
        return d if isinstance(d, int) else dim_scalar(d)

    def __len__(self):
        d = dexpr(self._shape[0])
        if isinstance(d, int):
            return d
        raise Unsupported("len() of symbolic array outside instrumented call")

    @property
    def kind(self):
        return {'u': 'i'}.get(self.dtype.kind, self.dtype.kind)

    # ---- views
    def _view(self, shape, fwd, inv):
        """fwd: view idx -> self idx ; inv: self idx -> (cond, view idx)"""
        if self.fwd is None:
            nf, ni = fwd, inv
        else:
            f0, i0 = self.fwd, self.inv
            nf = lambda ix: f0(fwd(ix))

            def ni(bi):
                c0, vi = i0(bi)
                c1, v2 = inv(vi)
                return T.and_(c0, c1), v2
            if inv is None or i0 is None:
                ni = None
        return SArr(self.buf, shape, self.dtype, nf, ni)

    def _write(self, newfn):
        """assign newfn(view idx, old elem) to the elements of this view"""
        old = self.buf.fn
        if self.fwd is None:
            self.buf.set(lambda ix: newfn(ix, old(ix)))
            return
        inv = self.inv
        if inv is None:
            raise Unsupported("write through non-invertible view")

        def fn(bi):
            c, vi = inv(bi)
            if c is False:
                return old(bi)
            o = old(bi)
            n = newfn(vi, o)
            if c is True:
                return n
            return E(T.ite(c, n.val, o.val), wd_ite(c, n.wd, o.wd),
                     T.ite(c, n.nan, o.nan))
        self.buf.set(fn)

    def assign(self, value):
        value = asarr(value)
        g = broadcast_fn(value, self._shape)
        dt = self.dtype
        self._write(lambda ix, o: cast_elem(g(ix), dt))

    # ---- indexing
    def __getitem__(self, key):
        from . import indexing
        return indexing.getitem(self, key)

    def __setitem__(self, key, value):
        from . import indexing
        indexing.setitem(self, key, value)

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        d = dexpr(self._shape[0])
        if not isinstance(d, int):
            raise Unsupported("iteration over symbolic-length array")
        for k in range(d):
            yield self[k]

    # ---- python protocol
    def __bool__(self):
        n = self._shape
        if n:
            if all(isinstance(d, int) and d == 1 for d in n):
                e = self.at(*([0] * len(n)))
            else:
                raise ValueError("The truth value of an array is ambiguous")
        else:
            e = self.scalar()
        if e.wd is not True:
            cx().obligation("branch on defined value", e.wd)
        return cx().branch(T.to_bool(e.val))

    def __index__(self):
        v = self.scalar().val
        v = T.simp(v)
        if isinstance(v, int):
            return v
        if self.kind == 'i':
            # a value that is determined by what holds on this path
            for k in range(-4, 5):
                if cx().entails(T.eq(v, k)):
                    return k
        raise Unsupported("symbolic value used as a concrete index")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("float() of symbolic value")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        if not self._shape:
            try:
                return f"SArr({self.at()})"
            except Exception:
                pass
        return f"SArr(shape={self._shape}, {self.dtype})"

    # ---- arithmetic
    def __add__(self, o): return binop('add', self, o)
    def __radd__(self, o): return binop('add', o, self)
    def __sub__(self, o): return binop('sub', self, o)
    def __rsub__(self, o): return binop('sub', o, self)
    def __mul__(self, o): return binop('mul', self, o)
    def __rmul__(self, o): return binop('mul', o, self)
    def __truediv__(self, o): return binop('div', self, o)
    def __rtruediv__(self, o): return binop('div', o, self)
    def __floordiv__(self, o): return binop('floordiv', self, o)
    def __rfloordiv__(self, o): return binop('floordiv', o, self)
    def __mod__(self, o): return binop('mod', self, o)
    def __rmod__(self, o): return binop('mod', o, self)
    def __pow__(self, o): return binop('pow', self, o)
    def __rpow__(self, o): return binop('pow', o, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __neg__(self): return unop('neg', self)
    def __pos__(self): return self
    def __abs__(self): return unop('abs', self)
    def __invert__(self): return unop('invert', self)
    def __and__(self, o): return binop('and', self, o)
    def __rand__(self, o): return binop('and', o, self)
    def __or__(self, o): return binop('or', self, o)
    def __ror__(self, o): return binop('or', o, self)
    def __xor__(self, o): return binop('xor', self, o)
    def __lt__(self, o): return binop('lt', self, o)
    def __le__(self, o): return binop('le', self, o)
    def __gt__(self, o): return binop('gt', self, o)
    def __ge__(self, o): return binop('ge', self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, slice)):
            return False
        return binop('eq', self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, slice)):
            return True
        return binop('ne', self, o)

    def _inplace(self, op, o):
        r = binop(op, self, o)
        check_same_shape(r._shape, self._shape)
        if r.kind == 'c' and self.kind != 'c':
            raise TypeError("Cannot cast ufunc output from complex to float")
        if r.kind in 'f' and self.kind in 'ib':
            raise TypeError("Cannot cast ufunc output from float to int")
        if not self._shape and self.fwd is None and getattr(self, '_is_scalar', False):
            return r           # numpy scalars are immutable
        f = r.snap()
        dt = self.dtype
        self._write(lambda ix, o_: cast_elem(f(ix), dt))
        return self

    def __iadd__(self, o): return self._inplace('add', o)
    def __isub__(self, o): return self._inplace('sub', o)
    def __imul__(self, o): return self._inplace('mul', o)
    def __itruediv__(self, o): return self._inplace('div', o)
    def __iand__(self, o): return self._inplace('and', o)
    def __ior__(self, o): return self._inplace('or', o)
    def __ifloordiv__(self, o): return self._inplace('floordiv', o)

    # ---- methods
    def all(self, axis=None): return reduce_bool(self, axis, 'all')
    def any(self, axis=None): return reduce_bool(self, axis, 'any')

    def sum(self, axis=None, initial=None, **kw):
        if any(v is not None for v in kw.values()):
            raise Unsupported("sum keyword")
        r = reduce_sum(self, axis)
        if initial is not None:
            r = r + initial
        return r

    def max(self, axis=None): return reduce_minmax(self, axis, 'max')
    def min(self, axis=None): return reduce_minmax(self, axis, 'min')
    def argmax(self, axis=None): return reduce_arg(self, axis, 'max')
    def cumsum(self, axis=None): return cumsum(self, axis)

    def mean(self, axis=None):
        s = reduce_sum(self, axis)
        n = self.size if axis is None else self.shape[axis]
        return s / n

    def prod(self, axis=None):
        raise Unsupported("prod")

    def astype(self, dtype, copy=True):
        dt = as_dtype(dtype)
        f = self.snap()
        return mk(lambda ix: cast_elem(f(ix), dt, explicit=True), self._shape, dt)

    def copy(self, order='C'):
        return mk(self.snap(), self._shape, self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def ravel(self):
        from . import indexing
        return indexing.reshape(self, (-1,))

    def flatten(self):
        return self.ravel().copy()

    def reshape(self, *shape):
        from . import indexing
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return indexing.reshape(self, shape)

    def transpose(self, *order):
        from . import indexing
        if len(order) == 1 and (order[0] is None or isinstance(order[0], (tuple, list))):
            order = order[0]
        return indexing.transpose(self, tuple(order) if order else None)

    @property
    def T(self):
        return self.transpose()

    def swapaxes(self, a, b):
        o = list(range(self.ndim))
        a, b = a % self.ndim, b % self.ndim
        o[a], o[b] = o[b], o[a]
        return self.transpose(*o)

    def conj(self): return unop('conj', self)
    conjugate = conj

    @property
    def real(self):
        if self.kind != 'c':
            return self
        f = self.snap()
        return mk(lambda ix: e1(wd_part(f(ix), 0), lambda v: T.to_real(T.re(v))), self._shape,
                  np.dtype(np.float64))

    @real.setter
    def real(self, value):
        g = broadcast_fn(asarr(value), self._shape)

        def nf(ix, o):
            n = g(ix)
            if self.kind != 'c':
                return cast_elem(n, self.dtype)
            # the two components have separate definedness; a half-written
            # uninitialised element is well-defined once both are written
            return E(Cx(T.to_real(n.val), T.im(o.val)), half(o.wd, 're', n.wd), False)
        self._write(nf)

    @property
    def imag(self):
        f = self.snap()
        if self.kind != 'c':
            return mk(lambda ix: E(Fraction(0)), self._shape, np.dtype(np.float64))
        return mk(lambda ix: e1(wd_part(f(ix), 1), lambda v: T.to_real(T.im(v))), self._shape,
                  np.dtype(np.float64))

    @imag.setter
    def imag(self, value):
        g = broadcast_fn(asarr(value), self._shape)

        def nf(ix, o):
            n = g(ix)
            return E(Cx(T.re(o.val), T.to_real(n.val)), half(o.wd, 'im', n.wd), False)
        if self.kind != 'c':
            raise TypeError("array does not have imaginary part to set")
        self._write(nf)

    def searchsorted(self, x, side='left'):
        from . import symnp
        return symnp.searchsorted(self, x, side)

    def clip(self, lo=None, hi=None):
        r = self
        if lo is not None:
            r = binop('max', r, lo)
        if hi is not None:
            r = binop('min', r, hi)
        return r

    def nonzero(self):
        from . import indexing
        if self.ndim != 1:
            raise Unsupported("nonzero of n-d array")
        m = indexing.mask_enum(self)
        return m.positions(),

    def argsort(self, *a, **k):
        from . import symnp
        return symnp.argsort(self)

    def sort(self):
        from . import symnp
        self.assign(symnp.sort(self))

    def item(self):
        return self

    def tolist(self):
        raise Unsupported("tolist")

    def round(self, decimals=0):
        return unop('round', self)

    def dot(self, o):
        return matmul(self, o)

    def fill(self, v):
        self.assign(v)


def wd_ite(c, a, b):
    """definedness of a selected element; a complex element written one
    component at a time has one flag for each component"""
    if not isinstance(a, tuple) and not isinstance(b, tuple):
        return T.ite(c, a, b)
    p, q = [x[1:] if isinstance(x, tuple) else (x, x) for x in (a, b)]
    return WDPair(T.ite(c, p[0], q[0]), T.ite(c, p[1], q[1])).collapse()


def wd_part(e, k):
    return E(e.val, e.wd[1 + k], e.nan) if isinstance(e.wd, tuple) else e


def half(old_wd, comp, new_wd):
    # old_wd for uninitialised memory is a pair marker ('half', re_wd, im_wd)
    r, i = old_wd[1:] if isinstance(old_wd, tuple) else (old_wd, old_wd)
    if comp == 're':
        r = new_wd
    else:
        i = new_wd
    return WDPair(r, i).collapse()


class WDPair(tuple):
    def __new__(cls, r, i):
        return tuple.__new__(cls, ('half', r, i))

    def collapse(self):
        _, r, i = self
        if isinstance(r, bool) and isinstance(i, bool) and r == i:
            return r
        return self


def wdb(w):
    """definedness as a Boolean scalar"""
    if isinstance(w, tuple):
        return T.and_(w[1], w[2])
    return w


# ---- constructors -----------------------------------------------------------
def mk(fn, shape, dtype):
    return SArr(Buf(fn, tuple(shape)), tuple(shape), dtype)


def scalar(v, dtype=None, wd=True, nan=False):
    if dtype is None:
        dtype = (BOOL if T.is_bool(v) else INT64 if T.is_intish(v)
                 else C128 if isinstance(v, Cx) else F64)
    s = mk(lambda ix: E(v, wd, nan), (), dtype)
    s._is_scalar = True
    return s


def dim_scalar(d):
    s = scalar(dexpr(d), INT64)
    s._dim = d
    return s


def as_dim(x):
    """python int / SArr scalar -> dimension"""
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, (DimProd, DimSum)):
        return x
    if isinstance(x, SArr):
        d = getattr(x, '_dim', None)
        if d is not None:
            return d
        if x.kind != 'i':
            raise TypeError("dimension must be an integer")
        return T.simp(x.scalar().val)
    if isinstance(x, z3.ExprRef):
        return T.simp(x)
    raise TypeError(f"{x!r} cannot be interpreted as a dimension")


def as_dtype(d):
    if d is None:
        return None
    if isinstance(d, np.dtype):
        return d
    return np.dtype(d)


def is_sym(x):
    return isinstance(x, (SArr, SymSeq))


def asarr(x, dtype=None):
    if isinstance(x, SArr):
        return x if dtype is None else x.astype(dtype)
    if isinstance(x, SymSeq):
        return x.to_array()
    if isinstance(x, (bool, int, float, complex, Fraction, np.generic)):
        if isinstance(x, float) and np.isinf(x):
            r = mk(lambda ix: E(x), (), F64)
            r._is_scalar = True
            return r
        if isinstance(x, Fraction):
            r = scalar(x, F64)
        else:
            r = const_array(np.asarray(x))
            r._is_scalar = True
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, np.ndarray):
        r = const_array(x)
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, (list, tuple)):
        if not contains_sym(x):
            r = const_array(np.asarray(x))
            return r if dtype is None else r.astype(dtype)
        from . import symnp
        r = symnp.stack([asarr(i) for i in x])
        return r if dtype is None else r.astype(dtype)
    arr = getattr(x, '__array__', None)
    if arr is not None:
        return asarr(arr())
    raise Unsupported(f"cannot convert {type(x)} to array")


def contains_sym(x):
    if isinstance(x, (SArr, SymSeq)):
        return True
    if isinstance(x, (list, tuple)):
        return any(contains_sym(i) for i in x)
    return False


def cast_elem(e, dt, explicit=False):
    k = dt.kind
    v = e.val
    if k == 'c':
        return e if isinstance(v, Cx) else E(T.cx(v), e.wd, e.nan)
    if k == 'f':
        if isinstance(v, Cx):
            if not explicit:
                raise Unsupported("complex to real cast")
            return E(T.to_real(v.re), e.wd, e.nan)
        if isinstance(v, float):
            return e
        return E(T.to_real(v), e.wd, e.nan)
    if k in 'iu':
        if isinstance(v, Cx):
            v = v.re
        if T.is_bool(v):
            return E(T.to_num(v), e.wd, e.nan)
        if T.is_intish(v):
            return e
        # truncation of a real toward zero; integers stay what they are
        t = trunc(v)
        if e.nan is not False:
            # the integer a NaN is cast to is not specified
            t = T.ite(e.nan, T.fn('int_of_nan', T.RS, T.IS)(T.z(T.to_real(v))), t)
        return E(t, wdb(e.wd), False)
    if k == 'b':
        # nan is truthy
        return E(T.or_(T.to_bool(v), e.nan), e.wd, False)
    raise Unsupported(f"cast to {dt}")


def trunc(v):
    if T.is_const(v):
        return int(v)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
        return v.arg(0)
    if z3.is_app(v) and v.decl().name() == 'm_round':
        r = T.fn('m_iround', T.RS, T.IS)(v.arg(0))
        cx().fact(z3.ToReal(r) == v)
        x = v.arg(0)
        cx().fact(z3.And(v - x <= T.z(Fraction(1, 2)), x - v <= T.z(Fraction(1, 2))))
        return r
    fl = z3.ToInt(z3.If(v >= 0, v, -v))
    return z3.If(v >= 0, fl, -fl)


def e1(e, f):
    return E(f(e.val), e.wd, e.nan)


# ---- broadcasting -----------------------------------------------------------
def dims_equal(a, b):
    """decide equality of two dimensions (may fork)"""
    if same(a, b):
        return True
    fa, fb = factors(a), factors(b)
    if len(fa) == len(fb) and len(fa) > 1 and all(same(x, y) for x, y in zip(fa, fb)):
        return True
    ea, eb = dexpr(a), dexpr(b)
    if isinstance(ea, int) and isinstance(eb, int):
        return False
    return cx().branch(T.eq(ea, eb))


def is_one(d):
    d = dexpr(d)
    if isinstance(d, int):
        return d == 1
    return None


def bdim(a, b):
    """broadcast two dimensions"""
    if is_one(a):
        return b
    if is_one(b):
        return a
    if dims_equal(a, b):
        if isinstance(b, (DimSum, DimProd)):
            return b
        if isinstance(a, (DimSum, DimProd)):
            return a
        return a if isinstance(a, int) or not isinstance(b, int) else b
    ea, eb = dexpr(a), dexpr(b)
    if not isinstance(ea, int) and cx().branch(T.eq(ea, 1)):
        return b
    if not isinstance(eb, int) and cx().branch(T.eq(eb, 1)):
        return a
    raise ValueError(f"operands could not be broadcast together: {a} vs {b}")


def broadcast_shape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j >= 0:
                d = bdim(d, s[j])
        out.append(d)
    return tuple(out)


def align_idx(idx, shape, target):
    """index of an array of `shape` broadcast to `target`, for index idx"""
    off = len(target) - len(shape)
    r = []
    for k, d in enumerate(shape):
        if is_one(d) and not is_one(target[k + off]):
            r.append(0)
        elif is_one(d):
            r.append(0)
        elif same(d, target[k + off]) or not pinned_one(d):
            r.append(idx[k + off])
        else:
            r.append(0)
    return tuple(r)


def pinned_one(d):
    """symbolic dimension that the current path pins to 1"""
    d = dexpr(d)
    if isinstance(d, int):
        return d == 1
    return cx().entails(T.eq(d, 1), 1000)


def broadcast_fn(a, shape):
    """element function of `a` broadcast to `shape`"""
    sh = a._shape
    if len(sh) > len(shape):
        # leading ones may be dropped in assignment
        extra = len(sh) - len(shape)
        if all(is_one(d) for d in sh[:extra]):
            f0 = a.snap()
            sh = sh[extra:]
            f = lambda ix: f0((0,) * extra + tuple(ix))
        else:
            raise ValueError("could not broadcast input array")
    else:
        f = a.snap()
    full = broadcast_shape(sh, shape)
    check_same_shape(full, shape)
    return lambda ix: f(align_idx(ix, sh, shape))


def check_same_shape(a, b):
    if len(a) != len(b):
        raise ValueError("non-broadcastable output operand")
    for x, y in zip(a, b):
        if not dims_equal(x, y):
            raise ValueError("non-broadcastable output operand")


# ---- elementwise operations -------------------------------------------------
CMP = {'lt', 'le', 'gt', 'ge', 'eq', 'ne'}
LOGIC = {'and', 'or', 'xor'}


def result_kind(op, a, b):
    k = max((a.kind, b.kind), key='bifc'.index)
    if op in CMP:
        return BOOL
    if op in LOGIC:
        return BOOL if k == 'b' else INT64
    if op == 'div':
        return C128 if k == 'c' else fdt(a, b)
    if k == 'b':
        if op in ('max', 'min', 'mul', 'add'):
            return BOOL if op in ('max', 'min') else INT64
        if op == 'sub':
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        return INT64
    if k == 'i':
        return INT64
    if k == 'f':
        return fdt(a, b)
    return C128


def fdt(a, b):
    ds = [x.dtype for x in (a, b) if x.dtype.kind == 'f' and
          not getattr(x, '_is_scalar', False)]
    if not ds:
        ds = [x.dtype for x in (a, b) if x.dtype.kind == 'f']
    if not ds:
        return F64
    r = ds[0]
    for d in ds[1:]:
        r = np.promote_types(r, d)
    return r


def elem_binop(op, x, y):
    """E x E -> E"""
    a, b = x.val, y.val
    wd = T.and_(wdb(x.wd), wdb(y.wd))
    nan = T.or_(x.nan, y.nan)
    if op in CMP:
        f = getattr(T, op)
        if op in ('lt', 'le', 'gt', 'ge') and (isinstance(a, Cx) or isinstance(b, Cx)):
            raise Unsupported("ordering of complex numbers")
        r = f(a, b)
        if nan is not False:
            r = T.and_(T.not_(nan), r) if op != 'ne' else T.or_(nan, r)
        return E(r, wd, False)
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported("arithmetic with infinity")
    if op in ('add', 'sub', 'mul'):
        if T.is_bool(a):
            a = T.to_num(a)
        if T.is_bool(b):
            b = T.to_num(b)
        return E(getattr(T, op)(a, b), wd, nan)
    if op == 'div':
        nz = T.or_(T.ne(T.re(b), 0), T.ne(T.im(b), 0)) if isinstance(b, Cx) \
            else T.ne(T.to_num(b), 0)
        return E(T.div(a, b), T.and_(wd, nz), nan)
    if op == 'floordiv':
        return E(T.floordiv(a, b), T.and_(wd, T.ne(b, 0)), nan)
    if op == 'mod':
        return E(T.mod(a, b), T.and_(wd, T.ne(b, 0)), nan)
    if op == 'and':
        if T.is_bool(a) and T.is_bool(b):
            return E(T.and_(a, b), wd, False)
        if T.is_const(b) and b == 1 and T.is_intish(b):
            return E(T.mod(T.to_num(a), 2), wd, False)
        if T.is_const(a) and a == 1 and T.is_intish(a):
            return E(T.mod(T.to_num(b), 2), wd, False)
        raise Unsupported("bitwise and")
    if op == 'or':
        if T.is_bool(a) and T.is_bool(b):
            return E(T.or_(a, b), wd, False)
        raise Unsupported("bitwise or")
    if op == 'xor':
        if T.is_bool(a) and T.is_bool(b):
            return E(T.xor(a, b), wd, False)
        raise Unsupported("bitwise xor")
    if op in ('max', 'min'):
        return E((T.max_ if op == 'max' else T.min_)(a, b), wd, nan)
    if op == 'pow':
        return elem_pow(a, b, wd, nan)
    raise Unsupported(op)


def elem_pow(a, b, wd, nan):
    if T.is_const(b) and Fraction(b).denominator == 1 and abs(b) <= 16:
        k = int(b)
        r = T.ipow(a, k)
        if T.is_intish(b) is False or not T.is_intish(a):
            r = T.to_real(r) if not isinstance(r, Cx) else r
        return E(r, T.and_(wd, True if k >= 0 else T.ne(a, 0)), nan)
    if T.is_const(b) and Fraction(b) == Fraction(1, 2):
        return E(T.func('sqrt', a), T.and_(wd, T.ge(a, 0)), nan)
    if T.is_const(a) and a in (-1,) and T.is_intish(b):
        par = T.mod(b, 2)
        one = 1 if T.is_intish(a) else Fraction(1)
        return E(T.ite(T.eq(par, 0), one, -one), wd, nan)
    if T.is_const(a) and not isinstance(a, bool) and a > 0 and T.is_const(b):
        v = T.lift_const(float(a) ** float(b))
        return E(v, wd, nan)
    if isinstance(b, z3.ExprRef) and not isinstance(a, Cx):
        # general power, uninterpreted
        return E(T.fn('m_pow', T.RS, T.RS, T.RS)(T.z(T.to_real(a)), T.z(T.to_real(b))),
                 T.and_(wd, T.gt(a, 0)), nan)
    raise Unsupported("power")


def binop(op, a, b, where=None, out=None):
    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
        raise TypeError("unsupported operand type(s)")
    for o in (a, b):
        if o is None or isinstance(o, (str, dict, set)) or callable(o) and not isinstance(o, (SArr, np.ndarray)):
            raise TypeError(f"unsupported operand type(s) for {op}")
    pa, pb = a, b
    a, b = asarr(a), asarr(b)
    # python scalars are weakly typed
    for o, raw in ((a, pa), (b, pb)):
        if isinstance(raw, (int, float, complex)) and not isinstance(raw, np.generic):
            o._is_scalar = True
    dt = result_kind(op, a, b)
    if op == 'pow' and a.kind == 'i' and b.kind == 'i':
        dt = INT64
    shape = broadcast_shape(a._shape, b._shape)
    fa, fb = a.snap(), b.snap()
    sa, sb = a._shape, b._shape

    def fn(ix):
        return elem_binop(op, fa(align_idx(ix, sa, shape)), fb(align_idx(ix, sb, shape)))
    r = mk(fn, shape, dt)
    if not shape:
        r._is_scalar = True
        if op in ('add', 'sub', 'mul', 'floordiv'):
            e = r.at()
            if T.is_intish(e.val):
                v = T.simp(e.val)
                r = scalar(v, dt, e.wd, e.nan)
                if op == 'mul' and a.kind == 'i' and b.kind == 'i':
                    fs = factors(as_dim_safe(a)) + factors(as_dim_safe(b))
                    r._dim = mkprod(fs)
    return r


def as_dim_safe(x):
    d = getattr(x, '_dim', None)
    return d if d is not None else T.simp(x.scalar().val)


OVERFLOW = {'on': True, 'max': 700}      # exp/sinh/cosh finite below this


def elem_unop(op, x):
    a, wd, nan = x
    wd = wdb(wd)
    if op == 'neg':
        if T.is_bool(a):
            raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
        return E(-a if isinstance(a, float) else T.neg(a), wd, nan)
    if op == 'abs':
        if isinstance(a, float):
            return E(abs(a), wd, nan)
        return E(T.abs_(a), wd, nan)
    if op == 'sign':
        return E(T.sign(a), wd, nan)
    if op == 'conj':
        return E(T.conj(a), wd, nan)
    if op == 'invert':
        if not T.is_bool(a):
            raise Unsupported("bitwise not")
        return E(T.not_(a), wd, False)
    if op == 'sqrt':
        return E(T.func('sqrt', a), T.and_(wd, T.ge(a, 0)), nan)
    if op in ('log', 'log10', 'log2'):
        return E(T.func(op, a), T.and_(wd, T.gt(a, 0)), nan)
    if op in ('exp', 'expm1', 'sinh', 'cosh'):
        r = T.re(a)
        if OVERFLOW['on']:
            wd = T.and_(wd, T.le(r, OVERFLOW['max']))
            if op in ('sinh', 'cosh'):
                wd = T.and_(wd, T.ge(r, -OVERFLOW['max']))
        return E(T.func(op, a), wd, nan)
    if op in ('sin', 'cos', 'tanh', 'arcsin', 'arccos'):
        return E(T.func(op, a), wd, nan)
    if op == 'reciprocal':
        return elem_binop('div', E(Fraction(1)), x)
    if op == 'signbit':
        return E(T.lt(a, 0), wd, False)
    if op == 'isnan':
        # garbage may be nan: then the answer is not determined
        return E(nan, wd, False)
    if op == 'round':
        if T.is_intish(a):
            return E(a, wd, nan)
        if T.is_const(a):
            return E(Fraction(round(a)), wd, nan)
        return E(T.real1('round')(a), wd, nan)
    if op == 'logical_not':
        return E(T.not_(T.to_bool(a)), wd, False)
    if op == 'square':
        return E(T.mul(a, a), wd, nan)
    raise Unsupported(op)


def unop_dtype(op, a):
    k = a.kind
    if op in ('signbit', 'isnan', 'logical_not'):
        return BOOL
    if op == 'invert':
        return a.dtype
    if op in ('neg', 'conj', 'sign', 'round', 'square'):
        return a.dtype
    if op == 'abs':
        return F64 if k == 'c' else a.dtype
    if op == 'reciprocal' and k == 'i':
        raise Unsupported("integer reciprocal")
    return a.dtype if k in 'fc' else F64


def unop(op, a):
    a = asarr(a)
    dt = unop_dtype(op, a)
    f = a.snap()
    r = mk(lambda ix: elem_unop(op, f(ix)), a._shape, dt)
    if not a._shape:
        r._is_scalar = True
    return r


def ufunc_call(core, ins, dt, out=None, where=True):
    """numpy ufunc protocol with out= and where= """
    ins = [asarr(i) for i in ins]
    shapes = [i._shape for i in ins]
    w = None
    if where is not True:
        w = asarr(where)
        shapes.append(w._shape)
    if out is not None:
        if isinstance(out, tuple):
            out, = out
        if not isinstance(out, SArr) or getattr(out, '_is_scalar', False):
            raise TypeError("return arrays must be of ArrayType")
        if out.kind in 'ib' and np.dtype(dt).kind in 'fc' or \
                out.kind == 'f' and np.dtype(dt).kind == 'c':
            raise TypeError("Cannot cast ufunc output")
        shape = broadcast_shape(*shapes, out._shape)
        check_same_shape(shape, out._shape)
    else:
        shape = broadcast_shape(*shapes)
    fs = [(i.snap(), i._shape) for i in ins]
    fw = (w.snap(), w._shape) if w is not None else None

    def val(ix):
        return core(*[f(align_idx(ix, s, shape)) for f, s in fs])

    def wval(ix):
        e = fw[0](align_idx(ix, fw[1], shape))
        return T.to_bool(e.val)
    if out is not None:
        odt = out.dtype

        def nf(ix, o):
            n = cast_elem(val(ix), odt)
            if fw is None:
                return n
            c = wval(ix)
            return E(T.ite(c, n.val, o.val), T.ite(c, wdb(n.wd), wdb(o.wd)),
                     T.ite(c, n.nan, o.nan))
        out._write(nf)
        return out
    if fw is None:
        r = mk(val, shape, dt)
    else:
        # unselected elements are uninitialised
        def g(ix):
            n = cast_elem(val(ix), np.dtype(dt))
            c = wval(ix)
            u = uninit(np.dtype(dt), ix)
            return E(T.ite(c, n.val, u.val), T.and_(c, wdb(n.wd)), T.and_(c, n.nan))
        r = mk(g, shape, dt)
    if not shape:
        r._is_scalar = True
    return r


_uninit_counter = itertools.count()


def uninit(dt, ix, tag=None):
    """an unknown, ill-defined element"""
    k = dt.kind
    name = f"uninit{next(_uninit_counter)}"
    if k == 'c':
        return E(Cx(z3.Real(name + 'r'), z3.Real(name + 'i')), WDPair(False, False), False)
    if k == 'f':
        return E(z3.Real(name), False, False)
    if k == 'b':
        return E(z3.Bool(name), False, False)
    return E(z3.Int(name), False, False)


# ---- reductions -------------------------------------------------------------
def norm_axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    r = []
    for x in axis:
        if not -a.ndim <= x < a.ndim:
            raise np.exceptions.AxisError(f"axis {x} is out of bounds")
        r.append(int(x) % a.ndim)
    return tuple(r)


def split_axes(a, axis):
    ax = norm_axes(a, axis)
    keep = [k for k in range(a.ndim) if k not in ax]
    shape = tuple(a._shape[k] for k in keep)
    rdims = [a._shape[k] for k in ax]

    def full(ix, rx):
        r = [None] * a.ndim
        for k, i in zip(keep, ix):
            r[k] = i
        for k, i in zip(ax, rx):
            r[k] = i
        return tuple(r)
    return shape, rdims, full


def reduce_bool(a, axis, kind):
    a = asarr(a)
    shape, rdims, full = split_axes(a, axis)
    f = a.snap()

    def fn(ix):
        wds = []

        def body(rx):
            e = f(full(ix, rx))
            w = wdb(e.wd)
            if w is not True:
                wds.append(w)
            return T.to_bool(e.val)
        v = cx().close(rdims, body, kind)
        wd = True
        if wds:
            wd = cx().close(rdims, lambda rx: wdb(f(full(ix, rx)).wd), 'all')
        return E(v, wd, False)
    r = mk(fn, shape, BOOL)
    if not shape:
        r._is_scalar = True
    return r


def reduce_sum(a, axis):
    from . import sums
    a = asarr(a)
    shape, rdims, full = split_axes(a, axis)
    f = a.snap()
    isint = a.kind in 'bi'

    if a.ndim == 1 and not shape:
        f0 = f
        f = sums.unpermuted(f, a._shape[0])
        if f is f0 or a.kind != 'b':
            f0 = None
    else:
        f0 = None

    def fn(ix):
        r = sums.make_sum(rdims, lambda rx: f(full(ix, rx)), isint)
        if f0 is not None:
            sums.permuted_count(cx(), r.val, f0, dexpr(a._shape[0]))
        return r
    r = mk(fn, shape, INT64 if isint else a.dtype)
    if not shape:
        r._is_scalar = True
    return r


def cumsum(a, axis=None):
    from . import sums
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum of n-d array")
    f = a.snap()
    isint = a.kind in 'bi'
    return sums.make_cumsum(f, a._shape[0], isint, a.dtype)


def reduce_minmax(a, axis, kind):
    a = asarr(a)
    shape, rdims, full = split_axes(a, axis)
    f = a.snap()
    ctx = cx()
    tag = ctx.fresh(kind)
    for d in rdims:
        dd = dexpr(d)
        if isinstance(dd, int):
            if dd == 0:
                raise ValueError("zero-size array to reduction operation")
        elif not ctx.branch(T.gt(dd, 0)):
            raise ValueError("zero-size array to reduction operation")
    if all(isinstance(dexpr(d), int) for d in rdims) and \
            np.prod([dexpr(d) for d in rdims], dtype=int) <= 8:
        def fnc(ix):
            r = None
            for rx in itertools.product(*[range(dexpr(d)) for d in rdims]):
                e = f(full(ix, rx))
                r = e if r is None else elem_binop(kind, r, e)
            return r
        r = mk(fnc, shape, a.dtype)
    else:
        isint = a.kind in 'bi'

        def fn(ix):
            # r == f(w) for a witness w, and r bounds all elements
            ii = [T.z(lin(i)) for i in ix]
            srt = [T.IS] * len(ii)
            ws = []
            for n, d in enumerate(rdims):
                w = T.fn(f"{tag}_w{n}", *srt, T.IS)(*ii) if ii else z3.Int(f"{tag}_w{n}")
                fs = factors(d)
                if len(fs) > 1 and not all(isinstance(q, int) for q in fs):
                    comp = []
                    for q, fd in enumerate(fs):
                        wq = T.fn(f"{tag}_w{n}_{q}", *srt, T.IS)(*ii) if ii \
                            else z3.Int(f"{tag}_w{n}_{q}")
                        ctx.fact(T.and_(T.le(0, wq), T.lt(wq, fd)))
                        comp.append(wq)
                    ws.append(Flat(comp, fs))
                else:
                    ctx.fact(T.and_(T.le(0, w), T.lt(w, dexpr(d))))
                    ws.append(w)
            e = f(full(ix, tuple(ws)))
            cmp = T.ge if kind == 'max' else T.le
            ctx.fact(ctx.close(rdims, lambda rx: cmp(e.val, f(full(ix, rx)).val), 'all'))
            wd = ctx.close(rdims, lambda rx: wdb(f(full(ix, rx)).wd), 'all')
            return E(e.val, wd, e.nan)
        r = mk(fn, shape, a.dtype)
    if not shape:
        r._is_scalar = True
    return r


def reduce_arg(a, axis, kind):
    a = asarr(a)
    if a.ndim != 1 or axis not in (None, 0, -1):
        raise Unsupported("argmax of n-d array")
    ctx = cx()
    n = dexpr(a._shape[0])
    if not ctx.branch(T.gt(n, 0)):
        raise ValueError("attempt to get argmax of an empty sequence")
    f = a.snap()
    w = ctx.fresh_int('argmax')
    ctx.fact(T.and_(T.le(0, w), T.lt(w, n)))
    e = f((w,))
    ctx.__dict__.setdefault('argmaxes', []).append((f, n, w))
    ctx.fact(ctx.close([n], lambda ix: T.ge(e.val, f(ix).val), 'all'))
    ctx.fact(ctx.close([n], lambda ix: T.implies(T.lt(ix[0], w), T.gt(e.val, f(ix).val)), 'all'))
    return scalar(w, INT64)


def matmul(a, b):
    from . import sums
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    va, vb = a.ndim == 1, b.ndim == 1
    ka = a._shape[-1]
    kb = b._shape[-1] if vb else b._shape[-2]
    if not dims_equal(ka, kb):
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    if len(factors(ka)) < len(factors(kb)):
        ka = kb
    sa = a._shape[:-1] if va else a._shape[:-2]
    sb = b._shape[:-1] if vb else b._shape[:-2]
    if va:
        sa = ()
    if vb:
        sb = ()
    batch = broadcast_shape(sa, sb) if (sa or sb) else ()
    shape = batch + (() if va else (a._shape[-2],)) + (() if vb else (b._shape[-1],))
    fa, fb = a.snap(), b.snap()
    nb = len(batch)
    isint = a.kind in 'bi' and b.kind in 'bi'

    def fn(ix):
        bi = ix[:nb]
        rest = list(ix[nb:])
        ra = () if va else (rest.pop(0),)
        rb = () if vb else (rest.pop(0),)

        def body(rx):
            k, = rx
            x = fa(align_idx(bi, sa, batch) + ra + (k,))
            y = fb(align_idx(bi, sb, batch) + (k,) + rb)
            return elem_binop('mul', x, y)
        return sums.make_sum([ka], body, isint)
    dt = result_kind('mul', a, b)
    r = mk(fn, shape, dt)
    if not shape:
        r._is_scalar = True
    return r


# =====================================================================
# symbolic sequences (lists / generators of symbolic length)
# =====================================================================
class SymSeq:
    """sequence of symbolic length; item(k) gives the k-th element"""
    __array_ufunc__ = None

    def __init__(self, length, item):
        self.length = length            # dim
        self.item = item

    def __iter__(self):
        d = dexpr(self.length)
        if isinstance(d, int):
            return iter([self.item(k) for k in range(d)])
        raise Unsupported("iteration over symbolic sequence")

    def __len__(self):
        d = dexpr(self.length)
        if isinstance(d, int):
            return d
        raise Unsupported("len() of symbolic sequence")

    def __getitem__(self, k):
        d = dexpr(self.length)
        if isinstance(k, slice):
            return self.slice(k)
        k = T.simp(asarr(k).scalar().val)
        if k < 0 if isinstance(k, int) else cx().branch(T.lt(k, 0)):
            k = T.simp(T.add(k, d))
        if not cx().branch(T.and_(T.le(0, k), T.lt(k, d))):
            raise IndexError("sequence index out of range")
        return self.item(k)

    def slice(self, k):
        iv = lambda v: v if v is None or isinstance(v, int) else T.simp(
            v.__index__() if not isinstance(v, SArr) else v.scalar().val)
        step = iv(k.step)
        if step not in (None, 1):
            raise Unsupported("strided slice of symbolic sequence")
        n = dexpr(self.length)

        def clamp(v):
            v = T.ite(T.lt(v, 0), T.add(v, n), v)
            return T.simp(T.ite(T.lt(v, 0), 0, T.ite(T.gt(v, n), n, v)))
        lo = 0 if k.start is None else clamp(iv(k.start))
        hi = n if k.stop is None else clamp(iv(k.stop))
        d = T.simp(T.sub(hi, lo))
        if not isinstance(d, int) and not cx().entails(T.ge(d, 0)):
            d = T.simp(T.ite(T.ge(d, 0), d, 0))
        it = self.item
        return SymList(d, lambda q: it(T.simp(T.add(lo, lin(q)))))

    def __bool__(self):
        return cx().branch(T.gt(dexpr(self.length), 0))

    def map(self, f):
        it = self.item
        return SymSeq(self.length, lambda k: f(it(k)))

    def to_array(self):
        # shape of the generic element must not depend on k
        k = cx().fresh_idx(self.length)
        probe = asarr(self.item(k))
        sh = probe._shape
        it = self.item
        return mk(lambda ix: asarr(it(ix[0])).at(*ix[1:]), (self.length,) + sh, probe.dtype)


def merge_item(c, a, b):
    """a if c else b, for items of sequences"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_item(c, x, y) for x, y in zip(a, b))
    if a is b:
        return a
    if isinstance(c, bool):
        return a if c else b
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        raise Unsupported("items of different rank")
    for p, q in zip(a._shape, b._shape):
        if not dims_equal(p, q):
            raise Unsupported("items of different shape")
    f, g = a.snap(), b.snap()

    def fn(ix):
        x, y = f(ix), g(ix)
        return E(T.ite(c, x.val, y.val), T.ite(c, wdb(x.wd), wdb(y.wd)), T.ite(c, x.nan, y.nan))
    r = mk(fn, a._shape, np.promote_types(a.dtype, b.dtype))
    r._is_scalar = getattr(a, '_is_scalar', False) and getattr(b, '_is_scalar', False)
    return r


class SymList(SymSeq):
    """mutable list of symbolic length"""

    def insert(self, pos, v):
        if pos != 0:
            raise Unsupported("insert() other than in front")
        n, old = dexpr(self.length), self.item

        def item(k):
            q = T.simp(lin(k))
            if isinstance(q, int):
                return v if q == 0 else old(q - 1)
            c = T.simp(T.eq(q, 0))
            return merge_item(c, v, old(T.simp(T.sub(q, 1))))
        self.item = item
        self.length = T.simp(T.add(n, 1))

    def append(self, v):
        n, old = dexpr(self.length), self.item
        if isinstance(n, int) and n == 0:
            self.item, self.length = (lambda k: v), 1
            return

        def item(k):
            c = T.simp(T.eq(lin(k), n))
            return merge_item(c, v, old(k)) if c is not True else v
        self.item = item
        self.length = T.simp(T.add(n, 1))
