"""Contracts of the scipy / numpy.polynomial functions used (trusted)."""
import types
from fractions import Fraction
import z3
import numpy as np

from . import terms as T
from . import symarr as S
from . import symnp
from . import ring as R
from .sums import make_sum
from .symarr import (E, SArr, cx, mk, asarr, dexpr, broadcast_shape, align_idx, elem_binop,
                     result_kind, F64, scalar, as_dim)
from .terms import Cx, Unsupported

LEG = T.fn('Leg', T.IS, T.RS, T.RS)           # P_p(x)
DLEG = T.fn('dLeg', T.IS, T.IS, T.RS, T.RS)   # d^m/dx^m P_p(x)
LEGD = T.fn('LegD', T.IS, T.IS, T.IS, T.RS)   # P_p^{(m)} = Σ_q LegD(m,q,p) P_q
JN = T.fn('sphjn', T.IS, T.RS, T.RS)


def leg_elem(p, e):
    if isinstance(e.val, Cx):
        raise Unsupported("complex Legendre argument")
    return E(LEG(T.z(S.lin(p)), T.z(T.to_real(e.val))), e.wd, e.nan)


def legval(x, c, tensor=True):
    if not symnp.active():
        return np.polynomial.legendre.legval(x, c, tensor)
    symnp.trusted("numpy.polynomial.legendre.legval: sum_p c[p] P_p(x), broadcast when "
                  "tensor=False")
    x, c = asarr(x), asarr(c)
    fc, fx = c.snap(), x.snap()
    deg = c._shape[0]
    csh = c._shape[1:]
    if tensor:
        shape = csh + x._shape
        nc = len(csh)
        ci = lambda ix: ix[:nc]
        xi = lambda ix: ix[nc:]
    else:
        shape = broadcast_shape(csh, x._shape)
        ci = lambda ix: align_idx(ix, csh, shape)
        xi = lambda ix: align_idx(ix, x._shape, shape)

    def fn(ix):
        xe = fx(xi(ix))
        return make_sum([deg], lambda rx: elem_binop(
            'mul', fc((rx[0],) + tuple(ci(ix))), leg_elem(rx[0], xe)), False)
    dt = np.dtype(result_kind('mul', c, x))
    if dt.kind in 'biu':
        dt = F64
    return mk(fn, shape, dt)


def _legd_rule():
    """Σ_q LegD(m,q,p) P_q(x) = P_p^{(m)}(x)"""
    def is_b(key):
        return len(key) == 1 and key[0][1] == 1 and key[0][0][0] == () and \
            len(key[0][0][1]) == 1 and key[0][0][1][0][0][0] == 'B' and \
            key[0][0][1][0][1] == 1

    def rule(ring, m):
        bs, fs = m
        for a, e in fs:
            if a[0] == 'f' and a[1] == 'LegD' and e == 1 and is_b(a[2][1]):
                j = a[2][1][0][0][1][0][0][1]
                for b, e2 in fs:
                    if b[0] == 'f' and b[1] == 'Leg' and e2 == 1 and b[2][0] == a[2][1]:
                        rest = [(q, e3) for q, e3 in fs if q not in (a, b)]
                        if any(j in R.atom_bounds(q, set()) for q, _ in rest):
                            continue
                        new = ('f', 'dLeg', (a[2][0], a[2][2], b[2][1]))
                        if j in R.atom_bounds(new, set()):
                            continue
                        mp = {k: (k if k < j else k - 1) for k in range(len(bs)) if k != j}
                        nbs = tuple(R.ren_key(k, mp) for i, k in enumerate(bs) if i != j)
                        d = {}
                        for q, e3 in rest + [(new, R.F1)]:
                            q = R.ren_atom(q, mp)
                            d[q] = d.get(q, R.F0) + e3
                        return ring.mono_norm(nbs, d, R.F1)
        return None
    rule.tag = 'legd'
    return rule


def legder(c, m=1, scl=1, axis=0):
    if not symnp.active():
        return np.polynomial.legendre.legder(c, m, scl, axis)
    if axis != 0 or scl != 1:
        raise Unsupported("legder axis/scl")
    symnp.trusted("numpy.polynomial.legendre.legder: coefficients of the m-th derivative of "
                  "sum_p c[p] P_p")
    c = asarr(c)
    ctx = cx()
    mm = asarr(m).scalar().val if not isinstance(m, int) else m
    mm = T.simp(mm) if isinstance(mm, z3.ExprRef) else mm
    if not isinstance(mm, int):
        raise Unsupported("legder of symbolic order")
    if mm < 0:
        raise ValueError("The order of derivation must be non-negative")
    if mm == 0:
        return c.copy()
    P = c._shape[0]
    if not any(getattr(r, 'tag', None) == 'legd' for r in ctx.rules):
        ctx.note_rule(_legd_rule())
    if isinstance(dexpr(P), int):
        if dexpr(P) <= mm:
            return symnp.zeros((1,) + c._shape[1:], F64 if c.kind in 'bif' else c.dtype)
        Q = dexpr(P) - mm
    elif ctx.branch(T.gt(dexpr(P), mm)):
        Q = T.simp(T.sub(dexpr(P), mm))
    else:                            # numpy: c[:1] * 0
        return symnp.zeros((1,) + c._shape[1:], F64 if c.kind in 'bif' else c.dtype)
    f = c.snap()

    def fn(ix):
        q = S.lin(ix[0])
        return make_sum([P], lambda rx: elem_binop(
            'mul', f((rx[0],) + tuple(ix[1:])),
            E(LEGD(T.z(mm), T.z(q), T.z(S.lin(rx[0]))))), False)
    return mk(fn, (Q,) + c._shape[1:], F64 if c.kind in 'bif' else c.dtype)


def legvander(x, deg):
    if not symnp.active():
        return np.polynomial.legendre.legvander(x, deg)
    symnp.trusted("numpy.polynomial.legendre.legvander: V[..., p] = P_p(x), p = 0..deg")
    x = asarr(x)
    d = as_dim(deg)
    if isinstance(d, int):
        if d < 0:
            raise ValueError("deg must be non-negative")
        n = d + 1
    else:
        if cx().branch(T.lt(dexpr(d), 0)):
            raise ValueError("deg must be non-negative")
        n = T.simp(T.add(dexpr(d), 1))
    f = x.snap()
    nx = x.ndim
    return mk(lambda ix: leg_elem(ix[nx], f(tuple(ix[:nx]))), x._shape + (n,), F64)


def spherical_jn(n, z, derivative=False):
    if not symnp.active():
        import scipy.special
        return scipy.special.spherical_jn(n, z, derivative)
    if derivative:
        raise Unsupported("spherical_jn derivative")
    symnp.trusted("scipy.special.spherical_jn(n, z) for z >= 0: spherical Bessel function")
    n, z_ = asarr(n), asarr(z)
    sh = broadcast_shape(n._shape, z_._shape)
    fn_, fz = n.snap(), z_.snap()

    def fn(ix):
        a = fn_(align_idx(ix, n._shape, sh))
        b = fz(align_idx(ix, z_._shape, sh))
        zz = T.z(T.to_real(b.val))
        # the library function is only used where it is defined
        wd = T.and_(S.wdb(a.wd), S.wdb(b.wd), T.ge(zz, 0))
        return E(JN(T.z(a.val), zz), wd, False)
    return mk(fn, sh, F64)


class _Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f"{self.__name__}.{n}")


def legendre_module():
    m = _Mod('numpy.polynomial.legendre')
    m.legval, m.legder, m.legvander = legval, legder, legvander
    return m


def special_module():
    m = _Mod('scipy.special')
    m.spherical_jn = spherical_jn
    return m


def opaque(name):
    class Op(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)

            def stub(*a, **k):
                raise Unsupported(f"{name}.{n}")
            return stub
    return Op(name)


def eigvalsh_tridiagonal(d, e, *a, **kw):
    if a or kw:
        raise Unsupported("eigvalsh_tridiagonal options")
    from .scenario import fresh_array
    symnp.trusted("scipy.linalg.eigvalsh_tridiagonal(d, e): as many real numbers as d has "
                  "elements, in ascending order")
    d, e = asarr(d), asarr(e)
    ctx = cx()
    n = d._shape[0]
    ctx.obligation("off-diagonal has one element less", T.eq(dexpr(e._shape[0]),
                                                             T.sub(dexpr(n), 1)))
    r = fresh_array(ctx, ctx.fresh('eig'), (n,), S.F64)
    ctx.fact(ctx.close([n, n], lambda ix: T.implies(T.lt(S.lin(ix[0]), S.lin(ix[1])),
                                                    T.le(r.v(ix[0]), r.v(ix[1])))))
    return r


def linalg_module():
    m = opaque('scipy.linalg')
    m.eigvalsh_tridiagonal = eigvalsh_tridiagonal
    return m
