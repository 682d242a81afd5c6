"""Scalar term layer.

A scalar is one of
  * int / Fraction / bool          exact constants
  * z3 ArithRef / BoolRef          symbolic reals, integers, booleans
  * Cx(re, im)                     complex number, re and im scalars
  * INF / -INF (python float)      only as an operand of comparisons

Real arithmetic is mathematical (no rounding).  Transcendental functions are
uninterpreted symbols; the facts about them that the provers may use are in
`theory.py`.
"""
from fractions import Fraction
import math
import z3

RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()
INF = float('inf')


class Unsupported(Exception):
    """The code left the subset the verifier understands (undecided)."""


class Cx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return f"Cx({self.re}, {self.im})"


# ---- uninterpreted functions ------------------------------------------------
_FN = {}


def fn(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _FN:
        _FN[key] = z3.Function(name, *sorts)
    return _FN[key]


PI = z3.Real('PI')


def real1(name):
    return fn('m_' + name, RS, RS)


def is_const(a):
    return isinstance(a, (int, Fraction))          # bool included


def lift_const(v):
    """python number -> scalar constant"""
    import numpy as np
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (complex, np.complexfloating)):
        return Cx(lift_const(float(v.real)), lift_const(float(v.imag)))
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if math.isinf(f):
            return f
        if math.isnan(f):
            raise Unsupported("nan constant")
        fr = Fraction(f)
        return fr
    raise Unsupported(f"constant {v!r}")


def z(a):
    """scalar -> z3 expression"""
    if isinstance(a, bool):
        return z3.BoolVal(a)
    if isinstance(a, int):
        return z3.IntVal(a)
    if isinstance(a, Fraction):
        if a.denominator == 1:
            return z3.RealVal(a.numerator)
        return z3.RealVal(f"{a.numerator}/{a.denominator}")
    if isinstance(a, z3.ExprRef):
        return a
    raise Unsupported(f"cannot make a z3 term of {a!r}")


def is_bool(a):
    return isinstance(a, bool) or (isinstance(a, z3.ExprRef) and a.sort() == BS)


def is_intish(a):
    return (isinstance(a, int) and not isinstance(a, bool)) or \
        (isinstance(a, z3.ExprRef) and a.sort() == IS)


def to_num(a):
    """bool -> int"""
    if isinstance(a, bool):
        return int(a)
    if isinstance(a, z3.ExprRef) and a.sort() == BS:
        return z3.If(a, z3.IntVal(1), z3.IntVal(0))
    return a


def to_real(a):
    a = to_num(a)
    if isinstance(a, int):
        return Fraction(a)
    if isinstance(a, z3.ExprRef) and a.sort() == IS:
        if z3.is_int_value(a):
            return Fraction(a.as_long())
        return z3.ToReal(a)
    return a


def to_bool(a):
    if isinstance(a, bool):
        return a
    if isinstance(a, (int, Fraction)):
        return a != 0
    if isinstance(a, Cx):
        return or_(ne(a.re, 0), ne(a.im, 0))
    if a.sort() == BS:
        return a
    return ne(a, 0)


def _pair(a, b):
    a, b = to_num(a), to_num(b)
    if is_const(a) and is_const(b):
        return a, b
    ia, ib = is_intish(a), is_intish(b)
    if ia and ib:
        return z(a), z(b)
    return z(to_real(a)), z(to_real(b))


def add(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(add(a.re, b.re), add(a.im, b.im))
    a, b = to_num(a), to_num(b)
    if is_const(a) and is_const(b):
        return a + b
    if is_const(a) and a == 0 and (is_intish(a) or not is_intish(b)):
        return b
    if is_const(b) and b == 0 and (is_intish(b) or not is_intish(a)):
        return a
    a, b = _pair(a, b)
    return a + b


def sub(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(sub(a.re, b.re), sub(a.im, b.im))
    a, b = to_num(a), to_num(b)
    if is_const(a) and is_const(b):
        return a - b
    if is_const(b) and b == 0 and (is_intish(b) or not is_intish(a)):
        return a
    a, b = _pair(a, b)
    return a - b


def neg(a):
    if isinstance(a, Cx):
        return Cx(neg(a.re), neg(a.im))
    a = to_num(a)
    if is_const(a):
        return -a
    return -a


def mul(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        if not isinstance(a, Cx):
            return Cx(mul(a, b.re), mul(a, b.im))
        if not isinstance(b, Cx):
            return Cx(mul(a.re, b), mul(a.im, b))
        return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)),
                  add(mul(a.re, b.im), mul(a.im, b.re)))
    a, b = to_num(a), to_num(b)
    if is_const(a) and is_const(b):
        return a * b
    for c, o in ((a, b), (b, a)):
        if is_const(c):
            if c == 0:
                return c if is_intish(o) else Fraction(0)
            if c == 1 and (is_intish(c) or not is_intish(o)):
                return o
    a, b = _pair(a, b)
    return a * b


def div(a, b):
    """true division; b == 0 is total but unspecified (tracked by `wd`)"""
    if isinstance(b, Cx):
        a = cx(a)
        d = add(mul(b.re, b.re), mul(b.im, b.im))
        n = mul(a, Cx(b.re, neg(b.im)))
        return Cx(div(n.re, d), div(n.im, d))
    if isinstance(a, Cx):
        return Cx(div(a.re, b), div(a.im, b))
    a, b = to_real(a), to_real(b)
    if is_const(b) and b != 0:
        if is_const(a):
            return Fraction(a) / Fraction(b)
        if b == 1:
            return a
        return mul(a, 1 / Fraction(b))
    if is_const(a) and a == 0 and not is_const(b):
        return Fraction(0)     # 0/b == 0 for b != 0, irrelevant otherwise
    return z(a) / z(b)


def floordiv(a, b):
    a, b = to_num(a), to_num(b)
    if is_const(a) and is_const(b):
        if b == 0:
            return 0
        return a // b
    if is_intish(a) and is_intish(b):
        if is_const(b) and b > 0:
            return z(a) / z(b)
        raise Unsupported("floor division by non-constant")
    raise Unsupported("real floor division")


def mod(a, b):
    a, b = to_num(a), to_num(b)
    if is_const(a) and is_const(b):
        return a % b
    if is_intish(a) and is_intish(b) and is_const(b) and b > 0:
        return z(a) % z(b)
    raise Unsupported("mod")


def ipow(a, k):
    """integer power, k python int"""
    if k == 0:
        return 1 if is_intish(a) else Fraction(1)
    if k < 0:
        return div(1, ipow(a, -k))
    r = a
    for _ in range(k - 1):
        r = mul(r, a)
    return r


def _cmp(op, a, b):
    a, b = to_num(a), to_num(b)
    fa, fb = isinstance(a, float), isinstance(b, float)
    if fa or fb:                                  # comparison with infinity
        if fa and fb:
            return op(a, b)
        return op(a, 0.0) if fa else op(0.0, b)
    if is_const(a) and is_const(b):
        return op(a, b)
    a, b = _pair(a, b)
    if a.eq(b):
        return op(0, 0)
    return op(a, b)


def lt(a, b):
    return _cmp(lambda p, q: p < q, a, b)


def le(a, b):
    return _cmp(lambda p, q: p <= q, a, b)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return and_(eq(a.re, b.re), eq(a.im, b.im))
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return z(a) == z(b)
    return _cmp(lambda p, q: p == q, a, b)


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def implies(a, b):
    return or_(not_(a), b)


def xor(a, b):
    return not_(eq(a, b))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported("conditional infinity")
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else not_(c)
        return z3.If(c, z(a), z(b))
    if is_const(a) and is_const(b) and type(a) is type(b) and a == b:
        return a
    a, b = to_num(a), to_num(b)
    if is_const(a) and is_const(b) and is_intish(a) and is_intish(b):
        return z3.If(c, z(a), z(b))
    a2, b2 = _pair(a, b) if not (is_const(a) and is_const(b)) else \
        (z(to_real(a)), z(to_real(b)))
    if a2.eq(b2):
        return a2
    return z3.If(c, a2, b2)


def abs_(a):
    if isinstance(a, Cx):
        return func('sqrt', add(mul(a.re, a.re), mul(a.im, a.im)))
    a = to_num(a)
    if is_const(a):
        return abs(a)
    return ite(ge(a, 0), a, neg(a))


def sign(a):
    if is_const(a):
        return (a > 0) - (a < 0)
    if is_intish(a):
        return ite(gt(a, 0), 1, ite(lt(a, 0), -1, 0))
    return ite(gt(a, 0), Fraction(1), ite(lt(a, 0), Fraction(-1), Fraction(0)))


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(ge(a, b), a, b)


def cx(a):
    return a if isinstance(a, Cx) else Cx(to_real(a), Fraction(0))


def conj(a):
    return Cx(a.re, neg(a.im)) if isinstance(a, Cx) else a


def re(a):
    return a.re if isinstance(a, Cx) else a


def im(a):
    return a.im if isinstance(a, Cx) else (0 if is_intish(a) else Fraction(0))


def _exact_root(fr):
    n, d = fr.numerator, fr.denominator
    if n < 0:
        return None
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def func(name, a):
    """unary real (or complex exp) function"""
    if isinstance(a, Cx):
        if name == 'exp':
            if is_const(a.re) and a.re == 0:
                return Cx(func('cos', a.im), func('sin', a.im))
            e = func('exp', a.re)
            return Cx(mul(e, func('cos', a.im)), mul(e, func('sin', a.im)))
        raise Unsupported(f"complex {name}")
    a = to_real(a)
    if is_const(a):
        a = Fraction(a)
        if name == 'sqrt':
            r = _exact_root(a)
            if r is not None:
                return r
        if a == 0:
            if name in ('exp', 'cosh', 'cos'):
                return Fraction(1)
            if name in ('sinh', 'sin', 'tanh', 'expm1'):
                return Fraction(0)
        if a == 1 and name in ('log', 'log10', 'log2'):
            return Fraction(0)
    return real1(name)(z(a))


def simp(e):
    if isinstance(e, z3.ExprRef):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    return e
