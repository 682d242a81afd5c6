"""Axioms about the uninterpreted real functions, given to the SMT solver.

Every axiom is a textbook fact about the mathematical function.
"""
from fractions import Fraction
import z3
from . import terms as T

X, Y = z3.Real('ax_x'), z3.Real('ax_y')


def _u(body, *pats):
    return z3.ForAll([X], body, patterns=list(pats))


def axioms(names):
    f = lambda n: T.real1(n)
    out = []
    if 'PI' in names:
        out.append(z3.And(T.PI > z3.RealVal('3.14159265'), T.PI < z3.RealVal('3.14159266')))
    if 'm_exp' in names:
        e = f('exp')
        out += [_u(z3.And(e(X) > 0, e(X) >= 1 + X, z3.Implies(X <= 0, e(X) <= 1),
                          z3.Implies(X > 0, e(X) > 1), z3.Implies(X < 0, e(X) < 1)), e(X)),
                e(0) == 1]
    if 'm_expm1' in names:
        e = f('expm1')
        out += [_u(z3.And(e(X) > -1, e(X) >= X, z3.Implies(X > 0, e(X) > 0),
                          z3.Implies(X < 0, e(X) < 0), z3.Implies(X == 0, e(X) == 0)), e(X))]
    if 'm_cosh' in names:
        c = f('cosh')
        out += [_u(c(X) >= 1, c(X))]
    if 'm_sinh' in names:
        s = f('sinh')
        out += [_u(z3.And(z3.Implies(X > 0, s(X) > 0), z3.Implies(X < 0, s(X) < 0),
                          z3.Implies(X == 0, s(X) == 0)), s(X))]
    if 'm_tanh' in names:
        s = f('tanh')
        out += [_u(z3.And(z3.Implies(X > 0, s(X) > 0), z3.Implies(X < 0, s(X) < 0),
                          z3.Implies(X == 0, s(X) == 0), s(X) < 1, s(X) > -1), s(X))]
    if 'm_sqrt' in names:
        s = f('sqrt')
        out += [_u(z3.Implies(X >= 0, z3.And(s(X) >= 0, s(X) * s(X) == X)), s(X)),
                _u(z3.Implies(X > 0, s(X) > 0), s(X))]
    if 'm_log' in names:
        s = f('log')
        out += [_u(z3.Implies(z3.And(X > 0, X <= 400), s(X) <= 6), s(X)),
                _u(z3.Implies(X > 0, s(X) <= X - 1), s(X))]
    for n in ('m_log', 'm_log10', 'm_log2'):
        if n in names:
            s = f(n[2:])
            out += [_u(z3.And(z3.Implies(X >= 1, s(X) >= 0),
                              z3.Implies(z3.And(0 < X, X < 1), s(X) < 0),
                              z3.Implies(X > 1, s(X) > 0)), s(X))]
    if 'm_round' in names:
        s = f('round')
        out += [_u(z3.And(s(X) - X <= z3.RealVal('1/2'), X - s(X) <= z3.RealVal('1/2'),
                          z3.IsInt(s(X))), s(X))]
    if 'm_cos' in names and 'm_sin' in names:
        c, s = f('cos'), f('sin')
        out += [_u(c(X) * c(X) + s(X) * s(X) == 1, c(X)),
                _u(c(X) * c(X) + s(X) * s(X) == 1, s(X))]
    if 'm_pow' in names:
        p = T.fn('m_pow', T.RS, T.RS, T.RS)
        out += [z3.ForAll([X, Y], z3.Implies(X > 0, p(X, Y) > 0), patterns=[p(X, Y)])]
    return out


def names_in(exprs):
    seen, names = set(), set()
    st = list(exprs)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names.add(x.decl().name())
        st.extend(x.children())
    return names
