"""Induction steps of the meta lemmas the engine uses."""
import z3
from engine import terms as T


def monotone_count(cx):
    """C(0) = 0, C(k+1) = C(k) + [p(k)]; p holds on an initial (final) part of the
    range only: C(n) separates the two parts"""
    p = z3.Function('lem_p', T.IS, T.BS)
    C = z3.Function('lem_C', T.IS, T.IS)
    k, i, j = z3.Ints('lem_k lem_i lem_j')
    rec = z3.And(k >= 0, C(k + 1) == C(k) + z3.If(p(k), 1, 0))
    for kind in ('initial', 'final'):
        a, b = (j, i) if kind == 'initial' else (i, j)
        mono = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, p(a)), p(b)),
                         patterns=[z3.MultiPattern(p(i), p(j))])

        def inv(n):
            return z3.And(C(n) >= 0, C(n) <= n, z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < n),
                p(i) == ((i < C(n)) if kind == 'initial' else (i >= n - C(n)))),
                patterns=[p(i)]))
        touch = z3.Or(p(C(k)), z3.Not(p(C(k))), p(k - C(k) - 1), p(k - C(k)), p(k))
        cx.prove(f"count of {kind} part: empty range",
                 z3.Implies(C(0) == 0, inv(z3.IntVal(0))))
        cx.prove(f"count of {kind} part: one more element",
                 z3.Implies(z3.And(rec, mono, inv(k), touch), inv(k + 1)))
