"""Discharging obligations.

Back ends: `ring` (normal form of real/complex expressions and sums, exact) and
`z3` (SMT).  An obligation is `proved`, `refuted` (the solver has a model, or
the normal forms differ at a concrete point) or `unknown`.
"""
from fractions import Fraction
import itertools
import os
import time
import z3

from . import terms as T
from .terms import Unsupported, Cx
from . import theory, ring as R, sums
from .symarr import E, wdb


SCALE = 1          # factor on every solver time limit


class Obl:
    def __init__(self, label, auto, status, backend, secs, detail='', formula=None):
        self.label, self.auto, self.status = label, auto, status
        self.backend, self.secs, self.detail, self.formula = backend, secs, detail, formula


class EqGoal:
    """equality of two scalars (real or complex), possibly under hypotheses"""

    def __init__(self, a, b):
        self.a, self.b = a, b


def has_quant(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


_qcache = {}


def is_quant(e):
    k = e.get_id()
    r = _qcache.get(k)
    if r is None:
        r = (has_quant(e), e)
        _qcache[k] = r
    return r[0]


def mentions_sum(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.decl().name() in sums.REG:
            return True
        st.extend(x.children())
    return False


def ground_apps(fs, decl):
    out, seen = [], set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if decl is not None and z3.is_app(x) and x.decl().eq(decl):
            out.append(x)
        st.extend(x.children())
    return out[:60]


def ground_terms(fs):
    """integer arguments of uninterpreted functions in the formulas"""
    out, ids, seen = [], set(), set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in x.children():
                a = z3.simplify(a)
                if a.sort() == T.IS and a.get_id() not in ids:
                    ids.add(a.get_id())
                    out.append(a)
        st.extend(x.children())
    return out[:30], None


def instances(q, terms):
    """instances of a universally quantified hypothesis at integer terms"""
    if z3.is_quantifier(q) and q.is_forall():
        n = q.num_vars()
        if any(q.var_sort(k) != T.IS for k in range(n)) or len(terms) ** n > 900:
            return []
        out = []
        for ts in itertools.product(terms, repeat=n):
            f = z3.simplify(z3.substitute_vars(q.body(), *reversed(ts)))
            if not z3.is_true(f):
                if is_quant(f):
                    continue
                out.append(f)
        return out
    if z3.is_and(q):
        return [g for c in q.children() for g in (instances(c, terms) if is_quant(c) else [c])]
    return []


def abstract_division(fs):
    """quotients by non-constants become variables constrained by the order
    lemmas of division (weaker than the original)"""
    fs = [z3.simplify(f) for f in fs]
    divs, seen = [], set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_div(x) and not z3.is_rational_value(x.arg(1)):
            divs.append(x)
        st.extend(x.children())
    if not divs or len(divs) > 12:
        return None
    vs = [z3.FreshReal('q') for _ in divs]
    lem = []
    for k, x in enumerate(divs):
        a, b = x.children()
        q = vs[k]
        lem.append(z3.Implies(b > 0, z3.And((a > 0) == (q > 0), (a < 0) == (q < 0),
                                            (a < b) == (q < 1), (a > b) == (q > 1),
                                            (-b < a) == (q > -1), (-b > a) == (q < -1))))
        for j in range(k):
            if divs[j].arg(1).eq(b):
                c = divs[j].arg(0)
                lem.append(z3.Implies(b > 0, z3.And((a < c) == (q < vs[j]),
                                                    (a > c) == (q > vs[j]),
                                                    (a < -c) == (q < -vs[j]),
                                                    (a > -c) == (q > -vs[j]))))
    sub = sorted(zip(divs, vs), key=lambda p: -len(p[0].sexpr()))
    return [z3.substitute(f, *sub) for f in fs + lem]


class Prover:
    def __init__(self, timeout=10000):
        self.timeout = timeout
        self.obls = []
        self.solver_time = 0.0
        self.queries = 0
        self.scenario = ''
        self.cex = []
        self.dump = None
        self.crosscheck = None
        self.deadline = None
        self._fcache = {}

    # ---- z3 -----------------------------------------------------------------
    def _solve(self, fs, timeout, model=False, ax=True):
        t = time.time()
        s = z3.Solver()
        s.set('timeout', int(timeout * SCALE))
        s.set('random_seed', 1)
        fs = [f for f in fs if not z3.is_true(f)]
        s.add(*fs)
        if ax:
            s.add(*theory.axioms(theory.names_in(fs)))
        r = s.check()
        self.queries += 1
        self.solver_time += time.time() - t
        if model:
            return str(r), (s.model() if r == z3.sat else None), s
        return str(r)

    def feasible(self, fs, timeout=3000):
        ground = [f for f in fs if not is_quant(f)]
        key = tuple(sorted(f.get_id() for f in fs))
        c = self._fcache.get(key)
        if c is not None:
            return c[0]
        r = self._solve(ground, min(timeout, 1500), ax=False)
        if r == 'unsat':
            self._fcache[key] = (r, fs)
            return 'unsat'
        r = self._solve(fs, min(timeout, 600))
        self._fcache[key] = (r, fs)
        return r

    def entails(self, hyps, f, timeout=2000):
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        neg = z3.Not(f)
        ground = [h for h in hyps if not is_quant(h)]
        if not is_quant(f):
            if self._solve(ground + [neg], min(timeout, 1500)) == 'unsat':
                return True
            if len(ground) == len(hyps):
                return False
        return self._solve(list(hyps) + [neg], timeout) == 'unsat'

    # ---- obligations ----------------------------------------------------------
    def obligation(self, ctx, label, f, auto=False, timeout=None):
        t = time.time()
        label = f"{self.scenario}: {label}"
        try:
            st, be, det = self.prove(ctx.hyps(), f, ctx, timeout or self.timeout)
        except Unsupported as e:
            st, be, det = 'unknown', 'engine', f"unsupported: {e}"
        except z3.Z3Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
            st, be, det = 'unknown', 'z3', f"z3: {e}"
        except RecursionError:
            st, be, det = 'unknown', 'engine', 'recursion limit'
        o = Obl(label, auto, st, be, time.time() - t, det)
        self.obls.append(o)
        if self.crosscheck is not None and st == 'proved' and be == 'z3':
            self.crosscheck(o, ctx.hyps(), f)
        return st == 'proved'

    def prove(self, hyps, f, ctx, timeout):
        """-> (status, backend, detail)"""
        if isinstance(f, EqGoal):
            return self.prove_eq(hyps, f.a, f.b, ctx, timeout)
        if isinstance(f, bool):
            if f:
                return 'proved', 'trivial', ''
            # false is provable only on an infeasible path
            ground = [h for h in hyps if not is_quant(h)]
            if len(ground) < len(hyps) and self._solve(ground, 3000) == 'unsat':
                return 'proved', 'z3', ''
            r, m, _ = self._solve(list(hyps), timeout, model=True)
            if r == 'unsat':
                return 'proved', 'z3', ''
            return ('refuted' if r == 'sat' else 'unknown'), 'z3', \
                self.model_str(m) if m else f"path not shown infeasible ({r})"
        f0 = f
        k = f.decl().kind() if z3.is_app(f) else None
        if z3.is_and(f):
            bes = set()
            for g in f.children():
                st, be, det = self.prove(hyps, g, ctx, timeout)
                bes.add(be)
                if st != 'proved':
                    return st, be, det
            return 'proved', '+'.join(sorted(b for b in bes if b != 'trivial')) or 'trivial', ''
        if z3.is_quantifier(f) and f.is_forall():
            n = f.num_vars()
            vs = [z3.FreshConst(f.var_sort(i), 'sk') for i in range(n)]
            body = z3.substitute_vars(f.body(), *reversed(vs))
            return self.prove(hyps, body, ctx, timeout)
        if z3.is_implies(f):
            return self.prove(list(hyps) + [f.arg(0)], f.arg(1), ctx, timeout)
        if z3.is_or(f):
            ch = f.children()
            eqs = [c for c in ch if z3.is_eq(c) and c.arg(0).sort() == T.RS]
            q = [c for c in ch if z3.is_quantifier(c) and c.is_forall()]
            if len(eqs) + len(q) == 1:
                g = (eqs + q)[0]
                rest = [z3.Not(c) for c in ch if not c.eq(g)]
                return self.prove(list(hyps) + rest, g, ctx, timeout)
        if z3.is_eq(f) and f.arg(0).sort() == T.RS:
            return self.prove_eq(hyps, f.arg(0), f.arg(1), ctx, timeout)
        return self.prove_z3(hyps, f, timeout)

    def prove_z3(self, hyps, f, timeout):
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f):
            return 'proved', 'trivial', ''
        neg = z3.Not(f)
        ground = [h for h in hyps if not is_quant(h)]
        r = None
        if not is_quant(f) and len(ground) < len(hyps):
            r = self._solve(ground + [neg], min(2000, timeout))
            if r == 'unsat':
                return 'proved', 'z3', ''
        r, m, s = self._solve(list(hyps) + [neg], timeout, model=True)
        if r == 'unsat':
            return 'proved', 'z3', ''
        if r == 'sat':
            if mentions_sum(f):
                # sums are opaque to the solver
                return 'unknown', 'z3', 'countermodel modulo sums: ' + self.model_str(m)
            return 'refuted', 'z3', self.model_str(m)
        if self._instantiated(hyps, neg, timeout) == 'unsat':
            return 'proved', 'z3', ''
        return 'unknown', 'z3', s.reason_unknown()

    def _instantiated(self, hyps, neg, timeout):
        """quantifiers replaced by their instances at the terms of the goal
        (weaker hypotheses, so `unsat` is conclusive)"""
        fs = [h for h in hyps if not is_quant(h)] + [neg]
        qs = [h for h in hyps if is_quant(h)]
        for rnd in range(2):
            terms, reals = ground_terms(fs)
            new = []
            for q in qs:
                new += instances(q, terms)
            have = {f.get_id() for f in fs}
            new = [n for n in new if n.get_id() not in have]
            fs += new
            if not new:
                break
        for ax in theory.axioms(theory.names_in(fs)):
            if not z3.is_quantifier(ax):
                fs.append(ax)
                continue
            pats = [ax.pattern(k) for k in range(ax.num_patterns())]
            d = pats[0].children()[0].decl() if pats else None
            for t in ground_apps(fs, d):
                fs.append(z3.substitute_vars(ax.body(), *reversed(t.children())))
        lin = abstract_division(fs)
        if lin is not None and self._solve(lin, timeout, ax=False) == 'unsat':
            return 'unsat'
        return self._solve(fs, timeout, ax=False)

    def model_str(self, m):
        try:
            return '; '.join(f"{d.name()}={m[d]}" for d in m.decls()
                             if d.arity() == 0 and not d.name().startswith('Sum#'))[:1500]
        except Exception as e:        # noqa
            return str(e)

    # ---- equations ---------------------------------------------------------------
    def prove_eq(self, hyps, a, b, ctx, timeout, depth=0):
        hyps = list(hyps)
        parts = []
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = T.cx(a), T.cx(b)
            parts = [(a.re, b.re), (a.im, b.im)]
        else:
            parts = [(a, b)]
        parts = [(T.to_real(x), T.to_real(y)) for x, y in parts]
        if all(not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef) and x == y
               for x, y in parts):
            return 'proved', 'trivial', ''
        parts = [(T.z(x), T.z(y)) for x, y in parts]
        ground = [h for h in hyps if not is_quant(h)]
        if self._solve(ground + [z3.Or(*[x != y for x, y in parts])], 400) == 'unsat':
            return 'proved', 'z3', ''
        rw = list(getattr(ctx, 'rewrites', ()))
        if rw:
            parts = [tuple(z3.substitute(e, *rw) for e in p) for p in parts]
        return self._eq_rec(hyps, parts, ctx, timeout, 0, subst=rw)

    def _unify(self, hyps, parts, consts):
        """replace integer terms provably equal to a given constant by it"""
        cand, seen = [], set()
        st = [e for p in parts for e in p]
        cids = {c.get_id() for c in consts}
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if x.sort() == T.IS and z3.is_app(x) and x.get_id() not in cids and \
                    x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                    not x.decl().name().startswith('Sum#'):
                cand.append(x)
            if z3.is_app(x) and x.decl().name() in sums.REG:
                dims, body = sums.instantiate(sums.REG[x.decl().name()], x.children())
                st += list(dims) + [body]
            st.extend(x.children())
        bv = {b.get_id() for b in sums.BV}
        cand = [t for t in cand if not R.mentions(t, bv)]
        sub = []
        for t in cand:
            for c, o in [(c, o) for o in (0, 1, 2, -1) for c in consts]:
                if self.entails(hyps, t == c + o, 1500):
                    sub.append((t, c + o if o else c))
                    break
        return sub

    def _eq_rec(self, hyps, parts, ctx, timeout, depth, decided=None, subst=()):
        decided = decided or {}
        if all(x.eq(y) for x, y in parts):
            return 'proved', 'trivial', ''
        if depth > 24:
            return 'unknown', 'ring', 'too many case splits'
        rg = R.Ring(entails=lambda f: self.entails(hyps, f, 1000),
                    rules=getattr(ctx, 'rules', ()), decided=decided, subst=subst)
        rg.int_facts = getattr(ctx, 'int_facts', {})
        why = ''
        try:
            p = {}
            for n, (x, y) in enumerate(parts):
                d = R.padd(rg.conv(x), rg.conv(y), -R.F1)
                if n == 1:
                    d = rg.pmul(d, R.patom(('I',)))
                p = R.padd(p, d)
            zero = rg.is_zero(p)
        except R.NeedSplit as ns:
            c = ns.cond
            return self._split(hyps, parts, c, ctx, timeout, depth, decided, subst)
        except Unsupported as e:
            zero = None
            why = str(e)
        if zero:
            for s in rg.side:
                s2 = z3.simplify(s)
                if z3.is_true(s2):
                    continue
                if not self.entails(hyps, s, 4000) and not self._sum_positive(hyps, s):
                    return 'unknown', 'ring', f"side condition not shown: {s}"[:400]
            return 'proved', 'ring', ''
        uni = getattr(ctx, 'unify', ())
        if uni and not zero:
            sub = [q for q in self._unify(hyps, parts, uni)
                   if not any(q[0].eq(t) for t, _ in subst)]
            if sub:
                p2 = [tuple(z3.simplify(z3.substitute(e, *sub)) for e in p_) for p_ in parts]
                return self._eq_rec(hyps, p2, ctx, timeout, depth + 1, decided,
                                    list(subst) + sub)
        # SMT fallback
        goal = z3.And(*[x == y for x, y in parts])
        st, be, det = self.prove_z3(hyps, goal, min(timeout, 6000))
        if st == 'proved':
            return st, be, det
        if zero is False:
            return ('refuted' if st == 'refuted' else 'unknown'), 'ring', \
                ('normal forms differ: ' + self.show(p))[:1500]
        return ('unknown', 'ring', why)

    def _sum_positive(self, hyps, s):
        """Sum != 0, because it is not empty and its terms are positive"""
        if z3.is_not(s) and z3.is_eq(s.arg(0)):
            s = s.arg(0)
        elif z3.is_distinct(s):
            pass
        else:
            return False
        a, b = s.children()
        if z3.is_rational_value(a):
            a, b = b, a
        if not (z3.is_rational_value(b) and b.as_fraction() == 0 and z3.is_app(a)
                and a.decl().name() in sums.REG):
            return False
        dims, body = sums.instantiate(sums.REG[a.decl().name()], a.children())
        vs = sums.BV[:len(dims)]
        fr = [z3.FreshInt('sp') for _ in vs]
        sub = list(zip(vs, fr))
        hs = list(hyps)
        for v, d in zip(fr, dims):
            if not self.entails(hyps, T.z(d) >= 1, 1500):
                return False
            hs += [v >= 0, v < z3.substitute(T.z(d), *sub)]
        body = z3.substitute(body, *sub)
        return self.prove_z3(hs, body > 0, 4000)[0] == 'proved'

    def show(self, p):
        return R.show_poly(p)

    def refute_numeric(self, hyps, parts):
        return None

    def _split(self, hyps, parts, c, ctx, timeout, depth, decided, subst):
        t, f = z3.BoolVal(True), z3.BoolVal(False)
        bes = set()
        for val, h in ((t, c), (f, z3.Not(c))):
            hh = hyps + [h]
            if self.entails(hyps, z3.Not(h), 1200):
                continue                 # case impossible
            np_ = []
            extra = []
            if z3.is_true(val) and z3.is_eq(c) and c.arg(0).sort() == T.IS:
                # use the equation
                a, b = c.arg(0), c.arg(1)
                if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    extra = [(a, b)]
                elif z3.is_const(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    extra = [(b, a)]
            for x, y in parts:
                x = z3.simplify(z3.substitute(x, (c, val)))
                y = z3.simplify(z3.substitute(y, (c, val)))
                if extra:
                    x, y = z3.substitute(x, *extra), z3.substitute(y, *extra)
                np_.append((x, y))
            dec = dict(decided)
            dec[c.get_id()] = (z3.is_true(val), c)
            st, be, det = self._eq_rec(hh, np_, ctx, timeout, depth + 1, dec,
                                       list(subst) + extra)
            bes |= set(be.split('+'))
            if st != 'proved':
                return st, be, f"[case {h}] "[:200] + det
        return 'proved', '+'.join(sorted(b for b in bes if b != 'trivial')) or 'ring', ''
