"""Normaliser for real/complex expressions.

Terms are brought to a normal form: a sum of monomials over atoms with
rational coefficients.  Atoms are variables, applications of uninterpreted
functions, the imaginary unit I, roots of primes, exp(m), cis(m) (for monomials
m), sqrt(P), 1/P, and indicator atoms.  Sums over symbolic ranges are expanded:
a monomial carries its bound indices, which are canonically renamed.

An equation a == b holds if a - b normalises to the empty sum.  Divisions and
square roots record side conditions (non-zero denominators, non-negative
radicands), which the caller must discharge.
"""
from fractions import Fraction
import itertools
import z3

from . import terms as T
from .terms import Unsupported
from . import sums

F0, F1 = Fraction(0), Fraction(1)


class NeedSplit(Exception):
    """the expression contains a conditional; split on it"""

    def __init__(self, cond):
        self.cond = cond


class Blowup(Unsupported):
    pass


# mono: (bounds, factors); bounds: tuple of dim poly-keys; factors: tuple of
# (atom, exp) sorted.  atom: nested tuple.  ('b', k): bound variable k.
ONE = ((), ())
_rep = {}


def rep(x):
    r = _rep.get(x)
    if r is None:
        r = repr(x)
        if len(_rep) > 400000:
            _rep.clear()
        _rep[x] = r
    return r


def pkey(p):
    """polynomial as an immutable key; sums inside are sealed (see `seal`)"""
    return tuple(sorted(((seal(m), c) for m, c in p.items()), key=lambda kv: rep(kv)))


def height(x):
    """largest seal level inside a nested tuple"""
    h = 0
    for y in x:
        if isinstance(y, tuple):
            if len(y) == 3 and y[0] == 'C':
                h = max(h, y[1])
            else:
                h = max(h, height(y))
    return h


def seal(m):
    """Monomial to be nested inside an atom: its own bound indices ('B', j)
    become ('C', level, j), so that renaming the enclosing monomial's indices
    cannot touch them."""
    bs, fs = m
    if not bs:
        return m
    h = 1 + max(height(fs), height(bs))
    mp = {j: ('C', h, j) for j in range(len(bs))}
    f = lambda q: mp.get(q[1], q) if q[0] == 'B' else q
    own = set()
    for a, e in fs:
        atom_bounds(a, own)
    if any(j >= len(bs) for j in own):
        raise Unsupported("open sum inside an atom")
    return (tuple(_walk_key(b, lambda a: _map_atom(a, f)) for b in bs),
            tuple(sorted(((_map_atom(a, f), e) for a, e in fs), key=rep)))


def unseal(key):
    """polynomial of a key"""
    p = {}
    for (bs, fs), c in key:
        if bs:
            for a, e in fs:
                if atom_bounds(a, set()):
                    raise Unsupported("sum inside an atom depends on an outer index")
            h = max(height(fs), height(bs))
            f = lambda q: ('B', q[2]) if q[0] == 'C' and q[1] == h else q
            bs = tuple(_walk_key(b, lambda a: _map_atom(a, f)) for b in bs)
            fs = tuple(sorted(((_map_atom(a, f), e) for a, e in fs), key=rep))
        p[(bs, fs)] = p.get((bs, fs), F0) + c
    return p


def pconst(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def patom(a, e=F1):
    return {((), ((a, Fraction(e)),)): F1}


def padd(p, q, c=F1):
    if not q:
        return p
    r = dict(p)
    for m, v in q.items():
        n = r.get(m, F0) + c * v
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    c = Fraction(c)
    return {m: v * c for m, v in p.items()} if c else {}


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def cval(p):
    return p.get(ONE, F0)


MAXTERMS = 6000
CONJ = set()        # complex arrays whose elements are kept as z, conj z


class Ring:
    def __init__(self, ctx=None, entails=None, rules=(), decided=None, subst=()):
        self.entails = entails or (lambda f: False)
        self.subst = list(subst)
        self.rules = list(rules)
        self.decided = decided if decided is not None else {}
        self.cache = {}
        self.side = []            # side conditions (z3)
        self.z3of = {}            # atom / polykey -> z3 expr (for side conditions)
        self.keep = []
        self.nonneg_cache = {}
        self.depth = 0
        self.boundctx = []
        self.guards = []
        self.int_facts = {}
        self.intatoms = set()

    # ---- products -----------------------------------------------------------
    def mmul(self, m1, m2):
        b1, f1 = m1
        b2, f2 = m2
        if b2 and b1:
            f2 = tuple((shift_atom(a, len(b1)), e) for a, e in f2)
            b2 = tuple(shift_key(d, len(b1)) for d in b2)
        d = dict(f1)
        for a, e in f2:
            n = d.get(a, F0) + e
            if n:
                d[a] = n
            else:
                d.pop(a, None)
        return b1 + b2, d

    def pmul(self, p, q):
        r = {}
        if len(p) * len(q) > MAXTERMS * 4:
            raise Blowup("ring blow-up")
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                bs, d = self.mmul(m1, m2)
                for m, c in self.mono_norm(bs, d, c1 * c2).items():
                    n = r.get(m, F0) + c
                    if n:
                        r[m] = n
                    else:
                        r.pop(m, None)
        if len(r) > MAXTERMS:
            raise Blowup("ring blow-up")
        return r

    def ppow(self, p, k):
        if k < 0:
            return self.ppow(self.pinv(p), -k)
        r = pconst(1)
        for _ in range(k):
            r = self.pmul(r, p)
        return r

    def mono_norm(self, bs, d, c):
        """normalise one monomial (dict atom -> exp) to a polynomial"""
        extra = []                   # polynomials still to be multiplied
        changed = False
        for a in list(d):
            e = d[a]
            k = a[0]
            if k == 'I':
                n = int(e) % 4
                del d[a]
                if n in (2, 3):
                    c = -c
                if n in (1, 3):
                    d[a] = F1
            elif k == 'ind':
                if e != 1:
                    d[a] = F1 if e > 0 else e
            elif k == 'cis':
                # pi times an integer: full turns drop out
                if not 0 <= e < 2 and self.int_turns(a[1][0]):
                    e = e % 2
                    if e:
                        d[a] = e
                    else:
                        del d[a]
            elif k == 'prime':
                n = e.numerator // e.denominator
                if n:
                    c *= Fraction(a[1]) ** n
                    e -= n
                    if e:
                        d[a] = e
                    else:
                        del d[a]
            elif k == 'sqrt':
                n = (e.numerator // e.denominator) // 2 if e.denominator == 1 else 0
                if e.denominator == 1 and (e >= 2 or e < 0):
                    n = (int(e) - (int(e) % 2)) // 2
                    e -= 2 * n
                    if e:
                        d[a] = e
                    else:
                        del d[a]
                    P = unseal(a[1])
                    extra.append(self.ppow(P, n) if n > 0 else
                                 self.ppow(self.pinv(P), -n))
            elif k == 'inv' and e < 0:
                del d[a]
                extra.append(self.ppow(unseal(a[1]), int(-e)))
        m = self.canon(bs, d)
        p = {}
        if m is not None:
            bs2, f2, cc = m
            p = {(bs2, f2): c * cc} if c * cc else {}
        for q in extra:
            p = self.pmul(p, q)
        if p and (bs or self.rules):
            p = self.apply_rules(p)
        return p

    def int_turns(self, m):
        """monomial pi * (integer valued)"""
        if m[0]:
            return False
        fs = dict(m[1])
        if fs.pop(('v', 'PI'), None) != 1:
            return False
        return all((a[0] in ('b', 'B', 'C') or a in self.intatoms) and e > 0 and
                   e.denominator == 1 for a, e in fs.items())

    def apply_rules(self, p):
        """contraction rules on monomials with bound indices"""
        for _ in range(50):
            done = True
            for m, c in list(p.items()):
                for r in [ind_rule] + self.rules:
                    q = r(self, m)
                    if q is not None:
                        p = dict(p)
                        del p[m]
                        p = padd(p, q, c)
                        done = False
                        break
                if not done:
                    break
            if done:
                return p
        raise Blowup("rules do not terminate")

    def canon(self, bs, d):
        """canonical renaming of bound indices; None if zero"""
        fs = list(d.items())
        if not bs:
            return (), tuple(sorted(fs, key=rep)), F1
        # pull out factors that do not involve a bound index is implicit: the
        # monomial stays flat.  A bound index that occurs nowhere contributes
        # its dimension.
        n = len(bs)
        used = set()
        for a, e in fs:
            atom_bounds(a, used)
        for b in bs:
            key_bounds(b, used)
        unused = [k for k in range(n) if k not in used]
        if unused:
            keep = [k for k in range(n) if k in used]
            mp = {k: i for i, k in enumerate(keep)}
            rest = {}
            for a, e in fs:
                rest[ren_atom(a, mp)] = e
            nb = tuple(ren_key(bs[k], mp) for k in keep)
            p = self.mono_norm(nb, rest, F1)
            for k in unused:
                p = self.pmul(p, unseal(bs[k]))
            # a polynomial; encode through exception-free path
            if len(p) == 1:
                (m, c), = p.items()
                return m[0], m[1], c
            if not p:
                return None
            raise Blowup("sum over a composite dimension")
        # signature-based refinement, then permutations within classes
        sig = []
        for k in range(n):
            s = []
            for a, e in fs:
                if k in atom_bounds(a, set()):
                    s.append((rep(mask_atom(a, k)), str(e)))
            sig.append((rep(ren_key(bs[k], _STAR)), tuple(sorted(s))))
        order = sorted(range(n), key=lambda k: rep(sig[k]))
        groups = [list(g) for _, g in itertools.groupby(order, key=lambda k: sig[k])]
        tot = 1
        for g in groups:
            for q in range(2, len(g) + 1):
                tot *= q
        if tot > 720:
            raise Blowup("too many bound indices")
        best = None
        for perms in itertools.product(*[itertools.permutations(g) for g in groups]):
            seq = [k for g in perms for k in g]
            mp = {k: i for i, k in enumerate(seq)}
            nf = tuple(sorted(((ren_atom(a, mp), e) for a, e in fs), key=rep))
            nb = tuple(ren_key(bs[k], mp) for k in seq)
            cand = (nb, nf)
            kk = rep(cand)
            if best is None or kk < best[0]:
                best = (kk, cand)
        return best[1][0], best[1][1], F1

    # ---- inverse, roots, exponentials ---------------------------------------------
    def pinv(self, p):
        if not p:
            raise Unsupported("division by zero")
        if len(p) == 1:
            (m, c), = p.items()
            if not m[0] and not any(a[0] == 'ind' for a, e in m[1]):
                d = {a: -e for a, e in m[1]}
                return self.mono_norm((), d, 1 / c)
        # normalise: leading coefficient 1, common monomial factored out
        common = self.common(p)
        if common:
            inv = {a: -e for a, e in common.items()}
            q = {}
            for m, c in p.items():
                d = dict(m[1])
                for a, e in common.items():
                    n = d.get(a, F0) - e
                    if n:
                        d[a] = n
                    else:
                        d.pop(a, None)
                q = padd(q, self.mono_norm(m[0], d, c))
            return self.pmul(self.mono_norm((), inv, F1), self.pinv(q))
        k = pkey(p)
        lead = k[0][1]
        q = pscale(p, 1 / lead)
        return pscale(patom(('inv', pkey(q))), 1 / lead)

    def common(self, p):
        """common monomial factor (lowest exponents) of a polynomial"""
        it = iter(p)
        first = dict(next(it)[1])
        cand = {a: e for a, e in first.items() if a[0] not in ('I', 'ind', 'sqrt', 'prime', 'inv')}
        allm = [dict(m[1]) for m in p]
        atoms = set()
        for d in allm:
            atoms |= {a for a in d if a[0] not in ('I', 'ind', 'sqrt', 'prime', 'inv')}
        out = {}
        for a in atoms:
            if atom_bounds(a, set()):
                continue
            e = min(d.get(a, F0) for d in allm)
            if e:
                out[a] = e
        return out

    def psqrt(self, p, zexpr=None):
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            if not m[0] and c > 0:
                ok = True
                for a, e in m[1]:
                    if a[0] in ('I', 'ind'):
                        ok = False
                    elif a[0] in ('exp', 'prime', 'sqrt'):
                        pass
                    elif not self.atom_nonneg(a):
                        ok = False
                if ok:
                    r = self.const_sqrt(c)
                    d = {}
                    for a, e in m[1]:
                        d[a] = e / 2
                    if all(not (a[0] == 'sqrt' and e.denominator != 1) for a, e in d.items()):
                        return self.pmul(r, self.mono_norm((), d, F1))
        # content
        k = pkey(p)
        lead = k[0][1]
        q, s = p, pconst(1)
        if len(p) > 1 or not self.sign_only(p):
            com = {a: e for a, e in self.common(p).items() if self.atom_nonneg(a)} \
                if len(p) > 1 else {}
            if com:
                q = {}
                for m, c in p.items():
                    d = dict(m[1])
                    for a, e in com.items():
                        n = d.get(a, F0) - e
                        if n:
                            d[a] = n
                        else:
                            d.pop(a, None)
                    q = padd(q, self.mono_norm(m[0], d, c))
                s = self.mono_norm((), {a: e / 2 for a, e in com.items()}, F1)
        k = pkey(q)
        lead = abs(k[0][1])
        q = pscale(q, 1 / lead)
        return self.pmul(self.pmul(s, self.const_sqrt(lead)), patom(('sqrt', pkey(q))))

    def sign_only(self, p):
        return False

    def const_sqrt(self, c):
        d = {}
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for pr, e in factorint(n).items():
                d[('prime', pr)] = d.get(('prime', pr), F0) + Fraction(s * e, 2)
        return self.mono_norm((), d, F1)

    def note(self, a, e):
        if a not in self.z3of or self.boundctx and open_bounds(a):
            self.z3of[a] = z3.ToReal(e) if e.sort() == T.IS else e

    def atom_nonneg(self, a):
        if a[0] == 'exp':
            return True
        if a[0] == 'v' and a[1] == 'PI':
            return True
        r = self.nonneg_cache.get(a)
        if r is None:
            ze = self.z3of.get(a)
            r = False
            if ze is not None and self.boundctx and open_bounds(a):
                return bool(self.entails(z3.Implies(
                    z3.And(*[c for _, c in self.boundctx]), ze >= 0)))
            if ze is not None:
                r = bool(self.entails(ze >= 0))
            self.nonneg_cache[a] = r
        return r

    def pexp(self, p, kind):
        """exp(p) or cis(p)"""
        d = {}
        for m, c in p.items():
            if kind == 'cis' and m == ONE and False:
                continue
            d[(kind, (seal(m),))] = c
        return self.mono_norm((), d, F1)

    # ---- conversion from z3 ---------------------------------------------------------
    def conv(self, e, bound=None):
        """z3 expression -> polynomial; bound: dict z3 const id -> bound number"""
        if not isinstance(e, z3.ExprRef):
            return pconst(T.to_num(e))
        if bound is None:
            key = e.get_id()
            r = self.cache.get(key)
            if r is None:
                r = self._conv(e, None)
                self.cache[key] = r
                self.keep.append(e)
            return r
        return self._conv(e, bound)

    def _conv(self, e, bound):
        k = e.decl().kind()
        ch = e.children()
        if z3.is_int_value(e):
            return pconst(e.as_long())
        if z3.is_rational_value(e):
            return pconst(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if k == z3.Z3_OP_TO_REAL:
            return self.conv(ch[0], bound)
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = padd(r, self.conv(c, bound))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.conv(ch[0], bound)
            for c in ch[1:]:
                r = padd(r, self.conv(c, bound), F1 * -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return pscale(self.conv(ch[0], bound), -1)
        if k == z3.Z3_OP_MUL:
            ps = sorted((self.conv(c, bound) for c in ch), key=len)
            r = ps[0]
            for q in ps[1:]:
                r = self.pmul(r, q)
            return r
        if k == z3.Z3_OP_DIV:
            a, b = self.conv(ch[0], bound), self.conv(ch[1], bound)
            if is_const(b) and cval(b) == 0:
                raise Unsupported("division by literal zero")
            if not is_const(b):
                self.add_side(ch[1] != 0, bound)
            return self.pmul(a, self.pinv(b))
        if k == z3.Z3_OP_POWER:
            if z3.is_int_value(ch[1]) or z3.is_rational_value(ch[1]):
                n = Fraction(str(ch[1]))
                if n.denominator == 1:
                    return self.ppow(self.conv(ch[0], bound), int(n))
            raise Unsupported("power")
        if k == z3.Z3_OP_ITE:
            if z3.is_true(ch[0]):
                return self.conv(ch[1], bound)
            if z3.is_false(ch[0]):
                return self.conv(ch[2], bound)
            if bound is None or not mentions(ch[0], bound):
                c = z3.simplify(ch[0])
                if z3.is_true(c):
                    return self.conv(ch[1], bound)
                if z3.is_false(c):
                    return self.conv(ch[2], bound)
                neg = z3.is_not(c)
                if neg:
                    c = c.arg(0)
                d = self.decided.get(c.get_id())
                if d is not None:
                    return self.conv(ch[1] if d[0] != neg else ch[2], bound)
                raise NeedSplit(c)
            # constant under the bound indices?
            if not mentions(ch[0], bound):
                raise NeedSplit(ch[0])
            i = self.ind(ch[0], bound)
            # what a branch needs is needed where it is selected: elsewhere it is
            # multiplied by an indicator which is zero
            self.guards.append(ch[0])
            a = self.conv(ch[1], bound)
            self.guards[-1] = z3.Not(ch[0])
            b = self.conv(ch[2], bound)
            self.guards.pop()
            return padd(self.pmul(i, padd(a, b, -F1)), b)
        if k == z3.Z3_OP_UNINTERPRETED:
            name = e.decl().name()
            if not ch:
                if bound is not None and e.get_id() in bound:
                    return patom(('b', bound[e.get_id()]))
                a = ('v', name)
                if name in sums.REG:
                    return self.sum(sums.REG[name], [], bound)
                if e.sort() == T.IS:
                    self.intatoms.add(a)
                self.note(a, e)
                return patom(a)
            if name.startswith('m_') and len(ch) == 1:
                f = name[2:]
                if f in ('exp', 'sinh', 'cosh', 'tanh', 'expm1', 'cos', 'sin', 'sqrt'):
                    p = self.conv(ch[0], bound)
                    return self.elementary(f, p, ch[0], bound)
            if name in sums.REG:
                return self.sum(sums.REG[name], ch, bound)
            if name in ('ipow_re', 'ipow_im'):
                p = pscale(self.conv(ch[0], bound), Fraction(1, 2))
                p = self.pmul(p, patom(('v', 'PI')))
                return self.elementary('cos' if name == 'ipow_re' else 'sin', p, None, bound)
            args = tuple(pkey(self.conv(c, bound)) for c in ch)
            if name[-3:] in (':re', ':im') and name[:-3] in CONJ:
                # element and conjugate as independent atoms
                z, zc = patom(('f', name[:-3], args)), patom(('f', name[:-3] + '~', args))
                if name.endswith(':re'):
                    return pscale(padd(z, zc), Fraction(1, 2))
                return self.pmul(patom(('I',)), pscale(padd(zc, z, -F1), Fraction(1, 2)))
            a = ('f', name, args)
            if e.sort() == T.IS:
                self.intatoms.add(a)
            self.note(a, e)
            return patom(a)
        if k in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV, z3.Z3_OP_TO_INT):
            args = tuple(pkey(self.conv(c, bound)) for c in ch)
            a = ('f', {z3.Z3_OP_MOD: 'mod', z3.Z3_OP_IDIV: 'idiv',
                       z3.Z3_OP_TO_INT: 'floor'}[k], args)
            self.note(a, e)
            return patom(a)
        raise Unsupported(f"ring: {e.decl()}")

    def add_side(self, c, bound):
        if bound is None:
            self.side.append(c)
        else:
            bs = [b for b in self.boundctx]
            self.side.append(z3.ForAll([b for b, r in bs], z3.Implies(
                z3.And(*[r for b, r in bs], *self.guards), c)))

    def elementary(self, f, p, ze, bound):
        if f == 'exp':
            return self.pexp(p, 'exp')
        if f == 'expm1':
            return padd(self.pexp(p, 'exp'), pconst(1), -F1)
        if f in ('sinh', 'cosh'):
            a, b = self.pexp(p, 'exp'), self.pexp(pscale(p, -1), 'exp')
            return pscale(padd(a, b, F1 if f == 'cosh' else -F1), Fraction(1, 2))
        if f == 'tanh':
            a, b = self.pexp(p, 'exp'), self.pexp(pscale(p, -1), 'exp')
            return self.pmul(padd(a, b, -F1), self.pinv(padd(a, b)))
        if f in ('cos', 'sin'):
            a, b = self.cis(p), self.cis(pscale(p, -1))
            if f == 'cos':
                return pscale(padd(a, b), Fraction(1, 2))
            return self.pmul(pscale(padd(a, b, -F1), Fraction(-1, 2)), patom(('I',)))
        if f == 'sqrt':
            if bound is not None or ze is None:
                return self.psqrt(p)
            if not is_const(p):
                self.add_side(ze >= 0, bound)
            return self.psqrt(p)
        raise Unsupported(f)

    def cis(self, p):
        """exp(i p): multiples of pi/2 are powers of i; int multiples by parity"""
        d = {}
        r = pconst(1)
        for m, c in p.items():
            if m == ((), ((('v', 'PI'), F1),)):
                q = c * 2                     # exp(i pi/2 q)
                if q.denominator == 1:
                    r = self.pmul(r, self.mono_norm((), {('I',): q}, F1))
                    continue
                n = q.numerator // q.denominator
                r = self.pmul(r, self.mono_norm((), {('I',): Fraction(n)}, F1))
                c = (q - n) / 2
            elif m in self.int_facts or self.int_turns(seal(m)):
                # PI * integer-valued monomial: full turns drop out
                c = c % 2
                if not c:
                    continue
            d[('cis', (seal(m),))] = c
        return self.pmul(r, self.mono_norm((), d, F1))

    def ind(self, c, bound):
        """indicator polynomial of a Boolean term"""
        k = c.decl().kind()
        ch = c.children()
        if z3.is_true(c):
            return pconst(1)
        if z3.is_false(c):
            return {}
        if k == z3.Z3_OP_NOT:
            return padd(pconst(1), self.ind(ch[0], bound), -F1)
        if k == z3.Z3_OP_AND:
            r = pconst(1)
            for x in ch:
                r = self.pmul(r, self.ind(x, bound))
            return r
        if k == z3.Z3_OP_OR:
            r = pconst(1)
            for x in ch:
                r = self.pmul(r, padd(pconst(1), self.ind(x, bound), -F1))
            return padd(pconst(1), r, -F1)
        if k == z3.Z3_OP_IMPLIES:
            a, b = self.ind(ch[0], bound), self.ind(ch[1], bound)
            return padd(pconst(1), self.pmul(a, padd(pconst(1), b, -F1)), -F1)
        if k == z3.Z3_OP_EQ and ch[0].sort() != T.BS:
            p = padd(self.conv(ch[0], bound), self.conv(ch[1], bound), -F1)
            if is_const(p):
                return pconst(1 if cval(p) == 0 else 0)
            kk = pkey(p)
            p = pscale(p, 1 / kk[0][1])
            return patom(('ind', 'eq', pkey(p)))
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            a, b = ch
            neg = False
            if k in (z3.Z3_OP_LT, z3.Z3_OP_GT):     # a<b == not b<=a
                a, b = b, a
                neg = True
                k = z3.Z3_OP_LE if k == z3.Z3_OP_LT else z3.Z3_OP_GE
            if k == z3.Z3_OP_GE:
                a, b = b, a
            p = padd(self.conv(b, bound), self.conv(a, bound), -F1)    # p >= 0
            if is_const(p):
                r = pconst(1 if cval(p) >= 0 else 0)
            else:
                kk = pkey(p)
                p = pscale(p, 1 / abs(kk[0][1]))
                r = patom(('ind', 'ge', pkey(p)))
            return padd(pconst(1), r, -F1) if neg else r
        if k == z3.Z3_OP_UNINTERPRETED:
            args = tuple(pkey(self.conv(x, bound)) for x in ch)
            return patom(('ind', c.decl().name(), args))
        raise Unsupported(f"indicator of {c.decl()}")

    def sum(self, sd, args, bound):
        if bound is not None and self.depth >= 6:
            raise Unsupported("nested sums")
        dims, body = sums.instantiate(sd, args)
        if self.subst:
            dims = [z3.substitute(d, *self.subst) for d in dims]
            body = z3.substitute(body, *self.subst)
        n0 = 0 if not bound else max(bound.values()) + 1
        fresh = [z3.FreshInt('rb') for _ in dims]
        body = z3.substitute(body, *list(zip(sd.bound, fresh)))
        self.keep += fresh + [body]
        nb = {} if not bound else dict(bound)
        local = {}
        for k, f in enumerate(fresh):
            nb[f.get_id()] = n0 + k
            local[n0 + k] = k
        for f, d in zip(fresh, dims):
            self.boundctx.append((f, z3.And(0 <= f, f < d)))
        self.depth += 1
        try:
            dk = [pkey(self.conv(d, bound)) for d in dims]
            p = self.conv(body, nb)
        finally:
            self.depth -= 1
            for f in fresh:
                self.boundctx.pop()
        # turn bound numbers n0.. into leading bounds of each monomial.  Inner
        # monomials already have their own bounds 'B' 0..; outer bound numbers
        # are kept negative-free by using tag ('b', k) for open ones and
        # ('B', j) for closed ones.
        r = {}
        for m, c in p.items():
            bs, fs = m
            mp = {n0 + k: ('B', len(bs) + k) for k in range(len(dims))}
            fs = {bind_atom(a, mp): e for a, e in fs}
            bs = tuple(bind_key(b, mp) for b in bs) + tuple(dk)
            q = self.mono_norm(bs, fs, c)
            r = padd(r, q)
        return r

    # ---- zero test ---------------------------------------------------------------
    def is_zero(self, p):
        for _ in range(12):
            if not p:
                return True
            # multiply through by denominators that are free of bound indices
            atoms = {}
            for m in p:
                for a, e in m[1]:
                    if a[0] == 'inv' and not atom_bounds(a, set()):
                        atoms[a] = max(atoms.get(a, F0), e)
            if not atoms:
                return False
            a, e = max(atoms.items(), key=lambda kv: len(rep(kv[0])))
            P = unseal(a[1])
            e = int(e)
            r = {}
            for m, c in p.items():
                d = dict(m[1])
                k = int(d.pop(a, F0))
                q = self.mono_norm(m[0], d, c)
                q = self.pmul(q, self.ppow(P, e - k))
                r = padd(r, q)
            p = r
        return not p


# ---- traversal of atoms -------------------------------------------------------
# closed bound indices are ('B', j), j indexes the bounds of the monomial; open
# ones (inside a conversion) are ('b', k)
def _walk_key(key, f):
    """polykey -> polykey, f maps atoms"""
    out = []
    for (bs, fs), c in key:
        # the bound indices of nested sums are sealed
        nf = tuple(sorted(((f(a), e) for a, e in fs), key=rep))
        nb = tuple(_walk_key(b, f) for b in bs)
        out.append(((nb, nf), c))
    return tuple(sorted(out, key=rep))


def _map_atom(a, f):
    k = a[0]
    if k in ('b', 'B', 'C', 'v', 'I', 'prime'):
        return f(a)
    if k == 'f':
        return ('f', a[1], tuple(_walk_key(x, lambda q: _map_atom(q, f)) for x in a[2]))
    if k in ('exp', 'cis'):
        (bs, fs), = a[1]
        return (k, ((tuple(_walk_key(b, lambda q: _map_atom(q, f)) for b in bs),
                     tuple(sorted(((_map_atom(q, f), e) for q, e in fs), key=rep))),))
    if k in ('sqrt', 'inv'):
        return (k, _walk_key(a[1], lambda q: _map_atom(q, f)))
    if k == 'ind':
        if a[1] in ('eq', 'ge'):
            return ('ind', a[1], _walk_key(a[2], lambda q: _map_atom(q, f)))
        return ('ind', a[1], tuple(_walk_key(x, lambda q: _map_atom(q, f)) for x in a[2]))
    raise AssertionError(a)


_mapcache = {}


def _has_bound(a):
    r = _mapcache.get(a)
    if r is None:
        found = []

        def f(q):
            if q[0] in ('b', 'B'):
                found.append(q)
            return q
        _map_atom(a, f)
        r = tuple(found)
        if len(_mapcache) > 300000:
            _mapcache.clear()
        _mapcache[a] = r
    return r


def atom_bounds(a, acc):
    for q in _has_bound(a):
        if q[0] == 'B':
            acc.add(q[1])
    return acc


def key_bounds(key, acc):
    for (bs, fs), c in key:
        for a, e in fs:
            atom_bounds(a, acc)
    return acc


class _Star(dict):
    def get(self, k, d=None):
        return '*'

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return '*'


_STAR = _Star()


def ren_atom(a, mp):
    if not _has_bound(a):
        return a
    return _map_atom(a, lambda q: ('B', mp[q[1]]) if q[0] == 'B' and q[1] in mp else q)


def ren_key(key, mp):
    return _walk_key(key, lambda a: ren_atom(a, mp))


def shift_atom(a, n):
    if not _has_bound(a):
        return a
    return _map_atom(a, lambda q: ('B', q[1] + n) if q[0] == 'B' else q)


def shift_key(key, n):
    return _walk_key(key, lambda a: shift_atom(a, n))


def open_bounds(a):
    return any(q[0] == 'b' for q in _has_bound(a))


def bind_atom(a, mp):
    if not _has_bound(a):
        return a
    return _map_atom(a, lambda q: mp[q[1]] if q[0] == 'b' and q[1] in mp else q)


def bind_key(key, mp):
    return _walk_key(key, lambda a: bind_atom(a, mp))


def mask_atom(a, k):
    return _map_atom(a, lambda q: ('B', '!' if q[1] == k else '*') if q[0] == 'B' else q)


def subst_key(ring, key, j, val):
    """replace closed bound j by polynomial val in a polynomial key"""
    r = {}
    for (bs, fs), c in key:
        if bs:
            own = set()
            for a, e in fs:
                atom_bounds(a, own)
            if own:
                raise Unsupported("substitution inside a nested sum")
            r = padd(r, unseal((((bs, fs), c),)))
            continue
        p = pconst(c)
        for a, e in fs:
            p = ring.pmul(p, subst_atom(ring, a, e, j, val))
        r = padd(r, p)
    return r


def subst_atom(ring, a, e, j, val):
    if a == ('B', j):
        if e.denominator == 1 and e > 0:
            return ring.ppow(val, int(e))
        if e.denominator == 1:
            return ring.ppow(ring.pinv(val), int(-e))
        raise Unsupported("fractional power of index")
    if j not in atom_bounds(a, set()):
        return {((), ((a, e),)): F1}
    k = a[0]
    if k == 'f':
        na = ('f', a[1], tuple(pkey(subst_key(ring, x, j, val)) for x in a[2]))
        return ring.mono_norm((), {na: e}, F1)
    if k in ('exp', 'cis'):
        p = subst_key(ring, ((a[1][0], F1),), j, val)
        p = pscale(p, e)
        return ring.pexp(p, 'exp') if k == 'exp' else ring.cis(p)
    if k == 'sqrt':
        return ring.mono_norm((), {('sqrt', pkey(subst_key(ring, a[1], j, val))): e}, F1)
    if k == 'inv':
        return ring.ppow(ring.pinv(subst_key(ring, a[1], j, val)), int(e))
    if k == 'ind':
        if a[1] in ('eq', 'ge'):
            p = subst_key(ring, a[2], j, val)
            if is_const(p):
                v = cval(p)
                return pconst(1 if (v == 0 if a[1] == 'eq' else v >= 0) else 0)
            lead = pkey(p)[0][1]
            p = pscale(p, 1 / (lead if a[1] == 'eq' else abs(lead)))
            return patom(('ind', a[1], pkey(p)))
        return patom(('ind', a[1], tuple(pkey(subst_key(ring, x, j, val)) for x in a[2])))
    raise AssertionError(a)


def ind_rule(ring, m):
    """Σ_b [b == t] X(b)  ->  X(t)   (t in range is the sum's own premise:
    the rule applies only to 'delta' indicators declared in range)"""
    bs, fs = m
    for a, e in fs:
        if a[0] == 'ind' and a[1] == 'eq' and len(a[2]) == 1:
            # x [x == 0] = 0
            (kb, kf), _ = a[2][0]
            if not kb and len(kf) == 1 and kf[0][1] > 0 and dict(fs).get(kf[0][0], F0) > 0:
                return {}
        if a[0] == 'ind' and a[1] == 'ge' and bs:
            r = attempt(range_rule, ring, bs, fs, a)
            if r is not None:
                return r
        if a[0] == 'ind' and a[1] == 'delta':
            # ('ind','delta',(k1,k2,n)): δ of two indices below n
            r = attempt(delta_rule, ring, bs, fs, a)
            if r is not None:
                return r
            if a[2][0] == a[2][1]:
                return ring.mono_norm(bs, {x: y for x, y in fs if x != a}, F1)
    return None


def attempt(rule, *a):
    """a rewriting that cannot be carried out is not done"""
    try:
        return rule(*a)
    except Unsupported:
        return None


def bound_of(m):
    """number of the index a monomial consists of"""
    b, f = m
    if b == () and len(f) == 1 and f[0][0][0] == 'B' and f[0][1] == 1:
        return f[0][0][1]


def plainly_nonneg(p):
    """a sum of indices and constants, none of them negative"""
    return all((q == ONE or bound_of(q) is not None) and v >= 0 for q, v in p.items())


def range_rule(ring, bs, fs, a):
    """[p >= 0] with p decided by the range of the indices; Σ_{j<d} [j >= c] X(j) =
    Σ_{j<d-c} X(j+c) for a whole number c > 0"""
    p = unseal(a[2])
    js = [(bound_of(q), v) for q, v in p.items() if bound_of(q) is not None]
    if not js:
        return None
    rest = {x: y for x, y in fs if x != a}
    if plainly_nonneg(p):
        return ring.mono_norm(bs, rest, F1)
    for j, v in js:
        if v != 1:
            continue
        B = patom(('B', j))
        # -p = (d - j) + something non-negative, so p < 0
        if plainly_nonneg(padd(padd(pscale(p, -1), unseal(bs[j]), -F1), B)):
            return {}
        t = padd(p, B, -F1)
        if is_const(t) and cval(t) < 0 and cval(t).denominator == 1:
            c = -cval(t)
            if any(j in key_bounds(b, set()) for b in bs):
                continue
            nbs = tuple(pkey(padd(unseal(b), pconst(c), -F1)) if i == j else b
                        for i, b in enumerate(bs))
            q = pconst(1)
            for x, y in rest.items():
                q = raw_mul(ring, q, subst_atom(ring, x, y, j, padd(B, pconst(c))))
            r = {}
            for (b2, f2), k in q.items():
                r = padd(r, ring.mono_norm(nbs, dict(f2), k))
            return r
    return None


def delta_rule(ring, bs, fs, a):
    """Σ_{j<d} [j == t] X(j) -> X(t), once t is seen to be below d (0 if it is
    seen not to be)"""
    k1, k2, full = a[2]
    diff = padd(unseal(k1), unseal(k2), -F1)
    for m, c in diff.items():
        j = bound_of(m)
        if j is None or abs(c) != 1:
            continue
        val = pscale({q: v for q, v in diff.items() if q != m}, -c)
        if j in key_bounds(pkey(val), set()):
            continue
        if j in [q for i, b in enumerate(bs) for q in key_bounds(b, set())]:
            continue
        d = bs[j]
        vb = [bound_of(q) for q in val]
        whole = d == full and unseal(d) and any(pkey(val) == k for k in (k1, k2))
        same = len(val) == 1 and vb[0] is not None and list(val.values()) == [F1] and \
            bs[vb[0]] == d
        if not whole and not same:
            # t - d is a constant >= 0 plus an index: outside of the range
            over = padd(val, unseal(d), -F1)
            if plainly_nonneg(over):
                return {}
            continue
        rest = [(x, y) for x, y in fs if x != a]
        mp = {k: (k if k < j else k - 1) for k in range(len(bs)) if k != j}
        nbs = tuple(ren_key(b, mp) for i, b in enumerate(bs) if i != j)
        # substitute, keeping other bounds closed (renumbered later)
        q = pconst(1)
        for x, y in rest:
            q = raw_mul(ring, q, subst_atom(ring, x, y, j, val))
        r = {}
        for (b2, f2), c in q.items():
            e = {}
            for x, y in f2:
                e[ren_atom(x, mp)] = e.get(ren_atom(x, mp), F0) + y
            r = padd(r, ring.mono_norm(nbs, e, c))
        return r


def raw_mul(ring, p, q):
    """product of polynomials whose monomials have no bounds lists of their own
    but may mention closed indices of an enclosing monomial"""
    r = {}
    for (b1, f1), c1 in p.items():
        for (b2, f2), c2 in q.items():
            d = dict(f1)
            for a, e in f2:
                n = d.get(a, F0) + e
                if n:
                    d[a] = n
                else:
                    d.pop(a, None)
            m = ((), tuple(sorted(d.items(), key=rep)))
            n = r.get(m, F0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    return r


def mentions(e, bound):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in bound:
            return True
        st.extend(x.children())
    return False


def factorint(n):
    r = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            r[p] = r.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
        if p > 100000:
            break
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


# ---- printing ------------------------------------------------------------------
def show_atom(a):
    k = a[0]
    if k in ('b', 'B', 'C'):
        return f"{k}{a[1]}"
    if k == 'v':
        return str(a[1])
    if k == 'I':
        return 'i'
    if k == 'prime':
        return str(a[1])
    if k == 'f':
        return f"{a[1]}({', '.join(show_key(x) for x in a[2])})"
    if k in ('exp', 'cis'):
        return f"{k}({show_mono(a[1][0], F1)})"
    if k in ('sqrt', 'inv'):
        return f"{k}({show_key(a[1])})"
    if k == 'ind':
        if a[1] in ('eq', 'ge'):
            return f"[{show_key(a[2])} {'=' if a[1] == 'eq' else '>'}= 0]"
        return f"[{a[1]}({', '.join(show_key(x) for x in a[2])})]"
    return repr(a)


def show_mono(m, c):
    bs, fs = m
    r = [str(c)] if c != 1 or not fs else []
    r += [show_atom(a) + ('' if e == 1 else f"^{e}") for a, e in fs]
    s = '*'.join(r)
    if bs:
        s = 'Sum{' + ', '.join(f"B{k}<{show_key(b)}" for k, b in enumerate(bs)) + '} ' + s
    return s


def show_key(key):
    return ' + '.join(show_mono(m, c) for m, c in key) or '0'


def show_poly(p):
    return show_key(sorted(p.items(), key=lambda kv: rep(kv[0]))) if isinstance(p, dict) \
        else show_key(p)
