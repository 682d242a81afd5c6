"""Contract of numpy.linalg.svd (trusted)."""
import z3
from . import terms as T
from . import symarr as S
from .symarr import cx, dexpr, asarr, E
from .terms import Cx, Unsupported
from . import ring as R


def gram_rule(name, over, isc, size, full):
    """Σ_{b} conj(Q[b,i]) Q[b,j] = δ_ij  (over='row': the summed index is the
    first); for over='col' the summed index is the second: Σ_b Q[i,b] conj(Q[j,b]);
    size: length of the axis summed over, full: length of the other one"""
    pos = 0 if over == 'row' else 1
    other = 1 - pos
    n1, n2 = (name, name + '~') if isc else (name, name)

    def is_b(key):
        return len(key) == 1 and key[0][1] == 1 and key[0][0][0] == () and \
            len(key[0][0][1]) == 1 and key[0][0][1][0][0][0] == 'B' and \
            key[0][0][1][0][1] == 1

    def rule(ring, m):
        bs, fs = m
        cand = [(a, e) for a, e in fs if a[0] == 'f' and a[1] in (n1, n2) and len(a[2]) == 2]
        for x in range(len(cand)):
            for y in range(x, len(cand)):
                a, ea = cand[x]
                b, eb = cand[y]
                if x == y:
                    if isc or ea != 2:
                        continue
                else:
                    if ea != 1 or eb != 1 or (isc and a[1] == b[1]):
                        continue
                if not is_b(a[2][pos]) or a[2][pos] != b[2][pos]:
                    continue
                j = a[2][pos][0][0][1][0][0][1]
                if bs[j] != R.pkey(ring.conv(T.z(size))):
                    continue
                # the summed index must occur nowhere else
                rest = [(q, e) for q, e in fs if q not in (a, b)]
                if any(j in R.atom_bounds(q, set()) for q, e in rest):
                    continue
                if any(j in R.key_bounds(k, set()) for k in bs):
                    continue
                if j in R.key_bounds(a[2][other], set()) or j in R.key_bounds(b[2][other], set()):
                    continue
                delta = ('ind', 'delta', tuple(
                    sorted((a[2][other], b[2][other]), key=R.rep)) + (R.pkey(ring.conv(T.z(full))),))
                mp = {k: (k if k < j else k - 1) for k in range(len(bs)) if k != j}
                nbs = tuple(R.ren_key(k, mp) for i, k in enumerate(bs) if i != j)
                d = {}
                for q, e in rest + [(delta, R.F1)]:
                    d[R.ren_atom(q, mp)] = e
                return ring.mono_norm(nbs, d, R.F1)
        return None
    return rule


def split_gram_rule(name, n, rest, cols):
    """columns of a real matrix of n + rest rows are orthonormal:
    Σ_{b<rest} Q[n+b,i] Q[n+b,j] = δ_ij - Σ_{b<n} Q[b,i] Q[b,j]"""
    def rule(ring, m):
        nk, rk = R.pkey(ring.conv(T.z(n))), R.pkey(ring.conv(T.z(rest)))
        bs, fs = m
        cand = [(a, e) for a, e in fs if a[0] == 'f' and a[1] == name and len(a[2]) == 2]
        for x in range(len(cand)):
            for y in range(x, len(cand)):
                a, ea = cand[x]
                b, eb = cand[y]
                if (x == y and ea != 2) or (x != y and (ea != 1 or eb != 1)) or \
                        a[2][0] != b[2][0]:
                    continue
                js = sorted(R.key_bounds(a[2][0], set()))
                if len(js) != 1:
                    continue
                j = js[0]
                bk = R.pkey(R.patom(('B', j)))
                # first index is n + (bound index)
                if R.pkey(R.padd(R.unseal(nk), R.unseal(bk))) != a[2][0] or bs[j] != rk:
                    continue
                rest_f = [(q, e) for q, e in fs if q not in (a, b)]
                if any(j in R.atom_bounds(q, set()) for q, e in rest_f) or \
                        any(j in R.key_bounds(k, set()) for k in bs) or \
                        j in R.key_bounds(a[2][1], set()) or j in R.key_bounds(b[2][1], set()):
                    continue
                delta = ('ind', 'delta', tuple(
                    sorted((a[2][1], b[2][1]), key=R.rep)) + (R.pkey(ring.conv(T.z(cols))),))
                mp = {k: (k if k < j else k - 1) for k in range(len(bs)) if k != j}
                nbs = tuple(R.ren_key(k, mp) for i, k in enumerate(bs) if i != j)
                d = {}
                for q, e in rest_f + [(delta, R.F1)]:
                    d[R.ren_atom(q, mp)] = e
                one = ring.mono_norm(nbs, d, R.F1)
                d = dict(rest_f)
                for q, e in ((a, ea),) if x == y else ((a, ea), (b, eb)):
                    q = ('f', name, (bk, q[2][1]))
                    d[q] = d.get(q, R.F0) + e
                two = ring.mono_norm(tuple(nk if i == j else k for i, k in enumerate(bs)), d,
                                     R.F1)
                return R.padd(one, two, -R.F1)
        return None
    return rule


def svd(a, full_matrices=True):
    from .scenario import fresh_array
    from . import symnp
    symnp.trusted("numpy.linalg.svd: A = U diag(s) Vh, U^H U = 1, Vh Vh^H = 1, "
                  "s non-negative and non-increasing")
    a = asarr(a)
    if a.ndim != 2:
        raise Unsupported("svd of stacked matrices")
    if full_matrices:
        raise Unsupported("svd with full_matrices")
    ctx = cx()
    m, n = a._shape
    if S.same(m, n):
        r = m
    elif ctx.branch(T.le(dexpr(n), dexpr(m))):
        r = n
    else:
        r = m
    isc = a.kind == 'c'
    nm = ctx.fresh('svd')
    square = r is n, r is m
    if isinstance(r, S.DimSum):
        # singular values are not split the way the rows are
        r, d = T.z3.Int(nm + 'r'), r
        ctx.fact(T.eq(r, dexpr(d)))
    dt = S.C128 if isc else S.F64
    u = fresh_array(ctx, nm + 'U', (m, r), dt)
    s = fresh_array(ctx, nm + 's', (r,), S.F64)
    vh = fresh_array(ctx, nm + 'V', (r, n), dt)
    ctx.note_rule(gram_rule(nm + 'U', 'row', isc, dexpr(m), dexpr(r)))
    ctx.note_rule(gram_rule(nm + 'V', 'col', isc, dexpr(n), dexpr(r)))
    # square factors are inverted by their adjoint from both sides
    if square[0]:
        ctx.note_rule(gram_rule(nm + 'V', 'row', isc, dexpr(r), dexpr(n)))
    if square[1]:
        ctx.note_rule(gram_rule(nm + 'U', 'col', isc, dexpr(r), dexpr(m)))
    if isc:
        R.CONJ.update((nm + 'U', nm + 'V'))
    elif isinstance(m, S.DimSum) and len(m.parts) == 2:
        ctx.note_rule(split_gram_rule(nm + 'U', *[dexpr(q) for q in m.parts],
                                      dexpr(r)))
    ctx.fact(ctx.close([r], lambda ix: T.ge(s.v(*ix), 0)))
    ctx.fact(ctx.close([r, r], lambda ix: T.implies(T.lt(S.lin(ix[0]), S.lin(ix[1])),
                                                    T.ge(s.v(ix[0]), s.v(ix[1])))))
    ctx.svds = getattr(ctx, 'svds', []) + [(a, u, s, vh)]
    return u, s, vh
