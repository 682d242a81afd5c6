"""Sums over symbolic index ranges.

A sum  Σ_{k < d} body(k, params)  is a hash-consed application  Sum#n(params):
two sums with the same dimension and the same body (up to the names of index
constants) are the same term.  `REG` keeps the body templates; the ring
normaliser (`ring.py`) expands them, z3 sees them as uninterpreted.
"""
from fractions import Fraction
import itertools
import z3

from . import terms as T
from .terms import Cx, Unsupported
from .symarr import (E, Ctx, cx, Flat, Part, DimSum, factors, dexpr, wdb, elem_binop,
                     mk, lin, Scope)


class SumDef:
    __slots__ = ('name', 'params', 'bound', 'dims', 'body', 'isint', 'decl')


REG = {}           # name -> SumDef
_KEYS = {}
BV = [z3.Int(f"bv#{k}") for k in range(12)]
EXPAND = 8


def reset():
    REG.clear()
    _KEYS.clear()


def int_consts(e, acc, seen):
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                and x.sort() == T.IS:
            acc.append(x)
        stack.extend(reversed(x.children()))
    return acc


def sum_app(bound, dims, body, isint):
    """Sum term for a real/int z3 body over bound constants"""
    body = T.z(body)
    body = z3.simplify(body, som=False) if not isint else body
    bound, dims, body = over_masks(list(bound), [T.z(d) for d in dims], body, isint)
    for q, d in enumerate(dims):
        if z3.is_int_value(d) and d.as_long() <= EXPAND:
            # small concrete factor of a product axis
            rest = lambda k: sum_app(bound[:q] + bound[q+1:], dims[:q] + dims[q+1:], z3.substitute(
                body, (bound[q], z3.IntVal(k))), isint)
            if not d.as_long():
                return z3.IntVal(0) if isint else z3.RealVal(0)
            r = rest(0)
            for k in range(1, d.as_long()):
                r = r + rest(k)
            return r
    if not bound:
        return body
    n = len(bound)
    sub = [(b, BV[k]) for k, b in enumerate(bound)]
    body = z3.substitute(body, sub)
    dz = [T.z(d) for d in dims]
    bvids = {b.get_id() for b in BV}
    # positions of masks are parameters as a whole
    pos = []
    for t in mask_positions(body, bvids):
        c = z3.FreshInt('fp')
        body = z3.substitute(body, (t, c))
        pos.append((c, t))
    free, seen = [], set()
    int_consts(body, free, seen)
    free = [f for f in free if f.get_id() not in bvids]
    # the dimensions are parameters too
    fv = [z3.Int(f"fd#{k}") for k in range(n)] + [z3.Int(f"fv#{k}") for k in range(len(free))]
    s2 = list(zip(free, fv[n:]))
    tb = z3.substitute(body, s2) if s2 else body
    key = (isint, n, tb.get_id())
    sd = _KEYS.get(key)
    if sd is None:
        sd = SumDef()
        sd.name = f"Sum#{len(REG)}"
        sd.params, sd.bound, sd.dims, sd.body, sd.isint = fv, BV[:n], tuple(fv[:n]), tb, isint
        rs = T.IS if isint else T.RS
        sd.decl = z3.Function(sd.name, *([T.IS] * len(fv)), rs)
        _KEYS[key] = sd
        REG[sd.name] = sd
    return sd.decl(*dz, *[next((t for c, t in pos if c.get_id() == f.get_id()), f)
                          for f in free])


def mask_positions(e, bvids):
    """outermost pos_m(t) terms without bound indices"""
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen or z3.is_quantifier(x):
            continue
        seen.add(i)
        if z3.is_app(x) and x.num_args() == 1 and x.decl().name().startswith('pos_m') and \
                not mentions_any(x, bvids):
            out.append(x)
            continue
        st.extend(x.children())
    return out


def mentions_any(e, ids):
    """does e mention a constant with one of the ids?"""
    seen, st = set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in ids:
            return True
        if i not in seen:
            seen.add(i)
            st.extend(x.children())
    return False


def over_masks(bound, dims, body, isint):
    """Σ_{k<count} g(pos(k)), pos enumerating the set positions of a mask, is
    Σ_i [mask(i)] g(i)"""
    ctx = Ctx.cur
    if ctx is None:
        return bound, dims, body
    enums = [(v[0], None) for v in ctx.maskcache.values()] + \
        [(v[0], 1) for v in ctx.__dict__.get('maskcache_product', {}).values()]
    zero = z3.IntVal(0) if isint else z3.RealVal(0)
    for q in range(len(bound)):
        for me, prod in enums:
            if me.conc is not None or T.z(me.count).get_id() != dims[q].get_id():
                continue
            posf = me.posfs if prod else [me.posf]
            new = [z3.FreshInt('mb') for _ in posf]
            b2 = z3.substitute(body, *[(p(bound[q]), i) for p, i in zip(posf, new)])
            if occurs(bound[q], b2):
                continue
            if not prod and all_set(ctx, me):
                body = z3.substitute(body, (me.posf(bound[q]), bound[q]))
                dims = dims[:q] + [T.z(dexpr(me.dim))] + dims[q+1:]
                return over_masks(bound, dims, body, isint)
            m = me.at(new) if prod else me.named(new[0])
            body = z3.If(T.z(m), b2, zero)
            nd = [T.z(f) for f in factors(me.dim)] if prod else [T.z(dexpr(me.dim))]
            return over_masks(bound[:q] + new + bound[q+1:], dims[:q] + nd + dims[q+1:],
                              body, isint)
    return bound, dims, body


def all_set(ctx, me):
    """is the whole mask set on this path?"""
    key = (len(ctx.pc), len(ctx.hyps()))
    got = getattr(me, 'allset', None)
    if got is None or got[0] != key and not got[1]:
        me.allset = (key, ctx.entails(T.z(me.count) == T.z(dexpr(me.dim)), 1500))
    return me.allset[1]


def occurs(c, e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == c.get_id():
            return True
        st.extend(x.children())
    return False


def instantiate(sd, args):
    """(dims, body) of a sum application, over bound constants BV"""
    sub = list(zip(sd.params, args))
    if not sub:
        return sd.dims, sd.body
    return [z3.substitute(d, *sub) for d in sd.dims], z3.substitute(sd.body, *sub)


def bound_index(ctx, dim):
    return ctx.fresh_idx(dim, 'b')


def make_sum(rdims, body, isint):
    """Σ over the given dims of body(index tuple) : E"""
    ctx = cx()
    # concatenated axes split into their parts
    for n, d in enumerate(rdims):
        if isinstance(d, DimSum):
            tot = None
            for p, pd in enumerate(d.parts):
                def sub(rx, p=p, n=n, d=d):
                    rx = list(rx)
                    rx[n] = Part(rx[n], p, d)
                    return body(tuple(rx))
                r = make_sum(rdims[:n] + [pd] + rdims[n+1:], sub, isint)
                tot = r if tot is None else elem_binop('add', tot, r)
            return tot
    rdims = list(rdims)
    zero = E(0 if isint else Fraction(0))
    # small concrete axes are expanded
    sizes = [dexpr(d) for d in rdims]
    if any(isinstance(s, int) and s == 0 for s in sizes):
        return zero
    for n, s in enumerate(sizes):
        if isinstance(s, int) and s <= EXPAND:
            tot = None
            rest = rdims[:n] + rdims[n+1:]
            for k in range(s):
                def sub(rx, k=k, n=n):
                    rx = list(rx)
                    rx.insert(n, k)
                    return body(tuple(rx))
                r = make_sum(rest, sub, isint)
                tot = r if tot is None else elem_binop('add', tot, r)
            return tot
    if not rdims:
        e = body(())
        return E(T.to_num(e.val), e.wd, e.nan) if isint else e
    idx = tuple(bound_index(ctx, d) for d in rdims)
    bs = [c for i in idx for c in ctx.consts_of(i)]
    bdims = [dexpr(f) for d in rdims for f in (factors(d) if factors(d) else [d])]
    assert len(bs) == len(bdims), (bs, bdims)
    rng = T.and_(*[ctx.in_range(i, d) for i, d in zip(idx, rdims)])
    ctx.scopes.append(Scope())
    try:
        e = body(idx)
        local = ctx.scopes[-1].facts
    finally:
        ctx.scopes.pop()
    for lf in local:
        ctx.fact(ctx.forall(bs, T.implies(rng, lf)))
    wd = wdb(e.wd)
    if wd is not True:
        wd = ctx.forall(bs, T.implies(rng, wd))
    nan = e.nan
    if nan is not False:
        nan = z3.Exists(bs, T.z(T.and_(rng, nan)))
    v = e.val
    if isint:
        v = T.to_num(v)
        if T.is_const(v) and len(bdims) >= 1:
            r = v
            for d in bdims:
                r = T.mul(r, d)
            return E(r, wd, nan)
        s = sum_app(bs, bdims, v, True)
        if z3.is_app(T.z(v)) and z3.is_app_of(T.z(v), z3.Z3_OP_ITE) and len(bdims) == 1 \
                and _is01(T.z(v)):
            ctx.fact(z3.And(s >= 0, s <= T.z(bdims[0])))
            if len(ctx.scopes) == 1:
                monotone_count(ctx, s, bs[0], T.z(bdims[0]), T.z(v))
        return E(s, wd, nan)
    if isinstance(v, Cx):
        return E(Cx(_rsum(bs, bdims, v.re), _rsum(bs, bdims, v.im)), wd, nan)
    return E(_rsum(bs, bdims, T.to_real(v)), wd, nan)


def monotone_count(ctx, s, b, n, v, tag=''):
    """the number s of indices that satisfy a predicate which holds on an initial
    (final) part of the range only is the length of that part (induction; the
    step is discharged in `contracts/lemmas.py`)"""
    done = ctx.__dict__.setdefault('moncount', {})
    if (s.get_id(), tag) in done:
        return
    done[s.get_id(), tag] = s
    c = v.arg(0) if v.arg(1).as_long() else z3.Not(v.arg(0))
    i, j = z3.FreshInt('mi'), z3.FreshInt('mj')
    at = lambda t: z3.substitute(c, (b, t))
    rng = z3.And(0 <= i, i < j, j < n)
    for kind in ('initial', 'final'):
        f = z3.Implies(z3.And(rng, at(j)), at(i)) if kind == 'initial' else \
            z3.Implies(z3.And(rng, at(i)), at(j))
        if ctx.entails(f, 1000):
            k = z3.Int('mono_k')
            ctx.fact(z3.ForAll([k], z3.Implies(
                z3.And(0 <= k, k < n),
                at(k) == ((k < s) if kind == 'initial' else (k >= n - s)))))
            return


def permuted_count(ctx, s, f, n):
    """facts about the count s of a predicate f given in sorted order"""
    b = z3.FreshInt('pc')
    if len(ctx.scopes) != 1 or not isinstance(s, z3.ExprRef):
        return
    ctx.scopes.append(Scope())
    try:
        e = f((b,))
    finally:
        ctx.scopes.pop()
    if isinstance(e.val, z3.ExprRef):
        v = e.val if e.val.sort() == T.BS else e.val == 1
        monotone_count(ctx, s, b, T.z(n), z3.If(v, z3.IntVal(1), z3.IntVal(0)), 'sorted')


def unpermuted(f, dim):
    """a sum over all positions of a sorted array is the sum over the original:
    where f depends on its index through a[perm(index)] only, use a[index]"""
    ctx = cx()
    cache = ctx.__dict__.get('sortcache', {})
    if not cache:
        return f
    i = z3.FreshInt('up')
    ctx.scopes.append(Scope())
    try:
        e = f((i,))
    except Unsupported:
        return f
    finally:
        ctx.scopes.pop()
    if isinstance(e.val, Cx) or not isinstance(T.z(e.val), z3.ExprRef):
        return f
    for (p, q), _, src, sdim in cache.values():
        if T.z(dexpr(sdim)).get_id() != T.z(dexpr(dim)).get_id():
            continue
        t = T.z(src((p(i),)).val)
        mark = z3.FreshConst(t.sort(), 'um')
        parts = [T.z(x) for x in (e.val, wdb(e.wd), e.nan)]
        parts = [z3.substitute(z3.simplify(x), (z3.simplify(t), mark)) for x in parts]
        if any(occurs(i, x) for x in parts) or not any(occurs(mark, x) for x in parts):
            continue

        def g(ix):
            v = T.z(src(ix).val)
            a, w, n = [z3.simplify(z3.substitute(x, (mark, v))) for x in parts]
            return E(a, unb(w), unb(n))
        return g
    return f


def unb(x):
    return True if z3.is_true(x) else False if z3.is_false(x) else x


def _is01(v):
    a, b = v.arg(1), v.arg(2)
    return all(z3.is_int_value(x) and x.as_long() in (0, 1) for x in (a, b))


def _rsum(bs, dims, v):
    v = T.to_real(v)
    if T.is_const(v):
        if v == 0:
            return Fraction(0)
        r = v
        for d in dims:
            r = T.mul(r, T.to_real(d))
        return r
    return sum_app(bs, dims, v, False)


def prefix_sum(f, k, isint):
    """Σ_{j<k} f(j)"""
    return make_sum([k], lambda rx: f(rx), isint)


def make_cumsum(f, dim, isint, dtype):
    """cumulative sum: C[i] = Σ_{j<=i} f(j), with its recursion equation"""
    from .symarr import INT64
    import numpy as np
    ctx = cx()
    d = dexpr(dim)
    if isinstance(d, int) and d <= 400:
        vals = []
        t = None
        for k in range(d):
            e = f((k,))
            t = e if t is None else elem_binop('add', t, e)
            vals.append(t)

        def cfn(ix):
            i = lin(ix[0])
            if isinstance(i, int):
                return vals[i]
            r = None
            for q in range(d - 1, -1, -1):
                e = vals[q]
                r = e if r is None else E(T.ite(T.eq(i, q), e.val, r.val),
                                          T.ite(T.eq(i, q), wdb(e.wd), wdb(r.wd)), False)
            return r
        return mk(cfn, (dim,), INT64 if isint else dtype)

    probe = {}

    def val(i):
        """C(i), a sum over j < i+1"""
        return make_sum([T.simp(T.add(i, 1))], lambda rx: f(rx), isint)

    # recursion facts, closed over the index
    i = ctx.fresh_idx(d, 'c')
    rng = ctx.in_range(i, d)
    ctx.scopes.append(Scope())
    try:
        ci = val(i)
        cim = val(T.simp(T.sub(i, 1)))
        fi = f((i,))
        c0 = val(0)
        local = ctx.scopes[-1].facts
    finally:
        ctx.scopes.pop()
    for lf in local:
        ctx.fact(ctx.forall([i], T.implies(rng, lf)))
    if isinstance(ci.val, Cx):
        raise Unsupported("complex cumsum")
    f0 = f((0,))
    ctx.fact(T.implies(T.gt(d, 0), T.eq(c0.val, f0.val)))
    ctx.fact(ctx.forall([i], T.implies(T.and_(T.le(1, i), T.lt(i, d)),
                                       T.eq(ci.val, T.add(cim.val, fi.val)))))
    wd = ctx.close([d], lambda ix: wdb(f(ix).wd), 'all')
    ctx.cumsums.append((f, d, val, wd))
    return mk(lambda ix: E(val(lin(ix[0])).val, wd, False), (dim,), INT64 if isint else dtype)


def increasing(ctx, n):
    """Meta lemma (induction) for the n-th cumulative sum C of the path:
    increments f > 0 everywhere  =>  C strictly increasing, C(i) >= f(i) > 0.
    Returns (premise at an index, conclusion)."""
    f, d, val, wd = ctx.cumsums[n]
    i, j = ctx.fresh_idx(d, 'c'), ctx.fresh_idx(d, 'c')

    def prem(k):
        e = f((k,))
        return T.and_(wdb(e.wd), T.not_(e.nan)), T.gt(e.val, 0)
    pre = lambda k: make_sum([k], lambda rx: f(rx), False).val      # C(k-1)
    inc = ctx.forall([i, j], T.implies(T.and_(T.le(1, i), T.lt(i, j), T.le(j, d)),
                                       T.lt(pre(i), pre(j))))
    low = ctx.forall([i], T.implies(T.and_(T.le(1, i), T.le(i, d)), T.gt(pre(i), 0)))
    return d, prem, T.and_(inc, low, wd)
