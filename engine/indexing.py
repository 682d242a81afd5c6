"""Indexing, reshaping and transposition of symbolic arrays."""
from fractions import Fraction
import itertools
import numpy as np
import z3

from . import terms as T
from .terms import Unsupported
from .symarr import (E, SArr, cx, mk, scalar, asarr, as_dim, dexpr, factors, mkprod,
                     same, lin, Flat, Part, DimSum, DimProd, INT64, BOOL, is_one,
                     broadcast_shape, align_idx, cast_elem, wdb, Scope, broadcast_fn,
                     from_conc, SymSeq, ikey)


def _is_bool_arr(k):
    if isinstance(k, SArr):
        return k.kind == 'b' and k.ndim > 0
    if isinstance(k, np.ndarray):
        return k.dtype.kind == 'b' and k.ndim > 0
    if isinstance(k, list) and k and all(isinstance(v, (bool, np.bool_)) for v in k):
        return True
    return False


def _is_int_scalar(k):
    if isinstance(k, (bool, np.bool_)):
        return False
    if isinstance(k, (int, np.integer)):
        return True
    return isinstance(k, SArr) and k.ndim == 0 and k.kind == 'i'


def norm_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    n = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if _is_bool_arr(k):
            n += asarr(k).ndim
        else:
            n += 1
    if not any(k is Ellipsis for k in key):
        key.append(Ellipsis)
    out = []
    seen = False
    for k in key:
        if k is Ellipsis:
            if seen:
                raise IndexError("an index can only have a single ellipsis")
            seen = True
            if n > a.ndim:
                raise IndexError("too many indices for array")
            out += [slice(None)] * (a.ndim - n)
        else:
            out.append(k)
    return out


def slice_range(k, d):
    """(start, length, step) of slice k on an axis of dimension d"""
    ctx = cx()
    n = dexpr(d)
    step = 1 if k.step is None else int(k.step)

    def norm(v):
        v = as_dim(v)
        v = dexpr(v)
        if isinstance(v, int):
            if v < 0:
                v = T.add(n, v)
                if isinstance(v, int):
                    return max(v, 0)
                return v if ctx.branch(T.ge(v, 0)) else 0
            if isinstance(n, int):
                return min(v, n)
            if v == 0:
                return 0
            return v if ctx.branch(T.le(v, n)) else n
        v = T.simp(v)
        if same(v, n):
            return n
        if ctx.branch(T.lt(v, 0)):
            v = T.simp(T.add(n, v))
            return v if ctx.branch(T.ge(v, 0)) else 0
        return v if ctx.branch(T.le(v, n)) else n

    if step == -1:
        if k.start is None and k.stop is None:
            return T.sub(n, 1), d, -1
        raise Unsupported("negative-step slice with bounds")
    if step < 0:
        raise Unsupported("slice step")
    start = 0 if k.start is None else norm(k.start)
    stop = n if k.stop is None else norm(k.stop)
    if step == 1:
        if isinstance(start, int) and start == 0 and k.stop is None:
            return 0, d, 1
        if isinstance(start, int) and start == 0:
            return 0, (d if same(stop, n) else stop), 1
        ln = T.simp(T.sub(stop, start))
        if isinstance(ln, int):
            return start, max(ln, 0), 1
        if not ctx.branch(T.ge(ln, 0)):
            return start, 0, 1
        return start, ln, 1
    if isinstance(start, int) and isinstance(stop, int):
        return start, max(0, -(-(stop - start) // step)), step
    raise Unsupported("strided slice of symbolic dimension")


def getitem(a, key):
    if a.ndim == 0 and key == () and not isinstance(key, SArr):
        return a
    key = norm_key(a, key)
    if any(_is_bool_arr(k) for k in key) or any(
            isinstance(k, (SArr, np.ndarray, list, SymSeq)) and not _is_int_scalar(k)
            for k in key):
        return adv_getitem(a, key)
    return basic_view(a, key)


def int_index(k, d):
    ctx = cx()
    v = T.simp(asarr(k).scalar().val)
    n = dexpr(d)
    if isinstance(v, int) and v < 0:
        v = T.add(n, v)
    elif not isinstance(v, int) and ctx.branch(T.lt(v, 0)):
        v = T.simp(T.add(n, v))
    if not ctx.branch(T.and_(T.le(0, v), T.lt(v, n))):
        raise IndexError("index out of bounds")
    return v


def basic_view(a, key):
    shape = []
    plan = []            # per source axis: ('i', v) | ('s', outpos, start, step)
    conds = []
    src = 0
    for k in key:
        if k is None:
            shape.append(1)
            continue
        d = a._shape[src]
        if isinstance(k, slice):
            st, ln, step = slice_range(k, d)
            plan.append(('s', len(shape), st, step, ln))
            shape.append(ln)
        elif _is_int_scalar(k):
            plan.append(('i', int_index(k, d)))
        elif isinstance(k, float) or (isinstance(k, SArr) and k.kind in 'fcb') or \
                isinstance(k, (str, dict)):
            raise IndexError("only integers, slices, ... are valid indices")
        elif hasattr(k, '__index__'):
            plan.append(('i', int_index(k.__index__(), d)))
        else:
            raise IndexError("invalid index")
        src += 1

    def ident(p):
        return isinstance(p[2], int) and p[2] == 0 and p[3] == 1

    def fwd(ix):
        r = []
        for p in plan:
            if p[0] == 'i':
                r.append(p[1])
            elif ident(p):
                r.append(ix[p[1]])
            elif p[3] == 1:
                r.append(T.simp(T.add(p[2], lin(ix[p[1]]))))
            elif p[3] == -1:
                i = ix[p[1]]
                r.append(T.simp(T.sub(p[2], lin(i))))
            else:
                r.append(T.simp(T.add(p[2], T.mul(p[3], lin(ix[p[1]])))))
        return tuple(r)

    nout = len(shape)

    def inv(bi):
        out = [0] * nout
        c = True
        for p, i in zip(plan, bi):
            if p[0] == 'i':
                c = T.and_(c, T.eq(lin(i), p[1]))
            elif ident(p):
                out[p[1]] = i
                if not same(p[4], dexpr(a._shape[plan.index(p)])):
                    c = T.and_(c, T.lt(lin(i), dexpr(p[4])))
            else:
                i = lin(i)
                if p[3] == 1:
                    o = T.simp(T.sub(i, p[2]))
                elif p[3] == -1:
                    o = T.simp(T.sub(p[2], i))
                else:
                    q = T.sub(i, p[2])
                    c = T.and_(c, T.eq(T.mod(q, p[3]), 0))
                    o = T.floordiv(q, p[3])
                out[p[1]] = o
                c = T.and_(c, T.le(0, o), T.lt(o, dexpr(p[4])))
        if isinstance(c, z3.ExprRef):
            c = T.simp(c)
        return c, tuple(out)
    r = a._view(tuple(shape), fwd, inv)
    if not shape and all(_is_int_scalar(k) or k is None for k in key):
        # indexing with integers only yields an (immutable) scalar copy
        e = r.at()
        return scalar(e.val, a.dtype, e.wd, e.nan)
    return r


# ---- boolean masks -----------------------------------------------------------
class MaskEnum:
    """increasing enumeration of the set positions of a 1-d mask"""


def mask_enum(m):
    from . import sums
    ctx = cx()
    m = asarr(m)
    if m.ndim != 1:
        raise Unsupported("n-d mask")
    d = m._shape[0]
    n = dexpr(d)
    f = m.snap()
    if isinstance(n, int) and n <= 64:
        vals = [T.simp(T.to_bool(f((k,)).val)) for k in range(n)]
        if n <= 6:
            vals = [ctx.branch(v) for v in vals]
        if all(isinstance(v, bool) for v in vals):
            me = MaskEnum()
            idx = [k for k, v in enumerate(vals) if v]
            me.count = len(idx)
            me.dim = d
            me.conc = idx
            me.pos = lambda k: _conc_pick(idx, lin(k))
            me.rank = lambda i: _conc_rank(idx, lin(i))
            me.mask = lambda i: T.to_bool(f((i,)).val)
            return me
    fs = factors(d)
    if len(fs) > 1 and not all(isinstance(q, int) for q in fs):
        return _mask_product(ctx, d, fs, f)
    i = z3.Int('mask_i')
    ctx.scopes.append(Scope())
    try:
        b = T.to_bool(f((i,)).val)
        w = wdb(f((i,)).wd)
        local = ctx.scopes[-1].facts
    finally:
        ctx.scopes.pop()
    rng = z3.And(i >= 0, i < T.z(n))
    for lf in local:
        ctx.fact(ctx.forall([i], T.implies(rng, lf)))
    if w is not True:
        ctx.obligation("mask is well-defined", ctx.forall([i], T.implies(rng, w)))
    b = z3.simplify(T.z(b))
    if z3.is_true(b):
        # everything selected
        me = MaskEnum()
        me.conc, me.count, me.dim = None, d, d
        me.identity = True
        me.pos = me.rank = lambda k: k
        me.mask = lambda i_: True
        me.positions = lambda: mk(lambda ix: E(lin(ix[0])), (d,), INT64)
        return me
    key = (b.get_id(), T.z(n).get_id())
    if key in ctx.maskcache:
        return ctx.maskcache[key][0]
    me = MaskEnum()
    me.conc = None
    tag = ctx.fresh('m')
    me.named = named_mask(ctx, b, i, n)
    cnt = sums.make_sum([n], lambda rx: E(T.to_num(T.simp(me.named(rx[0])))), True).val
    me.count = cnt
    me.dim = d
    pos = z3.Function(f"pos_{tag}", T.IS, T.IS)
    rank = z3.Function(f"rank_{tag}", T.IS, T.IS)
    me.posf, me.rankf = pos, rank
    me.pos = lambda k: pos(T.z(lin(k)))
    me.rank = lambda i_: rank(T.z(lin(i_)))
    me.mask = lambda i_: z3.substitute(b, (i, T.z(lin(i_))))
    k = z3.Int(f"k_{tag}")
    k2 = z3.Int(f"k2_{tag}")
    ii = z3.Int(f"i_{tag}")
    bi = z3.substitute(b, (i, ii))
    bp = z3.substitute(b, (i, pos(k)))
    inr = z3.And(0 <= ii, ii < T.z(n))
    c = T.z(cnt)
    ctx.fact(z3.And(c >= 0, c <= T.z(n)))
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c),
                                       z3.And(0 <= pos(k), pos(k) < T.z(n), bp,
                                              rank(pos(k)) == k)), patterns=[pos(k)]))
    ctx.fact(z3.ForAll([ii], z3.Implies(z3.And(inr, bi),
                                        z3.And(0 <= rank(ii), rank(ii) < c,
                                               pos(rank(ii)) == ii)), patterns=[rank(ii)]))
    ctx.fact(z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < c), pos(k) < pos(k2)),
                       patterns=[z3.MultiPattern(pos(k), pos(k2))]))
    nz = T.z(n)
    # first and last position
    ctx.fact(z3.Implies(z3.And(nz > 0, z3.substitute(b, (i, nz - 1))),
                        z3.And(c >= 1, pos(c - 1) == nz - 1, rank(nz - 1) == c - 1)))
    ctx.fact(z3.Implies(z3.And(nz > 0, z3.substitute(b, (i, z3.IntVal(0)))),
                        z3.And(c >= 1, pos(0) == 0, rank(0) == 0)))
    allm = z3.ForAll([ii], z3.Implies(inr, bi))
    ctx.fact(z3.Implies(allm, z3.And(c == T.z(n), z3.ForAll(
        [k], z3.Implies(z3.And(0 <= k, k < c), pos(k) == k), patterns=[pos(k)]))))
    ctx.fact(z3.Implies(c == T.z(n), allm))
    ctx.fact(z3.Implies(z3.ForAll([ii], z3.Implies(inr, z3.Not(bi))), c == 0))
    ctx.fact(z3.Implies(c == 0, z3.ForAll([ii], z3.Implies(inr, z3.Not(bi)))))
    me.key = key
    ctx.maskcache[key] = (me, b, f)
    me.positions = lambda: mk(lambda ix: E(me.pos(ix[0])), (cnt,), INT64)
    return me


def named_mask(ctx, b, i, n):
    """mask as a formula without quantifiers (a defined predicate if need be)"""
    neg = z3.is_not(b)
    if neg:
        b = b.arg(0)
    from .prover import has_quant
    if not has_quant(b):
        g = lambda q: z3.substitute(b, (i, T.z(lin(q))))
    else:
        names = ctx.__dict__.setdefault('maskpred', {})
        if b.get_id() not in names:
            pr = z3.Function(ctx.fresh('msk'), T.IS, T.BS)
            ctx.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < T.z(n)), pr(i) == b),
                               patterns=[pr(i)]))
            names[b.get_id()] = (pr, b)
        pr = names[b.get_id()][0]
        g = lambda q: pr(T.z(lin(q)))
    return (lambda q: z3.Not(g(q))) if neg else g


def _mask_product(ctx, d, fs, f):
    """mask on a flattened axis: positions are kept as their components"""
    from . import sums
    iv = [z3.Int(f'mask_i{q}') for q in range(len(fs))]
    ctx.scopes.append(Scope())
    try:
        e = f((Flat(iv, fs),))
        b, w = T.to_bool(e.val), wdb(e.wd)
        local = ctx.scopes[-1].facts
    finally:
        ctx.scopes.pop()
    inr = lambda v: z3.And(*[z3.And(a >= 0, a < T.z(n)) for a, n in zip(v, fs)])
    for lf in local:
        ctx.fact(ctx.forall(iv, T.implies(inr(iv), lf)))
    if w is not True:
        ctx.obligation("mask is well-defined", ctx.forall(iv, T.implies(inr(iv), w)))
    b = T.z(b)
    key = (b.get_id(),) + tuple(T.z(n).get_id() for n in fs)
    cache = ctx.__dict__.setdefault('maskcache_product', {})
    if key in cache:
        return cache[key][0]
    me = MaskEnum()
    me.conc = None
    tag = ctx.fresh('m')
    cnt = sums.make_sum([d], lambda rx: E(T.to_num(T.to_bool(f((rx[0],)).val))), True).val
    me.count, me.dim = cnt, d
    pos = [z3.Function(f"pos{q}_{tag}", T.IS, T.IS) for q in range(len(fs))]
    rank = z3.Function(f"rank_{tag}", *([T.IS] * len(fs)), T.IS)
    at = lambda v: z3.substitute(b, *zip(iv, v))
    P = lambda k: [p(k) for p in pos]
    cs = lambda i: [T.z(lin(c)) for c in comps(i, fs)]
    me.posfs, me.at = pos, at
    me.pos = lambda k: Flat(P(T.z(lin(k))), fs)
    me.rank = lambda i: rank(*cs(i))
    me.mask = lambda i: at(cs(i))
    k, k2, c = z3.Int(f"k_{tag}"), z3.Int(f"k2_{tag}"), T.z(cnt)
    ctx.fact(c >= 0)
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c), z3.And(
        inr(P(k)), at(P(k)), rank(*P(k)) == k)), patterns=[pos[0](k)]))
    ctx.fact(z3.ForAll(iv, z3.Implies(z3.And(inr(iv), b), z3.And(
        0 <= rank(*iv), rank(*iv) < c, *[p(rank(*iv)) == v for p, v in zip(pos, iv)])),
        patterns=[rank(*iv)]))

    def before(x, y):
        r = z3.BoolVal(False)
        for p, q in reversed(list(zip(x, y))):
            r = z3.Or(p < q, z3.And(p == q, r))
        return r
    ctx.fact(z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < c),
                                           before(P(k), P(k2))),
                       patterns=[z3.MultiPattern(pos[0](k), pos[0](k2))]))
    ctx.fact(z3.Implies(z3.ForAll(iv, z3.Implies(inr(iv), z3.Not(b))), c == 0))
    ctx.fact(z3.Implies(c == 0, z3.ForAll(iv, z3.Implies(inr(iv), z3.Not(b)))))
    cache[key] = (me, b, f)

    def positions():
        raise Unsupported("positions of a mask on a product axis")
    me.positions = positions
    return me


def _conc_pick(idx, k):
    if isinstance(k, int):
        return idx[k]
    r = T.z(idx[-1])
    for q in range(len(idx) - 2, -1, -1):
        r = T.ite(T.eq(k, q), idx[q], r)
    return r


def _conc_rank(idx, i):
    if isinstance(i, int):
        return idx.index(i) if i in idx else 0
    r = T.z(0)
    for q, v in enumerate(idx):
        r = T.ite(T.eq(i, v), q, r)
    return r


# ---- advanced indexing -------------------------------------------------------
def adv_getitem(a, key):
    ctx = cx()
    # integers take part in advanced indexing as 0-d arrays
    plan = []
    src = 0
    advs = []
    pos_list = []
    for k in key:
        if k is None:
            plan.append(('n',))
            continue
        if _is_bool_arr(k):
            k = asarr(k)
            if k.ndim != 1:
                raise Unsupported("n-d mask")
            if not dims_eq(k._shape[0], a._shape[src]):
                raise IndexError("boolean index did not match indexed array")
            me = mask_enum(k)
            advs.append(('m', me, (me.count,)))
            plan.append(('a', len(advs) - 1))
            src += 1
        elif isinstance(k, slice):
            plan.append(('s', k, a._shape[src]))
            src += 1
        else:
            ka = asarr(k)
            if ka.kind not in 'i':
                if ka.size == 0 and not isinstance(k, (SArr, np.ndarray)):
                    ka = ka.astype(int)
                else:
                    raise IndexError("arrays used as indices must be of integer type")
            idx = bound_index_array(ka, a._shape[src])
            advs.append(('i', idx, ka._shape))
            plan.append(('a', len(advs) - 1))
            src += 1
    bshape = broadcast_shape(*[x[2] for x in advs])
    apos = [n for n, p in enumerate(plan) if p[0] == 'a']
    contiguous = apos == list(range(apos[0], apos[-1] + 1))
    # output layout
    shape = []
    outmap = []
    if not contiguous:
        shape += list(bshape)
    adv_at = 0 if not contiguous else None
    for n, p in enumerate(plan):
        if p[0] == 'n':
            shape.append(1)
            outmap.append(None)
        elif p[0] == 's':
            st, ln, step = slice_range(p[1], p[2])
            outmap.append((len(shape), st, step))
            shape.append(ln)
        else:
            if contiguous and adv_at is None:
                adv_at = len(shape)
                shape += list(bshape)
            outmap.append(None)
    nb = len(bshape)
    f = a.snap()
    # snapshot index arrays
    getters = []
    for x in advs:
        if x[0] == 'm':
            getters.append((x[1].pos, x[2], True))
        else:
            getters.append((x[1], x[2], False))

    def fn(ix):
        bi = ix[adv_at:adv_at + nb]
        r = []
        wd = True
        for n, p in enumerate(plan):
            if p[0] == 's':
                o, st, step = outmap[n]
                i = ix[o]
                if isinstance(st, int) and st == 0 and step == 1:
                    r.append(i)
                elif step == -1:
                    r.append(T.simp(T.sub(st, lin(i))))
                else:
                    r.append(T.simp(T.add(st, T.mul(step, lin(i)))))
            elif p[0] == 'a':
                g, sh, ism = getters[p[1]]
                j = align_idx(bi, sh, bshape)
                if ism:
                    r.append(g(j[0]))
                else:
                    e = g(j)
                    r.append(e.val)
                    wd = T.and_(wd, wdb(e.wd))
        e = f(tuple(r))
        if wd is not True:
            e = E(e.val, T.and_(wdb(e.wd), wd), e.nan)
        return e
    res = mk(fn, tuple(shape), a.dtype)
    if not shape:
        e = res.at()
        return scalar(e.val, a.dtype, e.wd, e.nan)
    return res


def dims_eq(a, b):
    from .symarr import dims_equal
    return dims_equal(a, b)


def bound_index_array(ka, d):
    """index array normalised to [0, d): checks bounds, resolves negatives"""
    ctx = cx()
    n = dexpr(d)
    f = ka.snap()
    nonneg = ctx.close(list(ka._shape), lambda ix: T.and_(T.le(0, f(ix).val),
                                                          T.lt(f(ix).val, n)), 'all')
    if nonneg is True or (not isinstance(nonneg, bool) and ctx.entails(nonneg, 4000)):
        return f
    inb = ctx.close(list(ka._shape), lambda ix: T.and_(T.le(T.neg(n), f(ix).val),
                                                       T.lt(f(ix).val, n)), 'all')
    if not (inb is True or ctx.branch(inb)):
        raise IndexError("index array out of bounds")

    def g(ix):
        e = f(ix)
        v = T.ite(T.lt(e.val, 0), T.add(e.val, n), e.val)
        return E(T.simp(v) if isinstance(v, z3.ExprRef) else v, e.wd, e.nan)
    return g


def setitem(a, key, value):
    if getattr(a, '_is_scalar', False):
        raise TypeError("object does not support item assignment")
    key = norm_key(a, key)
    bools = [n for n, k in enumerate(key) if _is_bool_arr(k)]
    advs = [n for n, k in enumerate(key) if isinstance(k, (SArr, np.ndarray, list))
            and not _is_int_scalar(k) and n not in bools]
    if not bools and not advs:
        v = basic_view_rw(a, key)
        v.assign(value)
        return
    if len(bools) == 1 and not advs:
        ax = bools[0]
        if any(k is None for k in key):
            raise Unsupported("newaxis in mask assignment")
        others = [k for n, k in enumerate(key) if n != ax]
        if not all(isinstance(k, slice) and k == slice(None) for k in others):
            raise Unsupported("mask assignment with other indices")
        me = mask_enum(asarr(key[ax]))
        if not dims_eq(me.dim, a._shape[ax]):
            raise IndexError("boolean index did not match indexed array")
        shape = list(a._shape)
        shape[ax] = me.count
        value = asarr(value)
        g = broadcast_fn(value, tuple(shape))
        dt = a.dtype

        def nf(ix, o):
            c = me.mask(ix[ax])
            jx = list(ix)
            jx[ax] = me.rank(ix[ax])
            n = cast_elem(g(tuple(jx)), dt)
            return E(T.ite(c, n.val, o.val), T.ite(c, wdb(n.wd), wdb(o.wd)),
                     T.ite(c, n.nan, o.nan))
        a._write(nf)
        return
    raise Unsupported("assignment with index arrays")


def basic_view_rw(a, key):
    """like basic_view, but an all-integer key still gives a writable view"""
    if all(_is_int_scalar(k) for k in key) and key:
        return basic_view(a, list(key) + [None])
    return basic_view(a, key)


# ---- reshape / transpose -----------------------------------------------------
def comps(i, fs):
    """components of an index along an axis with atomic factors fs"""
    if len(fs) == 0:
        return []
    if len(fs) == 1:
        return [i]
    if isinstance(i, Flat):
        return list(i.idx)
    i = lin(i)
    if isinstance(i, int) and all(isinstance(f, int) for f in fs):
        out = []
        for f in reversed(fs):
            out.append(i % f)
            i //= f
        return out[::-1]
    raise Unsupported("plain index into a product axis")


def reshape(a, shape):
    shape = [as_dim(s) for s in shape]
    src = [factors(d) for d in a._shape]
    flat = [f for fs in src for f in fs]
    conc = all(isinstance(f, int) for f in flat) and \
        all(isinstance(s, int) for s in shape)
    if conc and all(isinstance(dexpr(d), int) for d in a._shape):
        return reshape_conc(a, shape)
    out = []
    minus = None
    pool = list(flat)
    # groups of factors, taken in order from the left until -1, then from right
    want = []
    for s in shape:
        if isinstance(s, int) and s == -1:
            if minus is not None:
                raise ValueError("can only specify one unknown dimension")
            minus = len(want)
            want.append(None)
        else:
            want.append(factors(s))
    groups = [None] * len(want)
    lo, hi = 0, len(pool)
    for n in range(len(want)):
        if want[n] is None:
            break
        g, lo = take(pool, lo, want[n])
        groups[n] = g
    if minus is not None:
        for n in range(len(want) - 1, minus, -1):
            g, hi = take_back(pool, hi, want[n])
            groups[n] = g
        if hi < lo:
            raise ValueError("cannot reshape array")
        groups[minus] = pool[lo:hi]
    elif lo != len(pool):
        raise ValueError("cannot reshape array")
    newshape = []
    for n, g in enumerate(groups):
        if len(g) == 0:
            newshape.append(1)
        elif len(g) == 1:
            newshape.append(g[0])
        else:
            newshape.append(mkprod(g))
    offs = []
    k = 0
    for g in groups:
        offs.append((k, len(g)))
        k += len(g)

    def regroup(c, gs):
        r = []
        k = 0
        for g in gs:
            m = len(g)
            if m == 0:
                r.append(0)
            elif m == 1:
                r.append(c[k])
            else:
                if all(isinstance(x, int) for x in g) and \
                        all(isinstance(x, int) for x in c[k:k+m]):
                    v = 0
                    for x, d in zip(c[k:k+m], g):
                        v = v * d + x
                    r.append(v)
                else:
                    r.append(Flat(c[k:k+m], g))
            k += m
        return tuple(r)

    def fwd(ix):
        c = []
        for i, g in zip(ix, groups):
            c += comps(i, g)
        return regroup(c, src)

    def inv(bi):
        c = []
        for i, g in zip(bi, src):
            c += comps(i, g)
        return True, regroup(c, groups)
    return a._view(tuple(newshape), fwd, inv)


def take(pool, lo, want):
    g = []
    for w in want:
        if lo >= len(pool):
            raise ValueError("cannot reshape array")
        if not dims_eq(pool[lo], w):
            raise ValueError("cannot reshape array")
        g.append(pool[lo])
        lo += 1
    return g, lo


def take_back(pool, hi, want):
    g = []
    for w in reversed(want):
        hi -= 1
        if hi < 0 or not dims_eq(pool[hi], w):
            raise ValueError("cannot reshape array")
        g.append(pool[hi])
    return g[::-1], hi


def reshape_conc(a, shape):
    tot = int(np.prod([dexpr(d) for d in a._shape], dtype=int))
    if -1 in shape:
        rest = int(np.prod([s for s in shape if s != -1], dtype=int))
        if rest == 0 or tot % rest:
            raise ValueError("cannot reshape array")
        shape = [tot // rest if s == -1 else s for s in shape]
    if int(np.prod(shape, dtype=int)) != tot:
        raise ValueError("cannot reshape array")
    src = tuple(dexpr(d) for d in a._shape)
    if tuple(shape) == src:
        return a._view(tuple(shape), lambda ix: ix, lambda bi: (True, bi))

    def conv(ix, s1, s2):
        ix = [lin(i) for i in ix]
        nz1 = [k for k, s in enumerate(s1) if s != 1]
        nz2 = [k for k, s in enumerate(s2) if s != 1]
        if [s1[k] for k in nz1] == [s2[k] for k in nz2]:
            r = [0] * len(s2)
            for k1, k2 in zip(nz1, nz2):
                r[k2] = ix[k1]
            return tuple(r)
        v = 0
        for i, d in zip(ix, s1):
            v = T.add(T.mul(v, d), i)
        out = []
        for d in reversed(s2):
            out.append(T.mod(v, d) if d != 1 else 0)
            v = T.floordiv(v, d) if d != 1 else v
        return tuple(out[::-1])
    return a._view(tuple(shape), lambda ix: conv(ix, shape, src),
                   lambda bi: (True, conv(bi, src, shape)))


def transpose(a, order=None):
    n = a.ndim
    if order is None:
        order = tuple(range(n))[::-1]
    order = tuple(int(o) for o in order)
    if len(order) != n or any(not -n <= o < n for o in order) or \
            len({o % n for o in order}) != n:
        raise ValueError("axes don't match array")
    order = tuple(o % n for o in order)
    invo = [0] * n
    for k, o in enumerate(order):
        invo[o] = k
    return a._view(tuple(a._shape[o] for o in order),
                   lambda ix: tuple(ix[invo[k]] for k in range(n)),
                   lambda bi: (True, tuple(bi[o] for o in order)))
