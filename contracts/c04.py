"""C04 quadrature rule transformations."""
from .common import *
from engine.symarr import SymSeq, SymList

LEVEL = 'proof'


def ends(cx, name=''):
    a, b = cx.real('a' + name), cx.real('b' + name)
    cx.assume(T.lt(a.v(), b.v()))
    return a, b


def wellformed(cx, label, r, a, b, n):
    """representation invariant: stored distances are those of the nodes"""
    k = cx.idx(n, 'node')
    cx.prove_eq(label + ': distance from the left end', r.x_forward.at(k).val,
                T.sub(r.x.v(k), a))
    cx.prove_eq(label + ': distance from the right end', r.x_backward.at(k).val,
                T.sub(b, r.x.v(k)))


def rule(cx, nested=False, name=''):
    """an arbitrary rule as its constructor makes it"""
    g = cx.m('_gauss')
    n = cx.dim('n' + name, 1)
    a, b = ends(cx, name)
    x, w = cx.array('x' + name, (n,)), cx.array('w' + name, (n,))
    if nested:
        v = cx.array('v' + name, (cx.dim('nv' + name, 1),))
        r = cx.run(g.NestedRule, x, w, v, a=a, b=b, label='constructor')
        r._v = v
    else:
        r = cx.run(g.Rule, x, w, a=a, b=b, label='constructor')
    r._c = (n, x, w, a, b)
    return r


def same(cx, label, r, s, n):
    """two rules agree in every attribute"""
    k = cx.idx(n, 'node')
    for at in ('x', 'w', 'x_forward', 'x_backward'):
        cx.prove_shape(f'{label}: {at}', getattr(r, at), (n,))
        cx.prove_elem(f'{label}: {at}', cx.at(getattr(r, at), k), cx.at(getattr(s, at), k).val)
    for at in 'ab':
        cx.prove(f'{label}: end {at}', T.eq(cx.val(getattr(r, at)), cx.val(getattr(s, at))))


def ctor(given):
    def f(cx):
        g = cx.m('_gauss')
        n = cx.dim('n', 0)
        a, b = ends(cx)
        x, w = cx.array('x', (n,)), cx.array('w', (n,))
        kw = {}
        if given:
            kw = dict(x_forward=cx.array('xf', (n,)), x_backward=cx.array('xb', (n,)))
        r = cx.run(g.Rule, x, w, a=a, b=b, **kw)
        k = cx.idx(n)
        cx.prove_eq('nodes kept', r.x.v(k), x.v(k))
        cx.prove_eq('weights kept', r.w.v(k), w.v(k))
        cx.prove('ends kept', T.and_(T.eq(cx.val(r.a), a.v()), T.eq(cx.val(r.b), b.v())))
        if given:
            cx.prove_eq('given left distances kept', r.x_forward.v(k), kw['x_forward'].v(k))
            cx.prove_eq('given right distances kept', r.x_backward.v(k), kw['x_backward'].v(k))
        else:
            wellformed(cx, 'constructor', r, a.v(), b.v(), n)
            r = cx.run(g.Rule, x, w)
            wellformed(cx, 'default interval', r, -1, 1, n)
    return f


def affine(r, c, d):
    n, x, w, a, b = r._c
    s = T.div(T.sub(d, c), T.sub(b.v(), a.v()))
    return (lambda k: T.add(T.mul(s, T.sub(x.v(k), a.v())), c),
            lambda k: T.mul(s, w.v(k)), s)


def ascending(cx, r, res, label):
    """order of the nodes is preserved"""
    n, x, w, a, b = r._c
    i, j = cx.idx(n, 'i'), cx.idx(n, 'j')
    cx.assume(T.lt(x.v(i), x.v(j)))
    cx.prove(label, T.lt(res.x.v(i), res.x.v(j)))


def mapped(cx, r, res, c, d, label='nodes'):
    n, x, w, a, b = r._c
    fx, fw, s = affine(r, c, d)
    k = cx.idx(n, 'k')
    cx.prove_shape(label, res.x, (n,))
    cx.prove_shape(label + ' weights', res.w, (n,))
    cx.prove_elem(label + ' mapped affinely', res.x.at(k), fx(k))
    cx.prove_elem(label + ': weights scaled by the ratio of lengths', res.w.at(k), fw(k))
    cx.prove_elem(label + ': left distances', res.x_forward.at(k), T.sub(fx(k), c))
    cx.prove_elem(label + ': right distances', res.x_backward.at(k), T.sub(d, fx(k)))
    cx.prove(label + ': ends recorded', T.and_(T.eq(cx.val(res.a), c), T.eq(cx.val(res.b), d)))


def reseat(nested):
    def f(cx):
        r = rule(cx, nested)
        n, x, w, a, b = r._c
        c, d = cx.real('c'), cx.real('d')
        cx.assume(T.lt(c.v(), d.v()))
        res = cx.run(r.reseat, c, d)
        cx.prove('a new rule of the same kind', type(res) is type(r) and res is not r)
        mapped(cx, r, res, c.v(), d.v())
        if nested:
            _, _, s = affine(r, c.v(), d.v())
            k = cx.idx(r._v._shape[0])
            cx.prove_shape('nested weights', res.v, r._v._shape)
            cx.prove_elem('nested weights scaled', res.v.at(k), T.mul(s, r._v.v(k)))
            cx.prove('nested selection kept', res.vsel == slice(1, None, 2))
        i = cx.idx(n)
        cx.prove_eq('original nodes unchanged', r.x.v(i), fresh_array(
            cx.ctx, 'x', (n,), S.F64).v(i))
        cx.prove_eq('original weights unchanged', r.w.v(i), fresh_array(
            cx.ctx, 'w', (n,), S.F64).v(i))
        i, j = cx.idx(n, 'i'), cx.idx(n, 'j')
        cx.assume(T.lt(x.v(i), x.v(j)))
        sc = T.div(T.sub(d.v(), c.v()), T.sub(b.v(), a.v()))
        cx.assume(T.gt(sc, 0))                      # quotient of positive numbers
        # product of positive numbers
        cx.assume(T.gt(T.mul(sc, T.sub(x.v(j), x.v(i))), 0))
        fx, _, _ = affine(r, c.v(), d.v())
        for q in (i, j):
            cx.prove_eq('node', res.x.v(q), fx(q))
            cx.assume(T.eq(res.x.v(q), T.add(T.mul(sc, T.sub(x.v(q), a.v())), c.v())))
        cx.prove('ascending order kept', T.gt(T.sub(
            T.mul(sc, T.sub(x.v(j), a.v())), T.mul(sc, T.sub(x.v(i), a.v()))), 0))
    return f


def reseat_integers(cx):
    """integer ends behave like floating point ones"""
    r = rule(cx)
    c, d = cx.int('c'), cx.int('d')
    cx.assume(T.lt(c.v(), d.v()))
    res = cx.run(r.reseat, c, d)
    mapped(cx, r, res, T.to_real(c.v()), T.to_real(d.v()))


def scale(nested):
    def f(cx):
        r = rule(cx, nested)
        n, x, w, a, b = r._c
        q = cx.real('factor')
        res = cx.run(r.scale, q)
        cx.prove('a new rule of the same kind', type(res) is type(r) and res is not r)
        k = cx.idx(n)
        cx.prove_eq('nodes unchanged', res.x.v(k), x.v(k))
        cx.prove_elem('weights scaled', res.w.at(k), T.mul(q.v(), w.v(k)))
        wellformed(cx, 'scaled', res, a.v(), b.v(), n)
        cx.prove('ends', T.and_(T.eq(cx.val(res.a), a.v()), T.eq(cx.val(res.b), b.v())))
        cx.prove_eq('original weights unchanged', r.w.v(k), fresh_array(
            cx.ctx, 'w', (n,), S.F64).v(k))
        if nested:
            k = cx.idx(r._v._shape[0])
            cx.prove_elem('nested weights scaled', res.v.at(k), T.mul(q.v(), r._v.v(k)))
    return f


def astype(nested):
    def f(cx):
        r = rule(cx, nested)
        n = r._c[0]
        res = cx.run(r.astype, float)
        cx.prove('a new rule of the same kind', type(res) is type(r))
        same(cx, 'cast', res, r, n)
        if nested:
            k = cx.idx(r._v._shape[0])
            cx.prove_elem('nested weights kept', res.v.at(k), r._v.v(k))
    return f


def parts_list(spec):
    """havoc: list of (x, w, x_forward, x_backward), arbitrary entries"""
    def make(ctx, old, env):
        n = spec['n']
        L = z3.Int(ctx.fresh('nparts'))
        fs = [T.fn(ctx.fresh('part' + c), T.IS, T.IS, T.RS) for c in 'xwfb']

        def item(q):
            return tuple(mk(lambda ix, f=f: E(f(T.z(lin(q)), T.z(lin(ix[0])))), (n,), S.F64)
                         for f in fs)
        return SymList(L, item)
    return make


def join_inv(spec):
    def inv(env, k):
        ctx = S.cx()
        n, m = spec['n'], spec['m']
        pb = asarr(env.prev_b).scalar().val
        out = [('previous end', T.eq(pb, spec['edge'](k)))]
        P = env.parts
        ln = len(P) if isinstance(P, list) else dexpr(P.length)
        out.append(('one part per rule', T.eq(ln, k)))
        if isinstance(P, list):
            return out
        for c in range(4):
            def body(ix, c=c):
                q, i = ix
                return T.implies(T.lt(lin(q), k), T.eq(P.item(q)[c].v(i), spec['part'](q, i)[c]))
            out.append((f'part {"xwfb"[c]}', ctx.close([m, n], body)))
        return out
    return inv


JOIN = ('_gauss', 'Rule.join', 0)


def make_join(setup, label):
    spec = {}

    def f(cx):
        call, m, n, edge, part = setup(cx)
        spec.update(m=m, n=n, edge=edge, part=part)
        res = cx.run(call)
        ends_ = (edge(0), edge(m))
        cx.prove('ends of the union', T.and_(T.eq(cx.val(res.a), ends_[0]),
                                             T.eq(cx.val(res.b), ends_[1])))
        q, i = cx.idx(m, 'piece'), cx.idx(n, 'node')
        at = Flat([q, i], [m, n])
        sp = part(q, i)
        for c, nm in enumerate(('x', 'w', 'x_forward', 'x_backward')):
            arr = getattr(res, nm)
            cx.prove_shape(nm + ': pieces in order', arr, (S.mkprod([m, n]),))
            e = arr.at(at)
            cx.prove_elem(f'{nm} of each piece in order', e, sp[c])
        cx.prove_eq('left distance is from the union\'s left end', sp[2],
                    T.sub(sp[0], ends_[0]))
        cx.prove_eq('right distance is from the union\'s right end', sp[3],
                    T.sub(ends_[1], sp[0]))
    return Scenario(label, f, loops=[LoopContract(JOIN, join_inv(spec),
                                                  havoc={'parts': parts_list(spec)})],
                    functions=['_gauss.Rule.join', '_gauss.Rule.piecewise', '_gauss.Rule.reseat',
                               '_gauss.Rule.__init__'])


def piecewise(cx):
    r = rule(cx)
    n, x, w, a, b = r._c
    m = cx.dim('pieces', 1)
    ed = knots_array(cx, m, 'edges')

    def part(q, i):
        lo, hi = ed.v(q), ed.v(T.add(lin(q), 1))
        fx, fw, s = affine(r, lo, hi)
        return fx(i), fw(i), T.sub(fx(i), ed.v(0)), T.sub(ed.v(m), fx(i))
    return (lambda: r.piecewise(ed)), m, n, lambda k: ed.v(k), part


def join_many(cx):
    """any number of touching rules of equal length"""
    g = cx.m('_gauss')
    m, n = cx.dim('pieces', 1), cx.dim('n', 1)
    X, W, FW, BW = (cx.array(s, (m, n)) for s in ('X', 'W', 'FW', 'BW'))
    ed = knots_array(cx, m, 'edges')
    cx.assume_all([m, n], lambda q, i: T.eq(FW.v(q, i), T.sub(X.v(q, i), ed.v(q))))
    cx.assume_all([m, n], lambda q, i: T.eq(BW.v(q, i), T.sub(ed.v(T.add(lin(q), 1)),
                                                              X.v(q, i))))

    def item(q):
        return g.Rule(*(mk(lambda ix, A=A: A.at(q, ix[0]), (n,), S.F64)
                        for A in (X, W, FW, BW)), scalar(ed.v(q)),
                      scalar(ed.v(T.add(lin(q), 1))))

    def part(q, i):
        return (X.v(q, i), W.v(q, i), T.sub(X.v(q, i), ed.v(0)), T.sub(ed.v(m), X.v(q, i)))
    from engine.runtime import callstar
    return (lambda: callstar(g.Rule.join, SymSeq(m, item))), m, n, lambda k: ed.v(k), part


def join_two(touch):
    def f(cx):
        g = cx.m('_gauss')
        r, s = rule(cx, name='1'), rule(cx, name='2')
        n1, x1, w1, a1, b1 = r._c
        n2, x2, w2, a2, b2 = s._c
        if not touch:
            cx.assume(T.ne(b1.v(), a2.v()))
            cx.raises('rules that do not touch', ValueError, g.Rule.join, r, s)
            return
        cx.assume(T.eq(b1.v(), a2.v()))
        res = cx.run(g.Rule.join, r, s)
        cx.prove_shape('joined nodes', res.x, (T.add(n1, n2),))
        cx.prove('ends', T.and_(T.eq(cx.val(res.a), a1.v()), T.eq(cx.val(res.b), b2.v())))
        k = cx.idx(T.add(n1, n2))
        first = cx.decide(T.lt(lin(k), n1))
        k2 = k if first else T.sub(k, n1)
        x, w = (x1, w1) if first else (x2, w2)
        cx.prove_elem('nodes in order', res.x.at(k), x.v(k2))
        cx.prove_elem('weights in order', res.w.at(k), w.v(k2))
        cx.prove('left distance', T.eq(res.x_forward.v(k), T.sub(x.v(k2), a1.v())))
        cx.prove('right distance', T.eq(res.x_backward.v(k), T.sub(b2.v(), x.v(k2))))
    return f


def join_none(cx):
    g = cx.m('_gauss')
    r = cx.run(g.Rule.join)
    cx.prove_shape('empty rule', r.x, (0,))
    cx.prove_shape('empty rule weights', r.w, (0,))
    one = rule(cx)
    same(cx, 'joining one rule', cx.run(g.Rule.join, one), one, one._c[0])


def unsorted(cx):
    r = rule(cx)
    m = cx.dim('pieces', 1)
    ed = cx.array('edges', (T.simp(m + 1),))
    k = cx.idx(m)
    cx.assume(T.ge(ed.v(k), ed.v(T.add(lin(k), 1))))
    cx.raises('edges that do not ascend', ValueError, r.piecewise, ed)


SCENARIOS = [Scenario('constructor', ctor(False), functions=['_gauss.Rule.__init__']),
             Scenario('constructor-given', ctor(True), functions=['_gauss.Rule.__init__']),
             Scenario('reseat', reseat(False), functions=['_gauss.Rule.reseat']),
             Scenario('reseat-nested', reseat(True), functions=[
                 '_gauss.NestedRule.reseat', '_gauss.NestedRule.__init__']),
             Scenario('reseat-integers', reseat_integers, functions=['_gauss.Rule.reseat']),
             Scenario('scale', scale(False), functions=['_gauss.Rule.scale']),
             Scenario('scale-nested', scale(True), functions=['_gauss.NestedRule.scale']),
             Scenario('astype', astype(False), functions=['_gauss.Rule.astype']),
             Scenario('astype-nested', astype(True), functions=['_gauss.NestedRule.astype']),
             make_join(piecewise, 'piecewise'), make_join(join_many, 'join-many'),
             Scenario('join-two', join_two(True), functions=['_gauss.Rule.join']),
             Scenario('join-not-touching', join_two(False), functions=['_gauss.Rule.join']),
             Scenario('join-none-or-one', join_none, functions=['_gauss.Rule.join']),
             Scenario('unsorted-edges', unsorted, functions=['_gauss.Rule.piecewise'])]
ASSUMED = ["products and quotients of positive numbers are positive (used to order nodes)"]
BOUNDED = ["rounding of nodes close to the ends (battery, exact rationals)",
           "joining more than two rules of different lengths (battery)"]
