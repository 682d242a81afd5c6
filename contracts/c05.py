"""C05 Gauss-Legendre rules and Legendre collocation."""
from .common import *

LEVEL = 'proof'
MP = T.fn('MonicP', T.IS, T.RS, T.RS)        # p_k(x) of the three-term recurrence
DMP = T.fn('dMonicP', T.IS, T.RS, T.RS)      # its derivative
WR = T.fn('WronskiP', T.IS, T.RS, T.RS)      # p'_{k+1} p_k - p'_k p_{k+1}


def monic(cx, alpha, beta):
    """the polynomials defined by the recurrence and their derivatives
    (the derivative of the recurrence is the product rule)"""
    x = z3.Real('mx')
    k = z3.Int('mk')
    al, be = lambda q: T.z(alpha.v(q)), lambda q: T.z(beta.v(q))
    cx.assume(z3.ForAll([x], z3.And(MP(0, x) == 1, DMP(0, x) == 0), patterns=[MP(0, x)]))
    cx.assume(z3.ForAll([x], z3.And(MP(1, x) == x - al(0), DMP(1, x) == 1),
                        patterns=[MP(1, x)]))

    def step(k, x):
        return z3.And(MP(k + 1, x) == (x - al(k)) * MP(k, x) - be(k) * MP(k - 1, x),
                      DMP(k + 1, x) == MP(k, x) + (x - al(k)) * DMP(k, x)
                      - be(k) * DMP(k - 1, x))
    return step


def vals(a, n):
    return lambda k: a.v(k)


PVD = ('_gauss', '_polyvalderiv', 0)


def pvd(setup_beta_positive):
    spec = {}

    def inv(env, k):
        ctx = S.cx()
        x, out = spec['x'], []
        k = T.z(k)
        m = spec['m']
        for name, f, off in (('p1', MP, 1), ('p0', MP, 0), ('dp1', DMP, 1), ('dp0', DMP, 0)):
            arr = getattr(env, name)
            out.append((f"{name} is polynomial k{'+1' if off else ''}"
                        + (' (derivative)' if f is DMP else ''),
                        ctx.close([m], lambda ix, arr=arr, f=f, off=off: T.eq(
                            arr.v(*ix), f(z3.simplify(k + off), T.z(x.v(*ix)))))))
        return out

    def scen(cx):
        g = cx.m('_gauss')
        n, m = cx.dim('n', 1), cx.dim('m', 1)
        x, alpha, beta = cx.array('x', (m,)), cx.array('alpha', (n,)), cx.array('beta', (n,))
        spec.update(x=x, m=m)
        step = monic(cx, alpha, beta)
        kk, xx = z3.Int('mk'), z3.Real('mx')
        cx.assume(z3.ForAll([kk, xx], z3.Implies(z3.And(1 <= kk, kk < n), step(kk, xx)),
                            patterns=[MP(kk + 1, xx)]))
        i = cx.idx(m)
        # instances of the recurrence at the node under consideration
        p1, dp1, p0, dp0 = cx.run(g._polyvalderiv, x, alpha, beta)
        for label, arr, f, k in (('value', p1, MP, n), ('derivative', dp1, DMP, n),
                                 ('second highest value', p0, MP, n - 1),
                                 ('second highest derivative', dp0, DMP, n - 1)):
            cx.prove_shape(label, arr, (m,))
            cx.prove_elem(label, arr.at(i), f(z3.simplify(k), T.z(x.v(i))))
        cx.prove('argument unchanged', T.eq(x.v(i), fresh_array(cx.ctx, 'x', (m,), S.F64).v(i)))
    return Scenario('polyvalderiv', scen, loops=[LoopContract(PVD, inv)],
                    functions=['_gauss._polyvalderiv'])


def wronskian(cx):
    """lemma (Christoffel-Darboux, by induction): p'_{k+1} p_k - p'_k p_{k+1} > 0
    everywhere if all beta are positive; hence positive weights at the roots"""
    n = cx.dim('n', 1)
    alpha, beta = cx.array('alpha', (n,)), cx.array('beta', (n,))
    x = cx.real('x').v()
    step = monic(cx, alpha, beta)
    W = lambda k: T.sub(T.mul(DMP(k + 1, x), MP(k, x)), T.mul(DMP(k, x), MP(k + 1, x)))
    cx.assume(z3.And(MP(0, x) == 1, DMP(0, x) == 0, MP(1, x) == x - T.z(alpha.v(0)),
                     DMP(1, x) == 1))
    cx.prove('base case', T.gt(W(z3.IntVal(0)), 0))
    k = cx.idx(n - 1, 'k')
    k1 = k + 1
    b = T.z(beta.v(k1))
    cx.assume(b > 0)
    cx.assume(W(k) > 0)
    cx.assume(step(k1, x))
    rec = T.add(T.mul(MP(k1, x), MP(k1, x)), T.mul(b, W(k)))
    # the recurrence substituted for the newest polynomial
    a = T.z(alpha.v(k1))
    p2 = (x - a) * MP(k1, x) - b * MP(k, x)
    d2 = MP(k1, x) + (x - a) * DMP(k1, x) - b * DMP(k, x)
    cx.prove_eq('induction step, identity', d2 * MP(k1, x) - DMP(k1, x) * p2, rec)
    w, p = z3.Real('w'), z3.Real('p')
    cx.assume(z3.And(w == W(k), p == MP(k1, x)))
    cx.assume(b * w > 0)
    cx.prove('induction step, sign', T.gt(T.add(p * p, b * w), 0))
    # at a root of p_n
    pn, dpn, q, dq = z3.Reals('pn dpn q dq')
    cx.assume(z3.And(pn == 0, dpn * q - dq * pn > 0))
    cx.prove('positive denominator of the weight at a root', dpn * q > 0)


def recurrence(cx):
    """scaled recurrence coefficients are those of the Legendre polynomials"""
    g = cx.m('_gauss')
    n = cx.dim('n', 1)
    alpha, beta, a, b = cx.run(g._legendre_recurrence, cx.dimval(n))
    k = cx.idx(n)
    cx.prove_shape('alpha', alpha, (n,))
    cx.prove_shape('beta', beta, (n,))
    cx.prove_elem('alpha is zero', alpha.at(k), 0)
    cx.prove('interval', T.and_(T.eq(cx.val(a), -1), T.eq(cx.val(b), 1)))
    cx.prove_elem('beta_0 is the length of the interval', beta.at(0), 2)
    k = cx.idx(n - 1)
    k1 = k + 1
    kr = T.to_real(k1)
    cx.prove_elem('beta_k = k^2 / (4 k^2 - 1)', beta.at(k1),
                  T.div(T.mul(kr, kr), T.sub(T.mul(4, T.mul(kr, kr)), 1)))
    # lemma: the polynomials P_k / lead_k follow that recurrence if P_k follows Bonnet's
    P0, P1, l0, l1, x = z3.Reals('P0 P1 l0 l1 x')
    P2 = ((2 * kr + 1) * x * P1 - kr * P0) / (kr + 1)
    cx.assume(l0 > 0)
    lead1 = l0 * (2 * kr - 1) / kr                    # lead_k = lead_{k-1} (2k-1)/k
    lead2 = lead1 * (2 * kr + 1) / (kr + 1)
    cx.assume(lead1 > 0)
    cx.assume(lead2 > 0)
    cx.prove_eq('monic Legendre polynomials satisfy the recurrence', P2 / lead2,
                T.sub(T.mul(x, P1 / lead1), T.mul(beta.v(k1), P0 / l0)))
    # beta is positive
    cx.assume(kr >= 1)
    cx.assume(kr * kr >= 1)
    cx.prove('beta positive', T.gt(beta.v(k1), 0))


def legendre(cx):
    """legendre(n) uses the Legendre recurrence on [-1, 1]"""
    g = cx.m('_gauss')
    n = cx.dim('n', 1)
    seen = []

    def rule(alpha, beta, a, b):
        seen.append((alpha, beta, a, b))
        return 'the rule'
    cx.patch('_gauss', 'rule_from_recurrence', rule)
    r = cx.run(g.legendre, cx.dimval(n))
    cx.prove('returns the rule of the recurrence', r == 'the rule' and len(seen) == 1)
    alpha, beta, a, b = seen[0]
    k = cx.idx(n - 1)
    kr = T.to_real(k + 1)
    cx.prove_elem('alpha', alpha.at(k), 0)
    cx.prove_elem('beta', beta.at(k + 1),
                  T.div(T.mul(kr, kr), T.sub(T.mul(4, T.mul(kr, kr)), 1)))
    cx.prove('interval', T.and_(T.eq(cx.val(a), -1), T.eq(cx.val(b), 1)))


NEWTON = ('_gauss', 'rule_from_recurrence', 0)
SC = T.fn('ScaleP', T.RS, T.RS)              # s^(n-1)


def interval(cx):
    """any a < b, written as a, a + length"""
    a, L = cx.real('a'), cx.real('L')
    cx.assume(T.gt(L.v(), 0))
    return a, a + L


def handed(cx, n, alpha, beta, a, b, al, be):
    """the factor s with which the recurrence is scaled on its way to _polyvalderiv"""
    L = T.sub(b.v(), a.v())
    pr = cx.ctx.prover
    k, j = cx.idx(n, 'pv'), cx.idx(n - 1, 'pv')
    for s in (Fr(1), T.div(4, L), T.div(2, L), T.div(1, L), Fr(2), L):
        if pr.prove_eq(cx.ctx.hyps(), al.v(k), T.mul(s, alpha.v(k)), cx.ctx, 3000)[0] == 'proved':
            break
    cx.assume(T.gt(s, 0))                    # quotient of positive numbers
    cx.prove_eq('recurrence coefficients handed on (alpha, up to scale)', al.v(k),
                T.mul(s, alpha.v(k)))
    cx.prove_eq('recurrence coefficients handed on (beta, up to scale)', be.v(j + 1),
                T.mul(T.mul(s, s), fresh_array(cx.ctx, 'beta', (n,), S.F64).v(j + 1)))
    return s


def scaled_poly(cx, n, s, snap):
    """contract of _polyvalderiv for a scaled recurrence (lemma scaling)"""
    unit = isinstance(s, Fr) and s == 1
    K = Fr(1) if unit else SC(T.z(s))
    if not unit:
        cx.assume(K > 0)
    pos = lambda ix: T.div(snap(ix).val, s) if not unit else snap(ix).val

    def f(fn, k, c):
        return mk(lambda ix: E(T.mul(c, fn(T.z(k), T.z(pos(ix))))), (n,), S.F64)
    return pos, (f(MP, n, T.mul(s, K)), f(DMP, n, K), f(MP, n - 1, K),
                 f(DMP, n - 1, T.div(K, s)))


def scaling(cx):
    """lemma, by induction: polynomials of the recurrence (s alpha, s^2 beta) at s x are
    s^k times those of (alpha, beta) at x, their derivatives s^(k-1) times"""
    s, x, a, b, Sk = z3.Reals('s x a b Sk')
    p0, p1, d0, d1 = z3.Reals('p0 p1 d0 d1')
    cx.assume(z3.And(s > 0, Sk > 0))
    S1, S2 = s * Sk, s * s * Sk
    q0, q1, e0, e1 = Sk * p0, S1 * p1, Sk * d0 / s, S1 * d1 / s
    A, B, X = s * a, s * s * b, s * x
    cx.prove_eq('base case', X - A, s * (x - a))
    cx.prove_eq('value', (X - A) * q1 - B * q0, S2 * ((x - a) * p1 - b * p0))
    cx.prove_eq('derivative', T.mul(s, q1 + (X - A) * e1 - B * e0),
                S2 * (p1 + (x - a) * d1 - b * d0))


def weights():
    spec = {}

    def inv(env, k):
        return []

    def scen(cx):
        """weights and distances at the nodes, given the contract of _polyvalderiv"""
        g = cx.m('_gauss')
        n = cx.dim('n', 1)
        alpha, beta = cx.array('alpha', (n,)), cx.array('beta', (n,))
        a, b = interval(cx)
        cx.assume_all([n], lambda k: T.gt(beta.v(k), 0))
        xs = []

        def pvd_contract(x, al, be):
            s = handed(cx, n, alpha, beta, a, b, al, be)
            pos, res = scaled_poly(cx, n, s, x.snap())
            xs.append(pos)
            # a converged node is a root; derivatives do not vanish there (lemma wronskian)
            cx.assume_all([n], lambda i: T.and_(
                T.ne(DMP(n, T.z(pos((i,)))), 0),
                T.gt(T.mul(DMP(n, T.z(pos((i,)))), MP(n - 1, T.z(pos((i,))))), 0)))
            return res
        cx.patch('_gauss', '_polyvalderiv', pvd_contract)
        r = cx.run(g.rule_from_recurrence, alpha, beta, a, b)
        k = cx.idx(n)
        cx.prove_shape('nodes', r.x, (n,))
        cx.prove_shape('weights', r.w, (n,))
        cx.prove('weights are computed at the returned nodes', EqGoal(
            xs[-1]((k,)), r.x.v(k)))
        gk = lambda i: T.div(1, T.mul(DMP(n, T.z(r.x.v(i))), MP(n - 1, T.z(r.x.v(i)))))
        tot = rsum(n, gk)
        cx.assume(T.gt(tot, 0))                # sum of positive terms
        cx.prove_eq('weights are proportional to 1 / (p_n\' p_{n-1})', r.w.v(k),
                    T.mul(T.sub(b.v(), a.v()), T.div(gk(k), tot)))
        cx.prove_eq('left distances', r.x_forward.v(k), T.sub(r.x.v(k), a.v()))
        cx.prove_eq('right distances', r.x_backward.v(k), T.sub(b.v(), r.x.v(k)))
        cx.prove('ends', T.and_(T.eq(cx.val(r.a), a.v()), T.eq(cx.val(r.b), b.v())))
        cx.assume(T.gt(gk(k), 0))
        cx.assume(T.gt(T.div(gk(k), tot), 0))
        q = z3.Real('q')
        cx.assume(q == T.div(gk(k), tot))
        cx.prove('weights are positive', T.gt(T.mul(T.sub(b.v(), a.v()), q), 0))
    return Scenario('weights', scen, loops=[LoopContract(
        NEWTON, inv, havoc={'currdiff': lambda ctx, old, env: scalar(z3.Real(ctx.fresh('cd')))})],
                    functions=['_gauss.rule_from_recurrence', '_gauss.Rule.__init__'])


def newton(cx):
    """one Newton step from every starting value (the loop body is checked at
    its first iteration: all later ones are the same function of x)"""
    g = cx.m('_gauss')
    n = cx.dim('n', 1)
    alpha, beta = cx.array('alpha', (n,)), cx.array('beta', (n,))
    cx.assume_all([n], lambda k: T.gt(beta.v(k), 0))
    a, b = interval(cx)
    xs = []

    def pvd_contract(x, al, be):
        s = handed(cx, n, alpha, beta, a, b, al, be)
        pos, res = scaled_poly(cx, n, s, x.snap())
        xs.append(pos)
        cx.assume_all([n], lambda i: T.gt(T.mul(
            DMP(n, T.z(pos((i,)))), MP(n - 1, T.z(pos((i,))))), 0))
        if len(xs) == 2:
            k = cx.idx(n)
            x0, x1 = xs[0]((k,)), xs[1]((k,))
            cx.prove_eq('Newton step', x1, T.sub(x0, T.div(MP(n, T.z(x0)), DMP(n, T.z(x0)))))
            raise PathEnd()
        return res
    cx.patch('_gauss', '_polyvalderiv', pvd_contract)
    cx.run(g.rule_from_recurrence, alpha, beta, a, b)


def negative_beta(cx):
    g = cx.m('_gauss')
    n = cx.dim('n', 2)
    alpha, beta = cx.array('alpha', (n,)), cx.array('beta', (n,))
    k = cx.idx(n - 1)
    cx.assume(T.lt(beta.v(k + 1), 0))
    cx.raises('negative recurrence coefficient', NotImplementedError, g.rule_from_recurrence,
              alpha, beta, cx.real('a'), cx.real('b'))


def collocation(given):
    def f(cx):
        g = cx.m('_gauss')
        n = cx.dim('n', 1)
        x, w = cx.array('x', (n,)), cx.array('w', (n,))
        r = cx.run(g.Rule, x, w, label='constructor')
        K = n
        if given:
            K = cx.dim('K', 1)
            C = cx.run(g.legendre_collocation, r, cx.dimval(K))
        else:
            C = cx.run(g.legendre_collocation, r)
        cx.prove_shape('one row per coefficient, one column per node', C, (K, n))
        p, k, q = cx.idx(K, 'p'), cx.idx(n, 'k'), cx.idx(K, 'q')
        el = lambda p, k: T.mul(T.add(T.to_real(lin(p)), Fr(1, 2)),
                                T.mul(w.v(k), LEG(T.z(lin(p)), T.z(x.v(k)))))
        cx.prove_elem('(p + 1/2) w_k P_p(x_k)', C.at(p, k), el(p, k))
        # inverse of evaluation, given that the rule integrates products exactly
        ort = rsum(n, lambda k: T.mul(w.v(k), T.mul(LEG(T.z(lin(p)), T.z(x.v(k))),
                                                    LEG(T.z(lin(q)), T.z(x.v(k))))))
        prod = rsum(n, lambda k: T.mul(C.v(p, k), LEG(T.z(lin(q)), T.z(x.v(k)))))
        cx.prove_eq('C V = (p + 1/2) * discrete inner product', prod,
                    T.mul(T.add(T.to_real(lin(p)), Fr(1, 2)), ort))
        o = z3.Real('ort')
        pr = T.to_real(lin(p))
        same = cx.decide(T.eq(lin(p), lin(q)))
        cx.assume(T.eq(o, T.div(2, T.add(T.mul(2, pr), 1)) if same else 0))
        cx.prove_eq('C V is the identity for exact rules', T.mul(T.add(pr, Fr(1, 2)), o),
                    1 if same else 0)
        cx.prove_eq('rule unchanged', r.w.v(k), fresh_array(cx.ctx, 'w', (n,), S.F64).v(k))
        cx.prove_eq('rule unchanged (nodes)', r.x.v(k),
                    fresh_array(cx.ctx, 'x', (n,), S.F64).v(k))
    return f


def kronrod(cx):
    """the tabulated nested rule, evaluated exactly in rational arithmetic"""
    g = cx.m('_gauss')
    r = cx.run(g.kronrod_31_15)
    F = lambda a, k: Fr(T.simp(asarr(a).v(k))) if not isinstance(asarr(a).v(k), z3.ExprRef) \
        else Fr(str(z3.simplify(asarr(a).v(k))))
    x, w = [F(r.x, k) for k in range(31)], [F(r.w, k) for k in range(31)]
    v = [F(r.v, k) for k in range(15)]
    xi = x[r.vsel]
    cx.prove_shape('31 nodes', r.x, (31,))
    cx.prove_shape('15 inner weights', r.v, (15,))
    cx.prove('every second node is an inner node', len(xi) == 15)
    cx.prove('ascending', all(p < q for p, q in zip(x, x[1:])))
    cx.prove('symmetric', all(p == -q for p, q in zip(x, x[::-1])) and w == w[::-1]
             and v == v[::-1])
    cx.prove('positive weights', min(w) > 0 and min(v) > 0)
    cx.prove('inside the interval', x[0] > -1 and x[-1] < 1)

    def moments(x, w, deg, tol):
        P0, P1 = [Fr(1)] * len(x), list(x)
        for k in range(deg + 1):
            m = sum(a * b for a, b in zip(w, P0))
            if abs(m - (2 if k == 0 else 0)) > tol:
                return False
            P0, P1 = P1, [Fr((2 * k + 3)) / (k + 2) * t * b - Fr(k + 1) / (k + 2) * a
                          for t, a, b in zip(x, P0, P1)]
        return True
    # tabulated to 16 digits
    cx.prove('outer rule integrates degree 46 and below', moments(x, w, 46, Fr(1, 10**14)))
    cx.prove('inner rule integrates degree 29 and below', moments(xi, v, 29, Fr(1, 10**14)))


SCENARIOS = [
    pvd(True), Scenario('weights-positive', wronskian, functions=['_gauss._polyvalderiv']),
    Scenario('scaling', scaling, functions=['_gauss._polyvalderiv']),
    Scenario('recurrence', recurrence, functions=['_gauss._legendre_recurrence']),
    Scenario('legendre', legendre, functions=['_gauss.legendre']),
    weights(),
    Scenario('newton-step', newton, functions=['_gauss.rule_from_recurrence']),
    Scenario('negative-beta', negative_beta, functions=['_gauss.rule_from_recurrence']),
    Scenario('collocation', collocation(False), functions=['_gauss.legendre_collocation']),
    Scenario('collocation-rows', collocation(True), functions=['_gauss.legendre_collocation']),
    Scenario('kronrod', kronrod, functions=['_gauss.kronrod_31_15', '_gauss.NestedRule.__init__'])]
ASSUMED = ["scipy.linalg.eigvalsh_tridiagonal returns starting values from which the Newton "
           "iteration converges to all roots of p_n, in ascending order (checked by the battery)",
           "Gauss' theorem: weights proportional to 1/(p_n' p_{n-1}) at the n roots of p_n, "
           "normalised to the total mass, integrate every polynomial of degree < 2n exactly",
           "a sum of positive terms is positive; products of positive numbers are positive"]
BOUNDED = ["accuracy of nodes and weights in working and extended precision for n <= 200 "
           "and n = 600, 1000 (thorough: 2000)"]
