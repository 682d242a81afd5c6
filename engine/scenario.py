"""Scenarios: a contract is a Python function that builds symbolic inputs,
runs the real code on them and states what must hold afterwards.  Every path
through the code is explored; each obligation is discharged on each path."""
import os
import time
import traceback
import z3
import numpy as np

from . import terms as T
from . import symarr as S
from . import runtime
from .terms import Unsupported, Cx
from .symarr import (E, Ctx, SArr, SymSeq, mk, scalar, factors, dexpr, Flat, Part, PathEnd,
                     asarr, wdb, lin, DimProd, DimSum, BOOL)
from .prover import Prover, EqGoal, is_quant

ENGINE_DIR = os.path.dirname(os.path.abspath(__file__))
KIND = {'f': S.F64, 'c': S.C128, 'i': S.INT64, 'b': S.BOOL}


def flat_args(idx, shape):
    """integer arguments of an uninterpreted array"""
    out = []
    from .indexing import comps
    for i, d in zip(idx, shape):
        fs = factors(d)
        if isinstance(d, DimSum):
            out.append(lin(i))
        elif len(fs) > 1:
            out += [lin(c) for c in comps(i, fs)]
        elif not fs:
            continue
        else:
            out.append(lin(i))
    return [T.z(a) for a in out]


def fresh_array(ctx, name, shape, dtype, scalar=False, nan=False):
    """array of arbitrary elements; every complex array is a pair of real
    functions `name:re`, `name:im`"""
    dtype = np.dtype(dtype)
    shape = tuple(shape)

    def app(nm, sort, args):
        if not args:
            return z3.Const(nm, sort)
        return T.fn(nm, *([T.IS] * len(args)), sort)(*args)

    def fn(ix):
        a = flat_args(ix, shape)
        if dtype.kind == 'c':
            v = Cx(app(name + ':re', T.RS, a), app(name + ':im', T.RS, a))
        elif dtype.kind == 'f':
            v = app(name, T.RS, a)
        elif dtype.kind in 'iu':
            v = app(name, T.IS, a)
        elif dtype.kind == 'b':
            v = app(name, T.BS, a)
        else:
            raise Unsupported(f"fresh array of {dtype}")
        nn = app(name + ':nan', T.BS, a) if nan else False
        return E(v, True, nn)
    r = mk(fn, shape, dtype)
    r._is_scalar = scalar and not shape
    r._uf = name
    return r


class Outcome:
    """result of calling the code: a value or an exception"""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types or Exception)


def from_engine(exc):
    """did the exception originate in the verifier rather than the code?"""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return True
    fname = last.tb_frame.f_code.co_filename
    if fname.startswith(ENGINE_DIR):
        # an explicit `raise` models the error of the library function
        import linecache
        line = linecache.getline(fname, last.tb_lineno)
        return 'raise' not in line
    return False


class Cxt:
    """what a scenario sees"""

    def __init__(self, ctx, loader, mods):
        self.ctx, self.loader, self.m = ctx, loader, mods
        self.saved = []

    # ---- symbolic inputs
    def dim(self, name, lo=0, hi=None):
        v = z3.Int(name)
        self.ctx.fact(v >= lo)
        if hi is not None:
            self.ctx.fact(v <= hi)
        return v

    def dimval(self, d):
        """dimension as a value to pass to the code"""
        return S.dim_scalar(d) if not isinstance(d, int) else d

    def array(self, name, shape, kind='f', nan=False):
        return fresh_array(self.ctx, name, shape, KIND[kind], nan=nan)

    def real(self, name):
        return fresh_array(self.ctx, name, (), S.F64, scalar=True)

    def int(self, name):
        return fresh_array(self.ctx, name, (), S.INT64, scalar=True)

    def cplx(self, name):
        return fresh_array(self.ctx, name, (), S.C128, scalar=True)

    def scalar(self, v):
        return scalar(v)

    def scalar_in(self, name, kind='f'):
        """scalar argument of the given kind"""
        return fresh_array(self.ctx, name, (), KIND[kind], scalar=True)

    def fnarray(self, shape, f, kind='f'):
        """array given by an index function returning scalars"""
        return mk(lambda ix: E(f(*ix)), tuple(shape), KIND[kind])

    # ---- assumptions
    def assume(self, f):
        self.ctx.fact(f)

    def assume_all(self, dims, f):
        """forall indices: f(*idx) (f returns a scalar Bool)"""
        self.ctx.fact(self.ctx.close(list(dims), lambda ix: f(*ix), 'all'))

    def idx(self, dim, base='i'):
        """arbitrary index in range"""
        i = self.ctx.fresh_idx(dim, base)
        c = self.ctx.in_range(i, dim)
        self.ctx.fact(c)
        return i

    def unify(self, *consts):
        """let the equation prover identify integer terms with these"""
        self.ctx.unify = list(getattr(self.ctx, 'unify', ())) + list(consts)

    def rewrite(self, a, b):
        """let the equation prover use a = b (entailed) from left to right"""
        a, b = T.z(a), T.z(b)
        if not self.ctx.entails(a == b):
            raise Unsupported(f"rewriting by an equation that is not known: {a} = {b}")
        # the same term as sums and simplification spell it
        forms = [a, z3.simplify(a)]
        if a.num_args() == 1 and z3.is_add(a.arg(0)) and a.arg(0).num_args() == 2:
            x, y = a.arg(0).children()
            forms += [a.decl()(y + x), a.decl()(x + y)]
        self.ctx.rewrites = list(getattr(self.ctx, 'rewrites', ())) + [(f, b) for f in forms]

    def at(self, arr, *idx):
        arr = asarr(arr)
        return arr.at(*idx)

    def val(self, x, *idx):
        """element value; scalars pass through"""
        if isinstance(x, SArr):
            return x.at(*idx).val
        return T.lift_const(x) if not isinstance(x, (z3.ExprRef, Cx)) else x

    # ---- running the code
    def call(self, f, *a, **k):
        try:
            return Outcome(value=f(*a, **k))
        except Unsupported:
            raise
        except (z3.Z3Exception, AssertionError, NameError, RecursionError) as e:
            raise Unsupported(f"engine: {type(e).__name__}: {e}") from e
        except Exception as e:
            if from_engine(e):
                raise Unsupported(
                    f"engine: {type(e).__name__}: {e} [" +
                    traceback.format_exc().strip().splitlines()[-3].strip()[:200] + "]") from e
            return Outcome(exc=e)

    def run(self, f, *a, label='call completes', **k):
        """call that must not raise"""
        o = self.call(f, *a, **k)
        if o.exc is not None:
            tb = traceback.extract_tb(o.exc.__traceback__)
            loc = [t for t in tb if '/sparse_ir/' in t.filename]
            where = f"{os.path.basename(loc[-1].filename)}:{loc[-1].name}" if loc else '?'
            self.prove(f"{label}: no {type(o.exc).__name__} (in {where})", False)
            raise PathEnd()
        return o.value

    def raises(self, label, exc, f, *a, **k):
        """call that must raise one of the given exceptions"""
        o = self.call(f, *a, **k)
        if o.exc is None:
            self.prove(f"{label}: raises", False)
            raise PathEnd()
        self.prove(f"{label}: raises the documented exception", isinstance(o.exc, exc))

    def patch(self, mod, name, value):
        """use a contract instead of the body of `name` in this scenario"""
        obj = self.m(mod) if isinstance(mod, str) else mod
        missing = object()
        self.saved.append((obj, name, obj.__dict__.get(name, missing), missing))
        if name not in obj.__dict__:
            raise Unsupported(f"{mod}.{name} not found")
        setattr(obj, name, value)

    def restore(self):
        for obj, name, old, missing in reversed(self.saved):
            if old is not missing:
                setattr(obj, name, old)
        self.saved = []

    def decide(self, f):
        return self.ctx.branch(f)

    def increasing_sums(self, facts=lambda j: True):
        """every cumulative sum formed so far has positive, finite increments
        (obligation), hence is positive and strictly increasing (induction)"""
        from . import sums
        for n in range(len(self.ctx.cumsums)):
            d, prem, concl = sums.increasing(self.ctx, n)
            j = self.idx(d, 'inc')
            self.assume(facts(j))
            wd, pos = prem(j)
            a = self.prove('increments of the cumulative sum are finite', wd)
            b = self.prove('increments of the cumulative sum are positive', pos)
            if a and b:
                self.assume(concl)

    def telescope(self, *cands):
        """cumulative sums of differences: if f(j) = g(j+1) - g(j) for all j (checked
        for each cumulative sum and candidate g), then sum_{j<=i} f(j) = g(i+1) - g(0)
        (induction)"""
        from . import sums
        from .prover import EqGoal
        for f, d, val, wd in list(self.ctx.cumsums):
            for g in cands:
                j = self.ctx.fresh_idx(d, 't')
                rng = self.ctx.in_range(j, d)
                e = f((j,))
                step = T.sub(g(T.add(lin(j), 1)), g(j))
                hy = self.ctx.hyps() + [T.z(rng)]
                if self.ctx.prover.prove_eq(hy, e.val, step, self.ctx, 3000)[0] == 'proved':
                    i = self.ctx.fresh_idx(d, 't')
                    self.ctx.fact(self.ctx.forall([i], T.implies(
                        self.ctx.in_range(i, d),
                        T.eq(val(lin(i)).val, T.sub(g(T.add(lin(i), 1)), g(0))))))
                    break

    def match_masks(self, shifts=(0, 1, 2, -1, -2)):
        """two increasing enumerations whose sets differ by a shift (entailed)
        correspond element by element (uniqueness of the enumeration)"""
        ctx = self.ctx
        ms = [v[0] for v in ctx.maskcache.values()]
        done = ctx.__dict__.setdefault('matched', set())
        for x in range(len(ms)):
            for y in range(x + 1, len(ms)):
                a, b = ms[x], ms[y]
                if (id(a), id(b)) in done:
                    continue
                done.add((id(a), id(b)))
                na, nb = T.z(dexpr(a.dim)), T.z(dexpr(b.dim))
                for s in shifts:
                    i = z3.Int('mm_i')
                    ina = lambda i: z3.And(0 <= i, i < na, T.z(a.mask(i)))
                    inb = lambda i: z3.And(0 <= i, i < nb, T.z(b.mask(i)))
                    pr = self.ctx.prover
                    hy = [h for h in ctx.hyps() if not is_quant(h)]

                    def ent(f, extra=()):
                        return pr._solve(hy + list(extra) + [z3.Not(z3.simplify(f))], 400,
                                         ax=False) == 'unsat'
                    if s == 0 and ent(na == nb) and ent(
                            T.z(a.mask(i)) != T.z(b.mask(i)), [0 <= i, i < na]):
                        ctx.fact(T.eq(T.add(a.count, b.count), na))
                        break
                    if ent(ina(i) == inb(i + s)):
                        k = z3.Int('mm_k')
                        ctx.fact(T.eq(a.count, b.count))
                        ctx.fact(z3.ForAll([k], z3.Implies(
                            z3.And(0 <= k, k < T.z(a.count)),
                            b.posf(k) == a.posf(k) + s), patterns=[a.posf(k)]))
                        ctx.fact(z3.ForAll([k], z3.Implies(
                            z3.And(0 <= k, k < T.z(a.count)),
                            b.posf(k) == a.posf(k) + s), patterns=[b.posf(k)]))
                        ctx.fact(z3.ForAll([i], z3.Implies(
                            ina(i), b.rankf(i + s) == a.rankf(i)), patterns=[a.rankf(i)]))
                        break

    def sorts(self):
        """(permutation, inverse) of every sort performed so far"""
        return [v[0] for v in self.ctx.__dict__.get('sortcache', {}).values()]

    # ---- obligations
    def prove(self, label, f):
        if isinstance(f, SArr):
            f = f.scalar().val
        return self.ctx.prover.obligation(self.ctx, label, f)

    def prove_eq(self, label, a, b):
        a = a.scalar().val if isinstance(a, SArr) else a
        b = b.scalar().val if isinstance(b, SArr) else b
        return self.prove(label, EqGoal(a, b))

    def prove_elem(self, label, e, spec, wd=True):
        """element equals spec and is a well-defined finite number"""
        if wd:
            self.prove(label + " (defined)", T.and_(wdb(e.wd), T.not_(e.nan)))
        return self.prove(label, EqGoal(e.val, spec))

    def prove_shape(self, label, arr, shape):
        arr = asarr(arr)
        if len(arr._shape) != len(shape):
            return self.prove(f"{label}: number of axes", False)
        ok = True
        for k, (a, b) in enumerate(zip(arr._shape, shape)):
            ok &= bool(self.prove(f"{label}: axis {k}", T.eq(dexpr(a), dexpr(b))))
        return ok


class Scenario:
    def __init__(self, name, fn, loops=(), functions=(), max_paths=400, timeout=None):
        self.name, self.fn = name, fn
        self.loops = list(loops)
        self.functions = list(functions)
        self.max_paths = max_paths
        self.timeout = timeout


class Result:
    def __init__(self):
        self.obls = []
        self.undecided = []        # (scenario, reason)
        self.paths = 0
        self.truncated = []
        self.solver_time = 0.0
        self.queries = 0
        self.lines = 0


def run_scenario(sc, loader, prover, res, deadline=None):
    from . import symnp
    prover.scenario = sc.name
    todo = [[]]
    n = 0
    t0 = time.time()
    feasible_end = 0
    while todo:
        prefix = todo.pop()
        n += 1
        if n > sc.max_paths:
            res.undecided.append((sc.name, f"more than {sc.max_paths} paths"))
            break
        if deadline is not None and time.time() > deadline:
            res.undecided.append((sc.name, "time budget used up"))
            break
        ctx = Ctx(prefix, prover)
        S.Ctx.cur = ctx
        runtime.LOOPS.clear()
        for lc in sc.loops:
            runtime.LOOPS[lc.key] = lc
        cxt = Cxt(ctx, loader, loader.load)
        try:
            try:
                sc.fn(cxt)
            except PathEnd:
                pass
            if feasible_end < 2:
                # vacuity: the assumptions of this path must not be contradictory
                if prover.feasible(ctx.hyps(), 2500) != 'unsat':
                    feasible_end += 1
        except Unsupported as e:
            res.undecided.append((sc.name, str(e)[:400]))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        except Exception as e:                      # contract code broke on this source
            res.undecided.append((sc.name, f"contract: {type(e).__name__}: {e}"[:400]))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        finally:
            cxt.restore()
            S.Ctx.cur = None
        if res.undecided and res.undecided[-1][0] == sc.name and len(
                [u for u in res.undecided if u[0] == sc.name]) > 5:
            break
        todo += ctx.alts
    if not feasible_end and not [u for u in res.undecided if u[0] == sc.name]:
        res.undecided.append((sc.name, 'vacuous: contradictory assumptions'))
    res.paths += n
    return res
