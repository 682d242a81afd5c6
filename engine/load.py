"""Mechanical loading of /repo's current source for symbolic execution.

The source text is parsed, instrumented and compiled on every run:
  * calls of builtins that need symbolic versions (len, int, range, ...) go
    through `__sym_<name>__`, which is the builtin itself on concrete values;
  * a loop with a registered contract is cut at its invariant; other loops are
    executed as they are;
  * list/generator comprehensions over a symbolic sequence become a symbolic
    sequence;
  * `dtype.type` gives the scalar constructor working on symbolic scalars;
  * `import numpy/scipy/xprec` binds the stand-ins of this package.
Nothing else is changed and nothing is dropped except docstrings.
"""
import ast
import builtins
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'sparse_ir')
MODULES = ['_util', '_gauss', '_roots', 'kernel', 'poly', 'svd', 'sve', 'abstract', 'sampling',
           'basis', 'dlr', 'augment', 'basis_set', 'adapter']
SYM_BUILTINS = {'len', 'int', 'range', 'zip', 'map', 'list', 'tuple', 'max', 'min', 'sorted',
                'enumerate', 'sum', 'float', 'abs', 'isinstance', 'bool', 'round', 'iter',
                'super', 'complex', 'reversed', 'any', 'all'}
SYM_BUILTINS -= {'isinstance', 'super'}


class Instrument(ast.NodeTransformer):
    def __init__(self, module, loopkeys):
        self.module = module
        self.qual = []
        self.counters = []
        self.loopkeys = loopkeys
        self.seen = []
        self.shadow = [set()]

    def _func(self, node):
        self.qual.append(node.name)
        self.counters.append(0)
        args = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        for v in (node.args.vararg, node.args.kwarg):
            if v:
                args.add(v.arg)
        self.shadow.append(args)
        first = len(self.seen)
        self.generic_visit(node)
        self.shadow.pop()
        if any(k in self.loopkeys for k in self.seen[first:]):
            eager_generator(node)
        if node.args.vararg:
            va = node.args.vararg.arg
            pro = ast.Assign([ast.Name(va, ast.Store())], ast.Call(
                ast.Name('__unstar__', ast.Load()), [ast.Name(va, ast.Load())], []))
            doc = 1 if node.body and isinstance(node.body[0], ast.Expr) and \
                isinstance(node.body[0].value, ast.Constant) else 0
            node.body.insert(doc, ast.copy_location(pro, node))
        self.counters.pop()
        self.qual.pop()
        return node

    visit_FunctionDef = _func

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        self.counters.append(0)
        self.generic_visit(node)
        self.counters.pop()
        self.qual.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SYM_BUILTINS and \
                not any(f.id in s for s in self.shadow):
            node.func = ast.copy_location(ast.Name(f"__sym_{f.id}__", ast.Load()), f)
        stars = [a for a in node.args if isinstance(a, ast.Starred)]
        if len(stars) == 1 and len(node.args) == 1 and not node.keywords:
            # f(*seq): seq may be symbolic
            node = ast.Call(ast.Name('__callstar__', ast.Load()), [node.func, stars[0].value], [])
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == 'type' and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name('__sym_type__', ast.Load()),
                                              [node.value], []), node)
        return node

    def _comp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].ifs and \
                not node.generators[0].is_async:
            g = node.generators[0]
            names = g.target
            lam = ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[ast.arg('__it__')], kwonlyargs=[],
                                   kw_defaults=[], defaults=[]),
                body=node.elt)
            # bind the target through a nested one-element comprehension
            one = ast.Subscript(
                ast.ListComp(node.elt, [ast.comprehension(g.target, ast.List(
                    [ast.Name('__it__', ast.Load())], ast.Load()), [], 0)]),
                ast.Constant(0), ast.Load())
            lam.body = one
            kind = 'list' if isinstance(node, ast.ListComp) else 'gen'
            return ast.Call(ast.Name('__symcomp__', ast.Load()),
                            [ast.Constant(kind), g.iter, lam], [])
        return node

    visit_ListComp = _comp
    visit_GeneratorExp = _comp

    def key(self):
        k = (self.module, '.'.join(self.qual), self.counters[-1])
        self.counters[-1] += 1
        return k

    def visit_For(self, node):
        key = self.key() if self.counters else None
        self.seen.append(key)
        if key not in self.loopkeys:
            self.generic_visit(node)
            return node
        return self.cut(node, key, True)

    def visit_While(self, node):
        key = self.key() if self.counters else None
        self.seen.append(key)
        if key not in self.loopkeys:
            self.generic_visit(node)
            return node
        return self.cut(node, key, False)

    def cut(self, node, key, isfor):
        names = assigned(node.body)
        if isfor:
            tnames = assigned([ast.Assign([node.target], ast.Constant(0))])
        self.generic_visit(node)
        n = lambda x, c=ast.Load: ast.Name(x, c())
        call = lambda f, *a: ast.Call(n(f), list(a), [])
        kc = ast.Tuple([ast.Constant(x) for x in key], ast.Load())
        loc = call('locals')
        st = "__lp_%s_%d" % ('_'.join(self.qual), key[2])
        havoc = sorted(names)
        body = EndContinue(st).apply(node.body)
        endstmt = ast.Expr(call('__loop_end__', n(st), loc))
        pre = [ast.Assign([n(st, ast.Store)],
                          call('__loop_begin__', kc, node.iter if isfor else ast.Constant(None),
                               loc))]
        for h in havoc:
            pre.append(ast.Assign([n(h, ast.Store)],
                                  call('__loop_havoc__', n(st), ast.Constant(h))))
        pre.append(ast.Expr(call('__loop_assume__', n(st), loc)))
        if isfor:
            test = call('__loop_iter__', n(st))
            first = [ast.Assign([node.target], call('__loop_item__', n(st)))]
        else:
            test = node.test
            first = [ast.Expr(call('__loop_enter__', n(st), loc))]
        inner = ast.If(test, first + body + [endstmt], (node.orelse or []) + [ast.Break()])
        out = pre + [ast.While(ast.Constant(True), [inner], [])]
        return [ast.copy_location(ast.fix_missing_locations(o), node) for o in out]


class Yields(ast.NodeTransformer):
    """a generator whose loop is cut at its invariant builds its list eagerly"""

    def __init__(self):
        self.found = False

    def visit_FunctionDef(self, node):
        return node

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Yield):
            self.found = True
            return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(
                ast.Name('__gen__', ast.Load()), 'append', ast.Load()),
                [node.value.value or ast.Constant(None)], [])), node)
        return node

    def visit_Return(self, node):
        return ast.copy_location(ast.Return(ast.Name('__gen__', ast.Load())), node)


def has_yield(stmts):
    for s in stmts:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
            return True
    return False


def eager_generator(node):
    if not has_yield(node.body):
        return
    y = Yields()
    node.body = [ast.Assign([ast.Name('__gen__', ast.Store())], ast.Call(
        ast.Name('__symlist__', ast.Load()), [], []))] + [y.visit(b) for b in node.body] + [
        ast.Return(ast.Name('__gen__', ast.Load()))]
    ast.fix_missing_locations(node)


class EndContinue(ast.NodeTransformer):
    """`continue` of the cut loop ends the iteration"""

    def __init__(self, st):
        self.st = st

    def apply(self, body):
        return [self.visit(b) for b in body]

    def visit_For(self, node):
        return node

    visit_While = visit_For
    visit_FunctionDef = visit_For
    visit_Lambda = visit_For

    def visit_Continue(self, node):
        return ast.copy_location(ast.Expr(ast.Call(ast.Name('__loop_end__', ast.Load()), [
            ast.Name(self.st, ast.Load()),
            ast.Call(ast.Name('locals', ast.Load()), [], [])], [])), node)


def assigned(stmts):
    r = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                r.add(x.id)
            # in-place writes to an array variable
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and \
                    isinstance(x.value, ast.Name):
                r.add(x.value.id)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    isinstance(x.func.value, ast.Name) and \
                    x.func.attr in ('append', 'extend', 'insert', 'add', 'update'):
                r.add(x.func.value.id)
            if isinstance(x, ast.Yield):
                r.add('__gen__')
            if isinstance(x, ast.Call):
                for kw in x.keywords:
                    if kw.arg == 'out' and isinstance(kw.value, ast.Name):
                        r.add(kw.value.id)
    return r


class Loader:
    def __init__(self, loopkeys=(), patches=None):
        self.modules = {}
        self.loopkeys = set(loopkeys)
        self.seen_loops = []
        self.stand = {}
        self.sources = {}

    def standins(self):
        if self.stand:
            return self.stand
        from . import symnp, symscipy
        npm = symnp.get_module()
        self.stand['numpy'] = npm
        self.stand['numpy.polynomial.legendre'] = symscipy.legendre_module()
        self.stand['scipy.special'] = symscipy.special_module()
        self.stand['scipy.linalg'] = symscipy.linalg_module()
        self.stand['scipy.linalg.interpolative'] = symscipy.opaque('scipy.linalg.interpolative')
        self.stand['scipy.linalg.lapack'] = symscipy.opaque('scipy.linalg.lapack')
        return self.stand

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        st = self.standins()
        if level:
            pkg = types.SimpleNamespace()
            if name:
                m = self.load(name)
                return m
            for f in fromlist or ():
                setattr(pkg, f, self.load(f))
            return pkg
        top = name.split('.')[0]
        if top in ('xprec',):
            raise ImportError(name)
        if name.startswith('numpy._core'):
            return builtins.__import__(name, globals, locals, fromlist, level)
        if top in ('numpy', 'scipy'):
            if name in st:
                m = st[name]
                if '.' in name and not fromlist:
                    # import numpy.polynomial.legendre as x  -> attribute walk
                    return _Pkg(name, m, st.get('numpy') if top == 'numpy' else None)
                return m
            raise ImportError(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, mod):
        if mod in self.modules:
            return self.modules[mod]
        path = os.path.join(SRC, mod + '.py')
        with open(path) as f:
            text = f.read()
        self.sources[mod] = text
        tree = ast.parse(text, path)
        ins = Instrument(mod, self.loopkeys)
        tree = ins.visit(tree)
        self.seen_loops += ins.seen
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec')
        m = types.ModuleType('sparse_ir.' + mod)
        m.__file__ = path
        from . import runtime
        b = dict(builtins.__dict__)
        b['__import__'] = self._import
        m.__dict__['__builtins__'] = b
        m.__dict__.update(runtime.HOOKS)
        self.modules[mod] = m
        exec(code, m.__dict__)
        return m


class _Pkg:
    """`import a.b.c as x` evaluates x = a.b.c by attribute walk"""

    def __init__(self, name, leaf, base):
        self._base = base
        parts = name.split('.')[1:]
        cur = self
        for p in parts[:-1]:
            nxt = types.SimpleNamespace()
            object.__setattr__(cur, p, nxt) if cur is self else setattr(cur, p, nxt)
            cur = nxt
        setattr(cur, parts[-1], leaf)

    def __getattr__(self, n):
        if n.startswith('_') or self.__dict__.get('_base') is None:
            raise AttributeError(n)
        return getattr(self._base, n)
