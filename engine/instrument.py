"""Mechanical transformation of the package under verification.

Every brainstorm module is read from /repo's working tree on each run and compiled with one change: a `for` statement
inside a function becomes a call  __rt__.for_(iterable, body_closure, ...)  so that a loop over a symbolic range can be
executed by the loop rule; `a if c else b` with call-free branches becomes __rt__.ifexp(c, lambda: a, lambda: b), which
gives the case expression when c is symbolic and both values are numbers.  `while` statements become
__rt__.while_(test, body_closure, ...) in the same way; a comprehension becomes __rt__.comp(kind, iterable, condition, element),
`x in c` becomes __rt__.in_(x, c), displays and calls of list/set/dict/sorted/... become __rt__.display(kind, value) and
__rt__.call(list, ...), which do what Python does unless collections of unknown size (engine/sets.py) are involved; a loop whose body contains `yield` keeps its form and iterates over
__rt__.giter(iterable), and a generator function returns an iterator that can be started again.  Loops at module level stay as they are.  The names
int/float/range/len/min/max/sum/abs/round and np are looked up in shadows that fall through to the originals on
concrete values.  Nothing is dropped."""
import ast, sys, os, types, importlib.abc, importlib.machinery, importlib.util
from . import rt

REPO = os.environ.get('VERIF_REPO', '/repo')


class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = set(); self.globals = set(); self.has_yield = False; self.has_return = False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_AsyncFunctionDef(self, n):
        self.names.add(n.name)

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        for g in n.generators:
            self.visit(g.iter)     # walrus etc. not used here
    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import

    def visit_Global(self, n):
        self.globals |= set(n.names)

    def visit_Nonlocal(self, n):
        self.globals |= set(n.names)

    def visit_Yield(self, n):
        self.has_yield = True; self.generic_visit(n)
    visit_YieldFrom = visit_Yield

    def visit_Return(self, n):
        self.has_return = True; self.generic_visit(n)


class _BodyRewrite(ast.NodeTransformer):
    """continue/break/return of the loop that became a closure"""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n
    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_While(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n
    visit_For = visit_While

    def visit_Continue(self, n):
        return n if self.depth else ast.copy_location(ast.Return(value=ast.Constant(None)), n)

    def visit_Break(self, n):
        return n if self.depth else ast.copy_location(ast.Return(value=_rt('BREAK')), n)

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(value=ast.Call(_rt('Ret'), [n.value or ast.Constant(None)], [])), n)


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def _rt(name):
    return ast.Attribute(ast.Name('__rt__', ast.Load()), name, ast.Load())


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.fn = None

    def visit_FunctionDef(self, node):
        outer = self.fn
        a = _Assigned()
        for s in node.body:
            a.visit(s)
        params = {x.arg for x in node.args.args + node.args.kwonlyargs + getattr(node.args, 'posonlyargs', [])}
        for v in (node.args.vararg, node.args.kwarg):
            if v:
                params.add(v.arg)
        self.fn = dict(globals=a.globals, params=params, init=set())
        node.body = [x for s in node.body for x in _list(self.visit(s))]
        init = sorted(self.fn['init'] - params - a.globals)
        if init:
            st = ast.Assign([ast.Name(n, ast.Store()) for n in init], _rt('UNBOUND'))
            i = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str) else 0
            node.body.insert(i, st)
        y = _Assigned()
        for s in node.body:
            for c in ast.iter_child_nodes(s) if False else [s]:
                y.visit(c)
        if y.has_yield:
            node.decorator_list = node.decorator_list + [_rt('gen')]
        self.fn = outer
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if any(isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda)) for b in (node.body, node.orelse) for x in ast.walk(b)):
            return node
        none = lambda: ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        return ast.copy_location(ast.Call(_rt('ifexp'), [node.test, ast.Lambda(none(), node.body), ast.Lambda(none(), node.orelse)], []), node)

    CALLS = {'list', 'set', 'dict', 'sorted', 'reversed', 'tuple', 'frozenset', 'isinstance', 'any', 'all', 'zip', 'iter', 'next', 'str', 'min', 'max', 'sum'}

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.func, ast.Name) and node.func.id in self.CALLS and node.func.id not in self.fn['params']:
            return ast.copy_location(ast.Call(_rt('call'), [node.func] + node.args, node.keywords), node)
        if self.fn is not None and isinstance(node.func, ast.Attribute) and node.func.attr == 'format' and isinstance(node.func.value, ast.Constant) and isinstance(node.func.value.value, str) and not any(isinstance(x, ast.Starred) for x in node.args) and not node.keywords:
            return ast.copy_location(ast.Call(_rt('format_'), [node.func.value] + node.args, []), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        vs = node.values
        if self.fn is None or not any(isinstance(v, ast.FormattedValue) for v in vs) or any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec) for v in vs):
            return node
        template = ''.join('{}' if isinstance(v, ast.FormattedValue) else v.value.replace('{', '{{').replace('}', '}}') for v in vs)
        return ast.copy_location(ast.Call(_rt('format_'), [ast.Constant(template)] + [v.value for v in vs if isinstance(v, ast.FormattedValue)], []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.fn is not None and isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(_rt('mod_'), [node.left, node.right], []), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.fn is not None and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(_rt('in_'), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if self.fn is None or not isinstance(node.ctx, ast.Load) or any(isinstance(x, ast.Starred) for x in node.elts):
            return node
        return ast.copy_location(ast.Call(_rt('display'), [ast.Constant('list'), node], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if self.fn is None:
            return node
        return ast.copy_location(ast.Call(_rt('display'), [ast.Constant('set'), ast.List(node.elts, ast.Load())], []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.fn is None or None in node.keys:
            return node
        if node.keys:
            pairs = ast.Tuple([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())
            return ast.copy_location(ast.Call(_rt('pairs'), [pairs], []), node)
        return ast.copy_location(ast.Call(_rt('display'), [ast.Constant('dict'), node], []), node)

    def _comp(self, kind, node, elts):
        if self.fn is None or any(g.is_async for g in node.generators) or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(node)):
            self.generic_visit(node)
            return node
        if any(isinstance(x, ast.Name) and x.id in ('locals', '__class__', 'super') for x in ast.walk(node)):
            self.generic_visit(node)
            return node
        elts = [self.visit(e) for e in elts]
        gens = [(g.target, self.visit(g.iter), [self.visit(c) for c in g.ifs]) for g in node.generators]

        def target_lambda(target, body):
            if isinstance(target, ast.Name):
                return ast.Lambda(_args([target.id]), body)
            if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, (ast.Name, ast.Tuple, ast.List)) for e in target.elts):
                names, wrap = [], body
                for e in target.elts:
                    if isinstance(e, ast.Name):
                        names.append(e.id)
                    else:
                        self.k += 1
                        names.append('__t_%d' % self.k)
                        wrap = ast.Call(target_lambda(e, wrap), [ast.Name(names[-1], ast.Load())], [])
                self.k += 1
                x = '__t_%d' % self.k
                return \
                    ast.Lambda(_args([x]), ast.Call(ast.Lambda(_args(names), wrap), [ast.Starred(ast.Call(_rt('unpack'), [ast.Name(x, ast.Load()), ast.Constant(len(names))], []), ast.Load())], []))
            return None

        def build(i, top):
            target, it, ifs = gens[i]
            cond = None
            if ifs:
                cond = ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), ifs)
                cond = target_lambda(target, cond)
            if i == len(gens) - 1:
                e = elts[0] if len(elts) == 1 else ast.Tuple(elts, ast.Load())
                k = kind if i == 0 else 'gen'
                fn = target_lambda(target, e)
            else:
                k = 'flat' + kind if i == 0 else 'flatgen'
                fn = target_lambda(target, build(i + 1, False))
            if fn is None:
                return None
            return ast.Call(_rt('comp'), [ast.Constant(k), it, cond or ast.Constant(None), fn], [])
        r = build(0, True)
        if r is None:
            return node
        return ast.copy_location(r, node)

    def visit_ListComp(self, node):
        return self._comp('list', node, [node.elt])

    def visit_SetComp(self, node):
        return self._comp('set', node, [node.elt])

    def visit_GeneratorExp(self, node):
        return self._comp('gen', node, [node.elt])

    def visit_DictComp(self, node):
        return self._comp('dict', node, [node.key, node.value])

    def visit_ClassDef(self, node):
        outer, self.fn = self.fn, None
        self.generic_visit(node)
        self.fn = outer
        return node

    def visit_For(self, node):
        a = _Assigned()
        for s in node.body + [node.target]:
            a.visit(s)
        if self.fn is None or a.has_yield:
            self.generic_visit(node)
            if self.fn is not None:
                node.iter = ast.copy_location(ast.Call(_rt('giter'), [node.iter], []), node.iter)
            return node
        return self.closure(node, a)

    def visit_While(self, node):
        a = _Assigned()
        for s in node.body:
            a.visit(s)
        t = _Assigned(); t.visit(node.test)
        if self.fn is None or a.has_yield or t.names or t.has_yield:
            self.generic_visit(node)
            return node
        return self.closure(node, a)

    def closure(self, node, a):
        loop = isinstance(node, ast.For)
        has_ret = a.has_return
        names = sorted(a.names - self.fn['globals'])
        self.fn['init'] |= set(names)
        body = [x for s in node.body for x in _list(self.visit(s))]
        br = _BodyRewrite()
        # inner (already transformed) loops return through Ret themselves; see below
        body = [x for s in body for x in _list(br.visit(s))]
        self.k += 1
        fn = '__body_%d' % self.k
        res = '__res_%d' % self.k
        inner = []
        if names:
            inner.append(ast.Nonlocal(list(names)))
        if loop:
            inner.append(ast.Assign([node.target], ast.Name('__x', ast.Load())))
        f = ast.FunctionDef(fn, ast.arguments(posonlyargs=[], args=[ast.arg('__x')], kwonlyargs=[], kw_defaults=[], defaults=[]), inner + body, [], type_params=[])
        put = '__put_%d' % self.k
        pbody = ([ast.Nonlocal(list(names))] if names else []) + ([ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], ast.Name('__v', ast.Load()))] if names else [ast.Pass()])
        g = ast.FunctionDef(put, ast.arguments(posonlyargs=[], args=[ast.arg('__v')], kwonlyargs=[], kw_defaults=[], defaults=[]), pbody, [], type_params=[])
        get = ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), ast.Tuple([ast.Name(n, ast.Load()) for n in names], ast.Load()))
        subject = self.visit(node.iter) if loop else ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), self.visit(node.test))
        call = ast.Call(_rt('for_' if loop else 'while_'), [subject, ast.Name(fn, ast.Load()), ast.Tuple([ast.Constant(n) for n in names], ast.Load()), get, ast.Name(put, ast.Load())], [])
        out = [f, g, ast.Assign([ast.Name(res, ast.Store())], call)]
        if has_ret:
            out.append(ast.If(ast.Call(ast.Name('isinstance', ast.Load()), [ast.Name(res, ast.Load()), _rt('Ret')], []),
                              [_Keep(ast.Return(value=ast.Attribute(ast.Name(res, ast.Load()), 'value', ast.Load())))], []))
        if node.orelse:
            oe = [x for s in node.orelse for x in _list(self.visit(s))]
            out.append(ast.If(ast.Compare(ast.Name(res, ast.Load()), [ast.IsNot()], [_rt('BREAK')]), oe, []))
        for o in out:
            ast.copy_location(o, node)
        return out


def _Keep(n):
    return n


def _list(x):
    return x if isinstance(x, list) else ([] if x is None else [x])


def transform_source(src, filename):
    tree = ast.parse(src, filename)
    tree = Transform().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        src = open(self.path, encoding='utf-8').read()
        code = compile(transform_source(src, self.path), self.path, 'exec')
        d = module.__dict__
        d['__rt__'] = rt
        exec(code, d)
        shadow(module)


def shadow(module):
    d = module.__dict__
    for k, v in rt.SHADOW.items():
        if k not in d:
            d[k] = v
    from . import npx
    import numpy
    if d.get('np') is numpy:
        d['np'] = npx.proxy


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'brainstorm' and not name.startswith('brainstorm.'):
            return None
        if name == 'brainstorm.handlers._cpuop':
            from . import pyxload
            return importlib.util.spec_from_loader(name, pyxload.PyxLoader(os.path.join(REPO, 'brainstorm/handlers/_cpuop.pyx')))
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return importlib.util.spec_from_file_location(name, f, loader=Loader(f, True), submodule_search_locations=[p])
        if os.path.exists(p + '.py'):
            return importlib.util.spec_from_file_location(name, p + '.py', loader=Loader(p + '.py', False))
        return None


def install():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        for k in [k for k in sys.modules if k == 'brainstorm' or k.startswith('brainstorm.')]:
            del sys.modules[k]
        sys.meta_path.insert(0, Finder())
