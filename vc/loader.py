"""Loads the source of /repo/machup (and contract files) for symbolic execution.

The text that is verified is the text in /repo: it is parsed on every run and
rewritten mechanically, construct by construct:

  float literal            exact rational with the literal's decimal value
  a / b, a /= b            exact division
  a ** b                   exact power
  for ... in X: S          unchanged when X is a concrete iterable; otherwise the
                           body S is executed once for an arbitrary iteration
  while C: S               unchanged when every test is decided; otherwise a cut point
  [f(x) for x in X]        as the for loop
  [a, b]                   a list that can also carry a symbolic tail

Nothing is dropped; docstrings and print calls have no effect.
"""
import ast
import os
import sys
import types
from fractions import Fraction
from . import terms as tm
from .terms import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')


class Names(ast.NodeVisitor):
    """Names bound / read in a statement list, not entering nested scopes."""

    def __init__(self):
        self.bound = []
        self.read = []
        self.has_yield = False
        self.globals = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.read.append(n.id)
        else:
            self.bound.append(n.id)

    def visit_FunctionDef(self, n):
        self.bound.append(n.name)

    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        v = Names()
        v.visit(n.body)
        self.read += v.read

    def visit_comp(self, n):
        v = Names()
        for g in n.generators:
            v.visit(g)
        for f in ('elt', 'key', 'value'):
            if hasattr(n, f):
                v.visit(getattr(n, f))
        self.read += [x for x in v.read if x not in v.bound]

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_comp

    def visit_Yield(self, n):
        self.has_yield = True

    visit_YieldFrom = visit_Yield

    def visit_Global(self, n):
        self.globals |= set(n.names)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bound.append(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.bound.append((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import


def names(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return v


def uniq(l):
    return list(dict.fromkeys(l))


class Xform(ast.NodeTransformer):
    def __init__(self, fname):
        self.consts = []
        self.n = 0
        self.fname = fname
        self.scopes = []      # stack of sets of local names (functions only)

    def call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            self.consts.append(tm.frac(n.value))
            return ast.copy_location(ast.Subscript(ast.Name('__consts__', ast.Load()),
                                                   ast.Constant(len(self.consts) - 1), ast.Load()), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(self.call('__div__', n.left, n.right), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(self.call('__pow__', n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            n.value = self.call('__fr__', n.value)
        if isinstance(n.op, ast.Pow):
            load = ast.parse(ast.unparse(n.target), mode='eval').body
            return ast.copy_location(ast.Assign([n.target], self.call('__pow__', load, n.value)), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(self.call('__list__', n), n)
        return n

    def visit_ListComp(self, n):
        if len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name):
            g = n.generators[0]
            it = self.visit(g.iter)
            elt = self.visit(n.elt)
            fn = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), elt)
            return ast.copy_location(self.call('__comp__', it, fn), n)
        self.generic_visit(n)
        return ast.copy_location(self.call('__list__', n), n)

    def visit_FunctionDef(self, n):
        args = n.args
        loc = set(a.arg for a in args.args + args.kwonlyargs + args.posonlyargs)
        for a in (args.vararg, args.kwarg):
            if a:
                loc.add(a.arg)
        v = names(n.body)
        loc |= set(v.bound)
        loc -= v.globals
        self.scopes.append(None if v.has_yield else loc)
        self.generic_visit(n)
        self.scopes.pop()
        return n

    def visit_Lambda(self, n):
        self.scopes.append(None)
        self.generic_visit(n)
        self.scopes.pop()
        return n

    def visit_ClassDef(self, n):
        self.scopes.append(None)
        self.generic_visit(n)
        self.scopes.pop()
        return n

    def uid(self):
        self.n += 1
        return self.n

    def accessors(self, u, stmts, extra, loc):
        """get/set closures over the local names the loop touches."""
        v = names(stmts)
        bound = uniq([x for x in v.bound + extra if x in loc])
        read = uniq([x for x in v.read if x in loc and x not in bound])
        gl = []
        for x in bound + read:
            gl += ast.parse('try:\n    __d[%r] = %s\nexcept NameError: pass' % (x, x)).body
        getf = ast.parse('def __get_%d(): pass' % u).body[0]
        getf.body = ast.parse('__d = {}').body + gl + ast.parse('return __d').body
        if not ast.unparse(getf):
            pass
        setf = ast.parse('def __set_%d(__n, __v): pass' % u).body[0]
        body = []
        if bound:
            body.append(ast.Nonlocal(bound))
        for x in bound:
            body += ast.parse('if __n == %r: %s = __v; return' % (x, x)).body
        body.append(ast.Pass())
        setf.body = body
        delf = ast.parse('def __del_%d(__n): pass' % u).body[0]
        body = []
        if bound:
            body.append(ast.Nonlocal(list(bound)))
        for x in bound:
            body += ast.parse('if __n == %r:\n    try: del %s\n    except NameError: pass\n    return' % (x, x)).body
        body.append(ast.Pass())
        delf.body = body
        return bound, getf, setf, delf

    def body_fn(self, name, arg, bound, pre, stmts):
        f = ast.parse('def %s(%s): pass' % (name, arg)).body[0]
        f.body = ([ast.Nonlocal(list(bound))] if bound else []) + pre + _Ctl().run(stmts) + ast.parse("return ('next', None)").body
        return f

    def visit_For(self, n):
        loc = self.scopes[-1] if self.scopes else None
        if loc is None or n.orelse:
            self.generic_visit(n)
            return n
        src = n
        plain = self.generic_visit(_copy(n))
        u = self.uid()
        it = '__it_%d' % u
        loc.add(it)
        loc.add('__st_%d' % u)
        tgt = names([ast.Assign([src.target], ast.Constant(0))]).bound
        bound, getf, setf, delf = self.accessors(u, src.body, tgt, loc)
        stmts = [self.visit(_copy(s)) for s in src.body]
        stmts = _flat(stmts)
        bodyf = self.body_fn('__body_%d' % u, '__item', bound,
                             [ast.Assign([_copy(src.target)], ast.Name('__item', ast.Load()))], stmts)
        sym = [bodyf, getf, setf, delf] + ast.parse(
            '__st_%d = __symloop__(__it_%d, __body_%d, __get_%d, __set_%d, __del_%d, %r, %r)\n'
            "if __st_%d is not None and __st_%d[0] == 'return': return __st_%d[1]" % (
                u, u, u, u, u, u, bound, '%s:%d' % (self.fname, n.lineno), u, u, u)).body
        plain.iter = ast.Name(it, ast.Load())
        itexpr = self.visit(_copy(src.iter))
        res = [ast.Assign([ast.Name(it, ast.Store())], itexpr),
               ast.If(self.call('__issym__', ast.Name(it, ast.Load())), sym, [plain])]
        return [ast.copy_location(x, n) for x in res]

    def visit_While(self, n):
        loc = self.scopes[-1] if self.scopes else None
        if loc is None or n.orelse:
            self.generic_visit(n)
            return n
        u = self.uid()
        loc.add('__st_%d' % u)
        bound, getf, setf, delf = self.accessors(u, n.body + [ast.Expr(n.test)], [], loc)
        stmts = _flat([self.visit(_copy(s)) for s in n.body])
        bodyf = self.body_fn('__body_%d' % u, '__item', bound, [], stmts)
        testf = ast.parse('def __test_%d(): pass' % u).body[0]
        testf.body = [ast.Return(self.visit(_copy(n.test)))]
        sym = [bodyf, testf, getf, setf, delf] + ast.parse(
            '__st_%d = __while__(__test_%d, __body_%d, __get_%d, __set_%d, __del_%d, %r, %r, %r)\n'
            "if __st_%d is not None and __st_%d[0] == 'return': return __st_%d[1]" % (
                u, u, u, u, u, u, bound, '%s:%d' % (self.fname, n.lineno), isinstance(n.test, ast.Constant), u, u, u)).body
        keep = ast.If(ast.Constant(False), [ast.While(ast.Constant(False), [ast.Pass()], [])] + [
            ast.Assign([ast.Name(x, ast.Store())], ast.Constant(None)) for x in bound], [])
        return [ast.copy_location(x, n) for x in [keep] + sym]


def _copy(n):
    import copy
    return copy.deepcopy(n)


def _flat(l):
    out = []
    for x in l:
        if isinstance(x, list):
            out += x
        elif x is not None:
            out.append(x)
    return out


class _Ctl(ast.NodeTransformer):
    """break / continue / return of a loop body turned into status values."""

    def __init__(self):
        self.depth = 0

    def run(self, stmts):
        return _flat([self.visit(_copy(s)) for s in stmts])

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def loop(self, n):
        self.depth += 1
        n.body = _flat([self.visit(s) for s in n.body])
        self.depth -= 1
        n.orelse = _flat([self.visit(s) for s in n.orelse])
        return n

    visit_For = visit_While = loop

    def visit_Break(self, n):
        return n if self.depth else ast.parse("return ('break', None)").body[0]

    def visit_Continue(self, n):
        return n if self.depth else ast.parse("return ('next', None)").body[0]

    def visit_Return(self, n):
        t = ast.Tuple([ast.Constant('return'), n.value or ast.Constant(None)], ast.Load())
        return ast.Return(t)

    def visit_If(self, n):
        # status tests emitted for nested loops pass a 'return' upwards unchanged
        return self.generic_visit(n)


def instrument(src, fname):
    tree = ast.parse(src, fname)
    x = Xform(os.path.basename(fname))
    tree = x.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, fname, 'exec'), x.consts


class Loader:
    """One instrumented copy of the package."""

    def __init__(self, rt, shims, repo=None):
        self.rt = rt
        self.shims = shims
        self.repo = repo or REPO
        self.modules = {}
        self.sources = {}

    def builtins(self):
        import builtins
        d = dict(vars(builtins))
        d.update(self.rt.builtin_overrides())
        d['__import__'] = self.imp
        return d

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            name = pkg + ('.' + name if name else '')
        root = name.split('.')[0]
        if root == 'machup':
            m = self.get(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and os.path.exists(self.path(name + '.' + f)):
                        self.get(name + '.' + f)
                return m
            self.get(root)
            return self.modules[root]
        if name in self.shims:
            m = self.shims[name]
            return m if fromlist else self.shims.get(root, m)
        if root in self.shims:
            raise Unsupported('import of %s' % name)
        return __import__(name, globals, locals, fromlist, 0)

    def path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def get(self, name):
        if name in self.modules:
            return self.modules[name]
        if '.' in name:
            self.get(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        p = self.path(name)
        with open(p) as f:
            src = f.read()
        self.sources[name] = src
        m = self.exec_module(name, src, p, name if p.endswith('__init__.py') else name.rsplit('.', 1)[0])
        return m

    def exec_module(self, name, src, fname, package=''):
        m = types.ModuleType(name)
        m.__file__ = fname
        m.__package__ = package
        self.modules[name] = m
        code, consts = instrument(src, fname)
        g = m.__dict__
        g['__builtins__'] = self.builtins()
        g['__consts__'] = consts
        g.update(self.rt.helpers())
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            if par in self.modules:
                setattr(self.modules[par], leaf, m)
        try:
            exec(code, g)
        except BaseException:
            del self.modules[name]
            raise
        return m
