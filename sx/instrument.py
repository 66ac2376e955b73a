"""Load modules from their current source, with the operations that C level CPython would carry out on
strings, dicts and sets replaced by symbolic-aware ones"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import models

N = {
    '__sx_call__': models.call,
    '__sx_in__': models.sx_contains,
    '__sx_notin__': models.sx_not_contains,
    '__sx_mod__': models.sx_mod,
    '__sx_dict__': models.mkdict,
    '__sx_dictc__': models.mkdict_comp,
    '__sx_set__': models.mkset,
    '__sx_fmt__': models.sx_format,
    '__sx_str__': models.sx_str,
    '__sx_repr__': models.sx_repr,
    '__sx_fstr__': models.sx_fstring,
    '__sx_guard__': models.sx_abort_guard,
    '__sx_kw__': models.kwdict,
    '__sx_idx__': models.sx_index,
}

FUNCTIONS = set()  # functions of instrumented modules that were executed


def _fn(name):
    FUNCTIONS.add(name)


N['__sx_fn__'] = _fn

NATIVE_CALLS = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__'}


class T(ast.NodeTransformer):

    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.n = 0

    def name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def mkcall(self, n, args, keywords=()):
        return ast.Call(func=self.name(n), args=list(args), keywords=list(keywords))

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        mark = ast.Expr(self.mkcall('__sx_fn__', [ast.Constant(self.mod + ':' + '.'.join(self.stack))]))
        i = 0
        b = node.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) \
                and isinstance(b[0].value.value, str):
            i = 1
        b.insert(i, mark)
        self.stack.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NATIVE_CALLS:
            return node
        kws = []
        for k in node.keywords:
            if k.arg is None:
                kws.append(ast.keyword(arg=None, value=self.mkcall('__sx_kw__', [k.value])))
            else:
                kws.append(k)
        return ast.Call(func=self.name('__sx_call__'), args=[node.func] + node.args, keywords=kws)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return self.mkcall('__sx_in__', [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                return self.mkcall('__sx_notin__', [node.left, node.comparators[0]])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.mkcall('__sx_mod__', [node.left, node.right])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)):
            return self.mkcall('__sx_idx__', [node.value, node.slice])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        parts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                parts.append(ast.Tuple(elts=[ast.Constant('u'), v], ctx=ast.Load()))
            else:
                parts.append(ast.Tuple(elts=[ast.Constant('i'), k, v], ctx=ast.Load()))
        return self.mkcall('__sx_dict__', parts)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.mkcall('__sx_set__', [ast.List(elts=node.elts, ctx=ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lst = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return self.mkcall('__sx_dictc__', [lst])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.mkcall('__sx_set__', [ast.ListComp(elt=node.elt, generators=node.generators)])

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                e = self.visit(v.value)
                if v.conversion == 114:
                    e = self.mkcall('__sx_repr__', [e])
                elif v.conversion == 115:
                    e = self.mkcall('__sx_str__', [e])
                elif v.conversion == 97:
                    e = self.mkcall('__sx_call__', [self.name('ascii'), e])
                args = [e]
                if v.format_spec is not None:
                    args.append(self.visit(v.format_spec))
                parts.append(self.mkcall('__sx_fmt__', args))
        return self.mkcall('__sx_fstr__', parts)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        t = node.type

        def catches_base(t):
            if t is None:
                return True
            if isinstance(t, ast.Name):
                return t.id in ('BaseException',)
            if isinstance(t, ast.Tuple):
                return any(catches_base(e) for e in t.elts)
            return False

        if catches_base(t):
            if node.name is None:
                self.n += 1
                node.name = '__sx_exc_%d' % self.n
            if t is None:
                node.type = self.name('BaseException')
            node.body.insert(0, ast.Expr(self.mkcall('__sx_guard__', [self.name(node.name)])))
        return node

    # annotations are not executed symbolically
    def visit_arg(self, node):
        return node

    def visit_Match(self, node):
        self.generic_visit(node)
        return node


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = T(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.abc.SourceLoader):

    def __init__(self, fullname, path):
        self.fullname = fullname
        self.path = path

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def get_code(self, fullname):
        # Never from a .pyc: always from the current source
        with open(self.path, 'rb') as f:
            src = f.read()
        return transform(src, self.path, fullname)

    def exec_module(self, module):
        models.INSTRUMENTED_MODULES.add(module.__name__)
        module.__dict__.update(N)
        exec(self.get_code(module.__name__), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, prefixes, repo):
        self.prefixes = prefixes
        self.repo = repo

    def find_spec(self, fullname, path, target=None):
        hit = False
        for p in self.prefixes:
            if fullname == p or fullname.startswith(p + '.'):
                hit = True
        if not hit:
            return None
        if fullname.split('.')[0] == 'metatab':
            base = os.path.join(self.repo, *fullname.split('.'))
            for cand, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
                if os.path.exists(cand):
                    return importlib.util.spec_from_file_location(
                        fullname, cand, loader=Loader(fullname, cand),
                        submodule_search_locations=[base] if pkg else None)
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not spec.origin or not spec.origin.endswith('.py'):
            return spec
        return importlib.util.spec_from_file_location(
            fullname, spec.origin, loader=Loader(fullname, spec.origin),
            submodule_search_locations=spec.submodule_search_locations)


def install(repo, prefixes=('metatab', 'rowgenerators.source', 'harness')):
    for m in list(sys.modules):
        for p in prefixes:
            if m == p or m.startswith(p + '.'):
                raise RuntimeError('already imported: ' + m)
    sys.meta_path.insert(0, Finder(prefixes, repo))

    # Instrumented copies of os.path functions
    import posixpath
    import types
    path = posixpath.__file__
    mod = types.ModuleType('posixpath_sx')
    mod.__dict__.update(N)
    mod.__file__ = path
    with open(path, 'rb') as f:
        exec(transform(f.read(), path, 'posixpath'), mod.__dict__)
    # os.fspath is C: identity on strings
    import os as _os

    class OsProxy(object):
        def __getattr__(self, n):
            return getattr(_os, n)

        @staticmethod
        def fspath(p):
            from .symstr import SymStr
            return p if type(p) is SymStr else _os.fspath(p)

    mod.os = OsProxy()
    import genericpath

    def check_arg_types(fn, *args):
        return None
    mod.genericpath = types.SimpleNamespace(_check_arg_types=check_arg_types, _splitext=None,
                                            commonprefix=genericpath.commonprefix)
    for n in ('basename', 'dirname', 'split', 'join', 'isabs'):
        models.COPIES[getattr(posixpath, n)] = getattr(mod, n)

    def splitext(p):
        cs = p
        sep = cs.rfind('/')
        dot = cs.rfind('.')
        if dot > sep:
            i = sep + 1
            while i < dot:
                if not (cs[i:i + 1] == '.'):
                    return cs[:dot], cs[dot:]
                i += 1
        return cs, cs[:0]
    splitext.__globals__.setdefault('__sx_internal__', True)
    models.COPIES[posixpath.splitext] = splitext


class Snapshot(object):
    """State of the instrumented modules that a path may change: restored before each path"""

    def __init__(self):
        self.saved = []
        self.caches = []
        import types
        seen = set()

        def save(holder, name, v):
            if type(v) in (dict, models.SymDict):
                self.saved.append((v, 'd', list(v.items())))
            elif type(v) is list:
                self.saved.append((v, 'l', list(v)))
            elif type(v) in (set, models.SymSet):
                self.saved.append((v, 's', list(v)))
            f = v.__func__ if isinstance(v, (classmethod, staticmethod)) else v
            if hasattr(f, 'cache_clear'):
                self.caches.append(f)

        for n in list(models.INSTRUMENTED_MODULES):
            m = sys.modules.get(n)
            if m is None:
                continue
            for k, v in list(m.__dict__.items()):
                if k.startswith('__'):
                    continue
                if id(v) in seen:
                    continue
                seen.add(id(v))
                save(m, k, v)
                if isinstance(v, type) and v.__module__ in models.INSTRUMENTED_MODULES:
                    for ck, cv in list(v.__dict__.items()):
                        if not ck.startswith('__'):
                            save(v, ck, cv)
            self.saved.append((m.__dict__, 'g', {k: v for k, v in m.__dict__.items()
                                                 if isinstance(v, (int, str, float, bool, type(None), tuple))}))
        for n in list(models.INSTRUMENTED_MODULES):
            m = sys.modules.get(n)
            if m is None:
                continue
            for k, v in list(m.__dict__.items()):
                if isinstance(v, type) and v.__module__ == n:
                    self.saved.append((v, 'c', {a: b for a, b in v.__dict__.items()
                                                if isinstance(b, (int, str, float, bool, type(None), tuple))
                                                and not a.startswith('__')}))

    def restore(self):
        for o, kind, items in self.saved:
            if kind == 'd':
                o.clear()
                o.update(items)
            elif kind == 'l':
                o[:] = items
            elif kind == 's':
                for x in list(o):
                    o.discard(x)
                for x in items:
                    o.add(x)
            elif kind == 'g':
                for k, v in items.items():
                    if o.get(k) is not v:
                        o[k] = v
            elif kind == 'c':
                for k, v in items.items():
                    if o.__dict__.get(k) is not v:
                        setattr(o, k, v)
        for c in self.caches:
            c.cache_clear()
