"""Import hook: modules of the program under check (and the harnesses) are read
from their current source, rewritten at AST level so that every operation that
may meet a symbolic value goes through sx.hooks, and executed."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys

from . import hooks

PREFIXES = []
_NATIVE_CALLS = {'super', 'locals', 'globals', 'vars', 'TypeVar', 'NamedTuple'}
_ATTRS = {'text', 'tail', 'tag', 'attrib'}
REWRITTEN = {}      # module name -> path


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.lenient = 0

    def _name(self, n):
        return ast.Name(id='_sx_' + n, ctx=ast.Load())

    def _call(self, n, args, keywords=()):
        return ast.Call(func=self._name(n), args=list(args), keywords=list(keywords))

    # annotations / decorators stay native
    def _visit_func(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None
                                 for d in node.args.kw_defaults]
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_FunctionDef(self, node):
        return self._visit_func(node)

    def visit_AsyncFunctionDef(self, node):
        return self._visit_func(node)

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Raise(self, node):
        self.lenient += 1
        try:
            self.generic_visit(node)
        finally:
            self.lenient -= 1
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in _NATIVE_CALLS:
            self.generic_visit(node)
            return node
        args = [self.visit(a) for a in node.args]
        keywords = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        if isinstance(node.func, ast.Attribute):
            obj = self.visit(node.func.value)
            return self._call('callm', [obj, ast.Constant(node.func.attr)] + args, keywords)
        return self._call('call', [self.visit(node.func)] + args, keywords)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in _ATTRS:
            return self._call('getattr', [node.value, ast.Constant(node.attr)])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(None)
                sl = ast.Call(func=ast.Name(id='_sx_slice', ctx=ast.Load()), args=[
                    sl.lower or none, sl.upper or none, sl.step or none], keywords=[])
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
                return node
            return self._call('getitem', [node.value, sl])
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, ast.Attribute) and t.attr in _ATTRS:
                return ast.copy_location(ast.Expr(self._call('setattr', [
                    self.visit(t.value), ast.Constant(t.attr), node.value])), node)
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
                return ast.copy_location(ast.Expr(self._call('setitem', [
                    self.visit(t.value), self.visit(t.slice), node.value])), node)
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        t = node.target
        if isinstance(t, ast.Attribute) and t.attr in _ATTRS and isinstance(
                t.value, ast.Name):
            load = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
            new = ast.Assign(targets=[t], value=ast.BinOp(left=load, op=node.op, right=node.value))
            return self.visit(ast.copy_location(new, node))
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            a, b = node.left, node.comparators[0]
            name = {
                ast.In: 'in', ast.NotIn: 'notin', ast.Is: 'is', ast.IsNot: 'isnot',
                ast.Eq: 'eq', ast.NotEq: 'ne'
            }.get(type(op))
            if name:
                return self._call(name, [a, b])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('mod', [node.left, node.right, ast.Constant(bool(self.lenient))])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec else ast.Constant('')
                parts.append(ast.Tuple(elts=[
                    self.visit(v.value), ast.Constant(v.conversion), spec
                ], ctx=ast.Load()))
        return self._call('fstr', [
            ast.List(elts=parts, ctx=ast.Load()), ast.Constant(bool(self.lenient))])

    def visit_MatchValue(self, node):
        return node


def rewrite(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class SxLoader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name = name
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            source = f.read()
        module.__dict__.update(hooks.NAMES)
        REWRITTEN[self.name] = self.path
        exec(rewrite(source, self.path), module.__dict__)


class SxFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if not any(fullname == p or fullname.startswith(p + '.') for p in PREFIXES):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not spec.origin or not spec.origin.endswith('.py'):
            return spec
        new = importlib.util.spec_from_file_location(
            fullname, spec.origin, loader=SxLoader(fullname, spec.origin),
            submodule_search_locations=spec.submodule_search_locations
        )
        return new


def _rewritten_copy(name, patch=lambda s: s):
    """a rewritten copy of a standard library module; the module itself stays as it is"""
    import types
    spec = importlib.machinery.PathFinder.find_spec(name)
    with open(spec.origin, encoding='utf-8') as f:
        source = patch(f.read())
    module = types.ModuleType('sx_' + name)
    module.__dict__.update(hooks.NAMES)
    module.__file__ = spec.origin
    exec(rewrite(source, spec.origin), module.__dict__)
    REWRITTEN[name] = spec.origin
    return module


def _redirect():
    """path functions are executed symbolically, from the source of posixpath / genericpath"""
    import genericpath
    import posixpath
    from apache_beam.io.filesystems import FileSystems
    generic = _rewritten_copy('genericpath')
    posix = _rewritten_copy('posixpath', lambda s: s.replace(
        'from posix import _path_normpath', 'raise ImportError'))
    posix.genericpath = generic
    for name in ('commonprefix', '_splitext'):
        hooks.OVERRIDES[getattr(genericpath, name)] = getattr(generic, name)
    for name in ('join', 'split', 'splitext', 'basename', 'dirname', 'normpath', 'normcase',
                 'isabs', 'abspath', 'relpath', 'commonpath'):
        hooks.OVERRIDES[getattr(posixpath, name)] = getattr(posix, name)
    real_join, real_split = FileSystems.join, FileSystems.split

    def join(basepath, *paths):
        if hooks.sx_in('://', basepath):
            return hooks.wrap(real_join(hooks.concretize(basepath), *map(hooks.concretize, paths)))
        return posix.join(basepath, *paths)

    def split(path):
        if hooks.sx_in('://', path):
            return hooks.wrap(real_split(hooks.concretize(path)))
        return posix.split(posix.abspath(path))

    hooks.OVERRIDES[real_join] = join
    hooks.OVERRIDES[real_split] = split


def install(prefixes):
    PREFIXES.extend(prefixes)
    for p in prefixes:
        if p in ('html', 'html.parser', '_markupbase', 'xml.sax.saxutils'):
            sys.modules.pop(p, None)
    sys.meta_path.insert(0, SxFinder())
    _redirect()
