"""Import quanguru from /repo/src with symbolic numeric libraries and builtins injected."""
import ast
import builtins
import copy
import importlib.abc
import importlib.util
import os
import sys
import types
from . import facade

REPO = os.environ.get('QG_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PREFIX = 'quanguru'
LOADED = {}
CODE = {}


def makeBuiltins():
    over = dict(vars(builtins))
    over['int'] = facade.symint
    over['float'] = facade.symfloat
    over['complex'] = facade.symcomplex
    over['__symdiv__'] = facade.symDiv
    over['__sympow__'] = facade.symPow
    over['__symidiv__'] = facade.symIdiv
    over['__symipow__'] = facade.symIpow
    over['isinstance'] = facade.symIsinstance
    over['pow'] = facade.symPowMod

    def symImport(name, globals=None, locals=None, fromlist=(), level=0):
        mod = builtins.__import__(name, globals, locals, fromlist, level)
        if level == 0 and (name in facade.MODULES or name.split('.')[0] in ('numpy', 'scipy', 'math', 'cmath', 'operator')):
            if fromlist:
                return facade.MODULES.get(name, mod)
            return facade.MODULES.get(name.split('.')[0], mod)
        return mod

    over['__import__'] = symImport
    return over


BUILTINS = makeBuiltins()


class _Exact(ast.NodeTransformer):
    """a / b and a ** b of two plain numbers are exact: they go through the facade"""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        name = {ast.Div: '__symdiv__', ast.Pow: '__sympow__'}.get(type(node.op))
        if name is None:
            return node
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), [node.left, node.right], []), node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        name = {ast.Div: '__symidiv__', ast.Pow: '__symipow__'}.get(type(node.op))
        if name is None or not _simple(node.target):
            return node
        old = copy.deepcopy(node.target)
        old.ctx = ast.Load()
        return ast.copy_location(ast.Assign([node.target], ast.Call(ast.Name(name, ast.Load()), [old, node.value], [])),
                                 node)


def _simple(node):
    """can the target be evaluated twice?"""
    if isinstance(node, (ast.Name, ast.Constant)):
        return True
    if isinstance(node, ast.Attribute):
        return _simple(node.value)
    if isinstance(node, ast.Subscript):
        return _simple(node.value) and _simple(node.slice)
    if isinstance(node, ast.Tuple):
        return all(_simple(elt) for elt in node.elts)
    return False


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = CODE.get(self.path)
        if code is None:
            with open(self.path, encoding='utf-8') as fil:
                source = fil.read()
            tree = ast.fix_missing_locations(_Exact().visit(ast.parse(source, self.path)))
            code = CODE[self.path] = compile(tree, self.path, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = BUILTINS
        LOADED[module.__name__] = self.path
        exec(code, module.__dict__)     # pylint: disable=exec-used


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PREFIX and not fullname.startswith(PREFIX + '.'):
            return None
        base = os.path.join(SRC, *fullname.split('.'))
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            if os.path.exists(init):
                return importlib.util.spec_from_file_location(fullname, init, loader=_Loader(init),
                                                              submodule_search_locations=[base])
            spec = importlib.util.spec_from_loader(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        fil = base + '.py'
        if os.path.exists(fil):
            return importlib.util.spec_from_file_location(fullname, fil, loader=_Loader(fil))
        return None


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
