"""
Imports the package under test from the repository's current source.

`install(symbolic=True)`  every module is parsed, its call / subscript /
                          membership operations are routed through the symbolic
                          models, and the result is compiled and executed.
`install(symbolic=False)` the source is compiled unchanged (used to replay).

In both modes the modules' `__file__` points into a scratch directory, so that
files the package creates at import stay out of the repository.
"""

import ast
import importlib.abc
import importlib.machinery
import atexit
import os
import shutil
import sys
import tempfile
from pathlib import Path

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = "aiootp"

SKIP_NAMES = {"super", "locals", "vars", "globals", "dir", "eval", "exec", "__import__"}


class Transform(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP_NAMES:
            return node
        new = ast.Call(
            func=ast.Name("__sx_call__", ast.Load()),
            args=[f, *node.args],
            keywords=node.keywords,
        )
        return ast.copy_location(new, node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        new = ast.Call(
            func=ast.Name("__sx_getitem__", ast.Load()),
            args=[node.value, self._slice(node.slice)],
            keywords=[],
        )
        return ast.copy_location(new, node)

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = lambda: ast.Constant(None)
            return ast.copy_location(ast.Call(
                func=ast.Name("__sx_slice__", ast.Load()),
                args=[s.lower or none(), s.upper or none(), s.step or none()],
                keywords=[]), s)
        if isinstance(s, ast.Tuple):
            return ast.copy_location(ast.Tuple([self._slice(e) for e in s.elts], ast.Load()), s)
        return s

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            name = "__sx_in__" if isinstance(node.ops[0], ast.In) else "__sx_notin__"
            return ast.copy_location(ast.Call(
                func=ast.Name(name, ast.Load()),
                args=[node.left, node.comparators[0]], keywords=[]), node)
        return node

    # annotations are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def _func(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d if d is None else self.visit(d) for d in node.args.kw_defaults]
        out = []
        for s in node.body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        node.body = out
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, symbolic, scratch, builtins):
        self.symbolic = symbolic
        self.scratch = scratch
        self.builtins = builtins
        self.loaded = []

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name.split(".")
        base = Path(REPO).joinpath(*rel)
        if (base / "__init__.py").is_file():
            src, is_pkg = base / "__init__.py", True
        elif base.with_suffix(".py").is_file():
            src, is_pkg = base.with_suffix(".py"), False
        else:
            return None
        fake = Path(self.scratch) / src.relative_to(REPO)
        spec = importlib.machinery.ModuleSpec(name, self, origin=str(fake), is_package=is_pkg)
        if is_pkg:
            spec.submodule_search_locations = [str(fake.parent)]
        spec.has_location = True
        spec.loader_state = str(src)
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        src = module.__spec__.loader_state
        with open(src, "rb") as f:
            text = f.read()
        tree = ast.parse(text, filename=src)
        if self.symbolic:
            tree = Transform().visit(tree)
            ast.fix_missing_locations(tree)
            module.__dict__.update(self.builtins)
        code = compile(tree, src, "exec", dont_inherit=True)
        self.loaded.append(src)
        exec(code, module.__dict__)


def make_scratch():
    d = tempfile.mkdtemp(prefix="symx-")
    db = Path(d) / PKG / "db"
    db.mkdir(parents=True)
    return d


FINDER = None
CLEANUPS = []


def cleanup():
    for fn in CLEANUPS:
        fn()


def install(symbolic):
    """Import the package; returns it."""
    global FINDER
    assert PKG not in sys.modules
    sys.dont_write_bytecode = True
    scratch = make_scratch()
    pid = os.getpid()

    def remove():
        if os.getpid() == pid:
            shutil.rmtree(scratch, ignore_errors=True)

    CLEANUPS.append(remove)
    atexit.register(remove)
    from . import env
    env.patch_before_import()
    builtins = {}
    if symbolic:
        from . import models
        builtins = models.hooks()
    FINDER = Finder(symbolic, scratch, builtins)
    sys.meta_path.insert(0, FINDER)
    try:
        import aiootp
    finally:
        env.patch_after_import()
    return aiootp

