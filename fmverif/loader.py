"""Loads the unmodified sources of /repo/src/fmmax against the symbolic library stand-ins."""
from __future__ import annotations
import ast
import hashlib
import os
import sys
import types
from . import fakejax

REPO = os.environ.get("FMVERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "fmmax")

_loaded = {}
DIGEST = {}


class _Finder:
    def __init__(self):
        self.fake = fakejax.build_modules()

    def find_spec(self, name, path=None, target=None):
        import importlib.machinery as im
        if name in self.fake:
            return im.ModuleSpec(name, _FakeLoader(self.fake[name]), is_package=name == "jax")
        if name == "jeig":
            return None
        if name == "fmmax":
            s = im.ModuleSpec(name, _SrcLoader(os.path.join(SRC, "__init__.py"), True), is_package=True)
            s.submodule_search_locations = [SRC]
            return s
        if name.startswith("fmmax."):
            base = os.path.join(SRC, *name.split(".")[1:])
            if os.path.isdir(base):
                s = im.ModuleSpec(name, _SrcLoader(os.path.join(base, "__init__.py"), True), is_package=True)
                s.submodule_search_locations = [base]
                return s
            if os.path.exists(base + ".py"):
                return im.ModuleSpec(name, _SrcLoader(base + ".py", False))
        return None


class _FakeLoader:
    def __init__(self, m):
        self.m = m

    def create_module(self, spec):
        return self.m

    def exec_module(self, m):
        pass


class _Sets(ast.NodeTransformer):
    """Set displays and comprehensions become calls of the intercepted `set` (sizes may be symbolic members)."""
    hits = 0

    def wrap(self, node, arg):
        self.hits += 1
        return ast.copy_location(ast.Call(ast.Name("__fm_set__", ast.Load()), [arg], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.wrap(node, ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.wrap(node, ast.ListComp(node.elt, node.generators))


def set_displays(src, path):
    t = _Sets()
    tree = t.visit(ast.parse(src, path))
    return ast.fix_missing_locations(tree) if t.hits else src


class _SrcLoader:
    def __init__(self, path, pkg):
        self.path, self.pkg = path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        with open(self.path, "rb") as f:
            src = f.read()
        DIGEST[os.path.relpath(self.path, REPO)] = hashlib.sha256(src).hexdigest()[:16]
        m.__file__ = self.path
        for k, v in fakejax.BUILTINS.items():
            m.__dict__[k] = v
        exec(compile(set_displays(src, self.path), self.path, "exec"), m.__dict__)


def load():
    """Import all modules of the package; returns a namespace with the modules."""
    for n in ("numpy", "jax"):
        for k in [k for k in sys.modules if k == n or k.startswith(n + ".")]:
            del sys.modules[k]
    sys.meta_path.insert(0, _Finder())
    import importlib
    ns = types.SimpleNamespace()
    for n in sorted(os.listdir(SRC)):
        if n.endswith(".py") and n != "__init__.py":
            name = n[:-3]
            setattr(ns, name, importlib.import_module("fmmax." + name))
    return ns
