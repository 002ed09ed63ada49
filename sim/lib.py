"""Fresh instances of the PathLib package, built from the working tree.

The source is read and compiled once per process; every `fresh()` executes it
into brand-new module objects, so that no module or class state survives from
one simulated run to the next.  `instances` can coexist; `activate()` makes one
of them the one found in sys.modules.
"""
import ast
import importlib
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("PATHLIB_REPO", "/repo")
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")
sys.dont_write_bytecode = True
if STUBS not in sys.path:
    sys.path.insert(0, STUBS)  # FontDocTools is not installable here: see DESIGN.md

importing = 0   # modules being executed now: the import lock is held, nothing may switch or fail
_code = {}      # path -> code object
_listeners = []  # called with (code, path, cleanup_lines) for each compiled file


def _cleanup_lines(tree):
    """Lines inside finally bodies, except handlers and __exit__ methods."""
    lines = set()

    def add(nodes):
        for n in nodes:
            lines.update(range(n.lineno, n.end_lineno + 1))

    for node in ast.walk(tree):
        if isinstance(node, ast.Try) or node.__class__.__name__ == "TryStar":
            add(node.finalbody)
            for h in node.handlers:
                add([h])
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.name in ("__exit__", "__aexit__", "__del__"):
            add([node])
    return lines


def load_code(path):
    code = _code.get(path)
    if code is None:
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, path)
        code = compile(src, path, "exec", dont_inherit=True)
        _code[path] = code
        for l in _listeners:
            l(code, path, _cleanup_lines(tree))
    return code


def on_code(listener):
    _listeners.append(listener)


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        global importing
        code = load_code(self.path)
        importing += 1
        try:
            exec(code, module.__dict__)
        finally:
            importing -= 1


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "PathLib" and not fullname.startswith("PathLib."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(init), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=_Loader(base + ".py"))
        return None


sys.meta_path.insert(0, _Finder())


def _names():
    return [n for n in sys.modules if n == "PathLib" or n.startswith("PathLib.")]


class Instance:
    """One private copy of the library, with lazily imported submodules."""

    def __init__(self):
        self._mods = {}

    def activate(self):
        for n in _names():
            del sys.modules[n]
        sys.modules.update(self._mods)
        return self

    def get(self, name):
        full = "PathLib." + name
        m = self._mods.get(full)
        if m is None:
            self.activate()
            m = importlib.import_module(full)
            self._mods.update((n, sys.modules[n]) for n in _names())
        return m

    @property
    def Bezier(self):
        return self.get("Bezier").Bezier

    @property
    def BContour(self):
        return self.get("Bezier").BContour

    @property
    def BOutline(self):
        return self.get("Bezier").BOutline


def fresh():
    i = Instance()
    i.activate()
    return i
