"""Load the unchanged source of /repo/bfit with numpy/scipy/math replaced by their symbolic models."""
import ast
import builtins
import hashlib
import io
import os
import sys
import types

from . import npshim as N
from .sym import EngineError

REPO = os.environ.get("VERIF_REPO", "/repo")
_code = {}
MODULES = ("model", "measure", "fit", "greedy", "grid", "density", "_slater", "parse_ugbs")


class _Rewrite(ast.NodeTransformer):
    """float(x)/int(x)/round(x) called as functions become calls of the symbolic conversions."""
    MAP = {"float": "__sh_float__", "int": "__sh_int__", "round": "__sh_round__"}
    NPFLOAT = {"float64", "double", "longdouble", "float128", "float32", "single", "float16", "half"}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.MAP:
            node.func.id = self.MAP[node.func.id]
        elif isinstance(node.func, ast.Attribute) and node.func.attr in self.NPFLOAT and isinstance(node.func.value, ast.Name) \
                and node.func.value.id in ("np", "numpy"):
            node.func = ast.copy_location(ast.Call(func=ast.Name(id="__sh_npfloat__", ctx=ast.Load()), args=[ast.Constant(value=node.func.attr)], keywords=[]), node.func)
        elif isinstance(node.func, ast.Name) and node.func.id in ("map", "filter", "partial"):
            for a in node.args[:1]:
                if isinstance(a, ast.Name) and a.id in self.MAP:
                    a.id = self.MAP[a.id]
        return node


def source_path(name):
    return os.path.join(REPO, "bfit", name + ".py")


def _compiled(name, path):
    key = path
    c = _code.get(key)
    if c is None:
        src = open(path, encoding="utf8").read()
        tree = _Rewrite().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        c = (compile(tree, path, "exec"), hashlib.sha256(src.encode()).hexdigest()[:16])
        _code[key] = c
    return c[0]


PASS = {"abc", "numbers", "re", "os", "os.path", "sys", "inspect", "collections", "collections.abc", "functools", "itertools", "operator",
        "typing", "types", "__future__", "copy", "string", "io", "pathlib", "enum", "dataclasses", "contextlib", "fractions", "importlib",
        "importlib.resources", "abc", "textwrap", "logging", "time", "weakref", "keyword", "bisect", "heapq"}


class Warnings(types.ModuleType):
    def __init__(self):
        super().__init__("warnings")
        self.issued = []

    def warn(self, msg, *a, **k):
        self.issued.append(msg)

    def filterwarnings(self, *a, **k):
        pass
    simplefilter = filterwarnings

    class catch_warnings:
        def __init__(self, *a, **k): pass
        def __enter__(self): return []
        def __exit__(self, *a): return False

    def __getattr__(self, n):
        import warnings as w
        return getattr(w, n)


class Timeit(types.ModuleType):
    def __init__(self):
        super().__init__("timeit")
        self._t = 0.0

    def default_timer(self):
        self._t += 0.125
        return self._t


class Loaded:
    """One fresh instance of the package."""

    def __init__(self):
        self.np = N.NpProxy()
        self.math = N.MathShim()
        self.warnings = Warnings()
        self.timeit = Timeit()
        self.mods = {}
        self.ext = {"numpy": self.np, "math": self.math, "warnings": self.warnings, "timeit": self.timeit,
                    "numpy.linalg": self.np.linalg, "numpy.ma": self.np.ma, "numpy.random": self.np.random}
        self.ext.update(N.make_scipy())
        b = types.ModuleType("builtins")
        b.__dict__.update(builtins.__dict__)
        b.__dict__.update(isinstance=N.sh_isinstance, min=N.sh_min, max=N.sh_max, print=N.sh_print, open=N.sh_open, __import__=self._import,
                          __sh_float__=N.sh_float, __sh_int__=N.sh_int, __sh_round__=N.sh_round, __sh_npfloat__=N.sh_npfloat)
        self.builtins = b

    def get(self, name):
        """bfit.<name>"""
        if name in self.mods:
            m = self.mods[name]
            return m
        path = source_path(name)
        if not os.path.exists(path):
            pk = os.path.join(REPO, "bfit", name, "__init__.py")
            if os.path.exists(pk):
                path = pk
            else:
                raise ImportError(f"No module named 'bfit.{name}'")
        m = types.ModuleType("bfit." + name)
        m.__file__ = path
        m.__package__ = "bfit"
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        exec(_compiled(name, path), m.__dict__)
        return m

    def _pkg(self):
        m = self.mods.get("")
        if m is None:
            m = types.ModuleType("bfit")
            m.__path__ = [os.path.join(REPO, "bfit")]
            m.__file__ = os.path.join(REPO, "bfit", "__init__.py")
            self.mods[""] = m
            m.__getattr__ = lambda n: self.get(n) if os.path.exists(source_path(n)) else _raise_attr(n)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or "bfit"
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == "bfit" or name.startswith("bfit."):
            parts = name.split(".")
            if len(parts) == 1:
                p = self._pkg()
                for f in fromlist or ():
                    setattr(p, f, self.get(f)) if os.path.exists(source_path(f)) else None
                return p
            m = self.get(".".join(parts[1:]))
            if fromlist:
                return m
            p = self._pkg()
            setattr(p, parts[1], m)
            return p
        if name in self.ext:
            m = self.ext[name]
            if not fromlist and "." in name:
                return self.ext[name.split(".")[0]]
            return m
        root = name.split(".")[0]
        if root in ("numpy", "scipy", "matplotlib", "pandas"):
            if root == "matplotlib":
                raise ImportError(name)
            raise EngineError(f"import of {name} is not modelled")
        return builtins.__import__(name, globals, locals, fromlist, level)


def _raise_attr(n):
    raise AttributeError(n)


def fingerprint():
    import glob
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(REPO, "bfit", "*.py"))):
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]
