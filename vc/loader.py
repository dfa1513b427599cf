"""Loads the real module sources of /repo against the symbolic torch.

Every run reads the .py files afresh.  What changes between the text that runs and the
text that is verified is exactly this list:
  * `torch` (and torch.nn, ...) is the symbolic stand-in of shim.py, `math` and `numpy`
    likewise; torch.jit.script is the identity;
  * `a ** b` and `a / b` become calls (so constant arithmetic stays exact);
  * the builtins int float bool len range abs max min isinstance understand symbolic
    values;
  * annotations are not evaluated;
  * functions listed in `overrides` are replaced by their contracts, and loops listed in
    `loops` are cut by the given invariant (see loops.py);
  * third-party modules that are not installed or that do input/output (h5py, kornia,
    matplotlib ...) are opaque: any use raises Unsupported.
Nothing is dropped from function bodies.
"""
import __future__
import ast
import builtins
import importlib
import os
import types
from . import shim
from .path import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")

_REAL = {
    "typing", "dataclasses", "abc", "collections", "functools", "itertools", "os", "os.path", "sys", "warnings",
    "enum", "re", "json", "time", "datetime", "string", "copy", "__future__", "operator", "shutil",
}


class Opaque:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Opaque(self._n + "." + k)

    def __call__(self, *a, **k):
        raise Unsupported(f"call of opaque {self._n}")

    def __mro_entries__(self, bases):
        return ()


class Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        nm = {ast.Pow: "__vc_pow__", ast.Div: "__vc_div__"}.get(type(node.op))
        if nm is None:
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name(id=nm, ctx=ast.Load()), args=[node.left, node.right], keywords=[]), node
        )


class Loader:
    def __init__(self, overrides=None, loops=None):
        self.mods = {}
        self.overrides = overrides or {}  # (module, name) -> function(original)->replacement
        self.loops = loops or {}  # (module, function, index) -> invariant spec
        self.globs = {}
        self.sources = {}
        b = dict(vars(builtins))
        b.update(
            int=shim.b_int, float=shim.b_float, bool=shim.b_bool, len=shim.b_len, range=shim.b_range, abs=shim.b_abs,
            max=shim.b_max, min=shim.b_min, isinstance=shim.b_isinstance, round=shim.b_round, sum=shim.b_sum,
        )
        b["__import__"] = self._import
        b["print"] = lambda *a, **k: None
        self.builtins = b

    def path(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.path(name)
        m = types.ModuleType(name)
        m.__file__ = path
        self.mods[name] = m
        if not os.path.exists(path):
            if os.path.isdir(os.path.dirname(path)) and path.endswith("__init__.py"):
                m.__path__ = []
                return m
            raise ModuleNotFoundError(name)
        if path.endswith("__init__.py"):
            m.__path__ = []
        with open(path) as f:
            src = f.read()
        self.sources[name] = src
        tree = ast.parse(src, path)
        if self.loops:
            from .loops import cut_loops

            tree = cut_loops(tree, name, self.loops)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        code = compile(tree, path, "exec", flags=__future__.annotations.compiler_flag, dont_inherit=True)
        g = m.__dict__
        g["__builtins__"] = self.builtins
        g["__vc_pow__"] = shim.vc_pow
        g["__vc_div__"] = shim.vc_div
        g["__vc_loops"] = self.loops
        exec(code, g)
        for (mod, fn), repl in self.overrides.items():
            if mod == name and fn in g:
                g[fn] = repl(g[fn])
        return m

    def fn(self, spec):
        mod, f = spec.split(":")
        m = self.load(mod)
        o = m
        for part in f.split("."):
            if not hasattr(o, part):
                raise Unsupported(f"{spec} no longer exists")
            o = getattr(o, part)
        return o

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__name__"].split(".")
            if not globals.get("__file__", "").endswith("__init__.py"):
                pkg = pkg[:-1]
            pkg = pkg[: len(pkg) - level + 1]
            name = ".".join(pkg + ([name] if name else []))
        top = name.split(".")[0]
        if top == "ebsdtorch":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + "." + f))
                        except ModuleNotFoundError:
                            pass
                return m
            parts = name.split(".")
            for i in range(1, len(parts)):
                par = self.load(".".join(parts[:i]))
                setattr(par, parts[i], self.load(".".join(parts[: i + 1])))
            return self.load(top)
        if top == "torch":
            o = shim.torch
            if fromlist:
                for p in name.split(".")[1:]:
                    o = getattr(o, p)
            return o
        if top == "math":
            return shim.mathns
        if top == "numpy":
            return shim.numpyns
        if name in _REAL or top in _REAL:
            return importlib.__import__(name, globals, locals, fromlist, 0)
        return Opaque(name)
