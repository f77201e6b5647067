"""Loads the flee package from /repo's current source, once per World, in symbolic or pristine form.

Symbolic form: the source is unchanged except that identity comparisons (`a is b`) go through a helper, and
the module runs with its own builtins (float, int, max, print, __import__, ...).
Pristine form (replay): the source is compiled as it is, with the real builtins and the real numpy; only the
sources of randomness and mpi4py are replaced.
"""
from __future__ import annotations

import ast
import builtins
import os
import sys
import types

from . import core, shims

REPO = os.environ.get("VERIF_REPO", "/repo")
_code_cache = {}
FUNCTIONS = {}      # (file, qualname) -> set(lines executed)


class _Rewriter(ast.NodeTransformer):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            fn = "__sx_is__" if isinstance(node.ops[0], ast.Is) else "__sx_isnot__"
            return ast.copy_location(
                ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=[node.left, node.comparators[0]], keywords=[]),
                node)
        return node


def _compile(path, symbolic):
    st = os.stat(path)
    k = (path, symbolic, st.st_mtime_ns, st.st_size)
    c = _code_cache.get(k)
    if c is None:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        if symbolic:
            tree = ast.fix_missing_locations(_Rewriter().visit(tree))
        c = compile(tree, path, "exec", dont_inherit=True)
        _code_cache[k] = c
    return c


FAKE_TOP = ("libmuscle", "ymmsl", "matplotlib", "seaborn", "plotly", "plotnine")


class _Fake(types.ModuleType):
    """A stand-in module whose attributes are inert objects."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _FakeObj(n)


class _FakeObj:
    def __init__(self, n):
        self._n = n

    def __call__(self, *a, **k):
        return _FakeObj(self._n + "()")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _FakeObj(self._n + "." + n)


class World:
    """One isolated copy of the flee package (one per MPI rank)."""

    def __init__(self, ctx, mpi=None, modules=None):
        self.ctx = ctx
        self.symbolic = ctx.symbolic
        self.mods = {}
        self.mpi = mpi
        self.extra_modules = modules or {}
        self.fakes = {}
        b = dict(builtins.__dict__)
        self.builtins = b
        b["__import__"] = self._import
        if self.symbolic:
            b.update(shims.builtin_overrides(ctx))
            self.numpy = shims.SymNumpy(ctx)
            self.random = shims.RandomModule(ctx)
            self.math = shims.SymMath(ctx)
        else:
            self.numpy = shims.RealNumpy(ctx)
            self.random = shims.RandomModule(ctx)
            self.math = __import__("math")
            b["print"] = shims.quiet_print

    # -- importing
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if name in self.extra_modules:
            return self.extra_modules[name]
        if top == "flee":
            return self._flee(name, fromlist)
        if name == "numpy":
            return self.numpy
        if name == "random":
            return self.random
        if name == "math":
            return self.math
        if top == "mpi4py":
            m = types.ModuleType("mpi4py")
            m.MPI = self.mpi
            if self.mpi is None:
                raise ImportError("mpi4py (no communicator in this world)")
            return m if (name == "mpi4py") else m.MPI
        if self.symbolic and name == "yaml":
            return self._yaml()
        if top in FAKE_TOP:
            f = self.fakes.setdefault(name, _Fake(name))
            return f if fromlist else self.fakes.setdefault(top, _Fake(top))
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _yaml(self):
        """yaml whose loaders return the symbolic values for the tokens written into files (as numbers, not text)"""
        f = self.fakes.get("yaml")
        if f is None:
            import yaml
            f = self.fakes["yaml"] = types.ModuleType("yaml")
            f.__dict__.update({k: v for k, v in yaml.__dict__.items() if not k.startswith("__")})
            toks = self.ctx.tokens

            def conv(o):
                if isinstance(o, dict):
                    return {conv(k) if isinstance(k, str) else k: conv(v) for k, v in o.items()}
                if isinstance(o, list):
                    return [conv(v) for v in o]
                return toks.get(o, o) if isinstance(o, str) else o

            for n in ("safe_load", "load", "full_load", "unsafe_load"):
                f.__dict__[n] = (lambda g: lambda *a, **k: conv(g(*a, **k)))(yaml.__dict__[n])
        return f

    def _flee(self, name, fromlist):
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            self.load(".".join(parts[:i]))
        if not fromlist:
            return self.mods["flee"]
        m = self.mods[name]
        for f in fromlist:
            if f != "*" and not hasattr(m, f):
                sub = name + "." + f
                if self._path(sub):
                    self.load(sub)
        return m

    @staticmethod
    def _path(name):
        base = os.path.join(REPO, *name.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isdir(base):
            return base
        return None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = self._path(name)
        if path is None:
            raise ModuleNotFoundError(f"No module named {name!r}")
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path
        self.mods[name] = m
        if os.path.isdir(path):
            m.__path__ = [path]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
            if self.symbolic:
                m.__dict__["__sx_is__"] = shims.sx_is
                m.__dict__["__sx_isnot__"] = shims.sx_isnot
            exec(_compile(path, self.symbolic), m.__dict__)
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
            setattr(self.mods[parent], leaf, m)
        return m

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return self.load("flee." + n)

    @property
    def settings(self):
        return self.load("flee.SimulationSettings").SimulationSettings


# -- which functions of /repo were executed symbolically

_TOOL = None


def start_monitoring():
    global _TOOL
    mon = sys.monitoring
    _TOOL = mon.COVERAGE_ID
    try:
        mon.use_tool_id(_TOOL, "symx")
    except ValueError:
        return
    root = os.path.join(REPO, "")

    def on_start(code, off):
        if code.co_filename.startswith(root):
            FUNCTIONS.setdefault((code.co_filename[len(REPO) + 1:], code.co_qualname, code.co_firstlineno), set())
        return mon.DISABLE

    def on_line(code, line):
        if code.co_filename.startswith(root):
            FUNCTIONS.setdefault((code.co_filename[len(REPO) + 1:], code.co_qualname, code.co_firstlineno), set()).add(line)
        return mon.DISABLE

    mon.register_callback(_TOOL, mon.events.PY_START, on_start)
    mon.register_callback(_TOOL, mon.events.LINE, on_line)
    mon.set_events(_TOOL, mon.events.PY_START | mon.events.LINE)


def stop_monitoring():
    if _TOOL is not None:
        sys.monitoring.set_events(_TOOL, 0)
