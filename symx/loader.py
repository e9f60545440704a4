"""Load ellalgo from the repository's current source for symbolic execution.

Each module is parsed from /repo/src on every run; float literals become exact rationals and integer/integer
division stays exact; `numpy`, `math`, `float`, `int`, `abs`-style builtins are bound to symbolic-aware versions.
Nothing else of the source is changed."""
import ast
import builtins
import numbers
import os
import sys
import types

from . import engine as E
from . import shim_np
from .engine import SymInt, SymReal

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


class _Lits(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float) and not isinstance(n.value, bool):
            return ast.copy_location(ast.Call(ast.Name("__lit__", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("__div__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_MatchValue(self, n):
        return n


def _lit(s):
    v = float(s)
    if v != v or v in (E.INF, -E.INF):
        return v
    return SymReal(s)


def _div(a, b):
    if type(a) is int and type(b) is int:
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return SymReal(E.Fraction(a, b))
    return a / b


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, SymReal) and not isinstance(x, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float,)) or (issubclass(c, SymReal) and not issubclass(c, SymInt))

    def __eq__(cls, o):
        return o is cls or o is float or o is SymReal

    def __hash__(cls):
        return hash(float)


class s_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        import numpy as np
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.flat[0]
        return SymReal(x)
    fromhex = float.fromhex


s_float.__name__ = "float"
s_float.__qualname__ = "float"


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (int, SymInt))

    def __eq__(cls, o):
        return o is cls or o is int or o is SymInt

    def __hash__(cls):
        return hash(int)


class s_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymReal):
            r = E.sym_trunc(x)
            c = r.num.const()
            return int(c) if c is not None else r
        return int(x, *a)


s_int.__name__ = "int"
s_int.__qualname__ = "int"


numbers.Real.register(SymReal)


def make_math():
    import math
    m = types.ModuleType("math")
    m.__dict__.update({k: getattr(math, k) for k in dir(math) if not k.startswith("__")})

    def wrap(name, sym):
        real = getattr(math, name)

        def g(x, *a):
            if isinstance(x, SymReal) or type(x) is int or isinstance(x, float):
                if isinstance(x, float) and (x != x or x in (E.INF, -E.INF)):
                    return real(x, *a)
                return sym(x, *a)
            import numpy as np
            if isinstance(x, np.ndarray) and x.size == 1:
                return sym(x.flat[0], *a)
            return real(x, *a)
        setattr(m, name, g)
    wrap("sqrt", E.sym_sqrt)
    wrap("exp", E.sym_exp)
    wrap("log", lambda x, *b: E.sym_log(x) if not b else E.sym_log(x) / E.sym_log(b[0]))
    wrap("log1p", lambda x: E.sym_log(SymReal(x) + 1))
    wrap("expm1", lambda x: E.sym_exp(x) - 1)
    wrap("floor", lambda x: _unint(E.sym_floor(SymReal(x))))
    wrap("ceil", lambda x: _unint(-E.sym_floor(-SymReal(x))))
    wrap("trunc", lambda x: _unint(E.sym_trunc(SymReal(x))))
    wrap("fabs", abs)
    wrap("isnan", lambda x: False)
    wrap("isinf", lambda x: False)
    wrap("isfinite", lambda x: True)
    wrap("pow", lambda x, y: SymReal(x) ** y)
    m.hypot = lambda *a: E.sym_sqrt(sum((x * x for x in a), SymReal(0)))
    m.copysign = lambda a, b: abs(a) if b >= 0 else -abs(a)
    m.fsum = lambda a: sum(a, SymReal(0))
    m.dist = lambda p, q: E.sym_sqrt(sum(((x - y) * (x - y) for x, y in zip(p, q)), SymReal(0)))
    m.sumprod = lambda p, q: sum((x * y for x, y in zip(p, q, strict=True)), SymReal(0))
    m.prod = lambda a, start=1: _prod(a, start)

    def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
        a, b = SymReal(a), SymReal(b)
        d = abs(a - b)
        return E.Or(d <= SymReal(rel_tol) * abs(a), d <= SymReal(rel_tol) * abs(b), d <= abs_tol)
    m.isclose = isclose
    slog = m.log

    def log(x, *b):
        if b and all(not isinstance(t, SymReal) or t.num.const() is not None for t in (x,) + b):
            return SymReal(math.log(float(x), float(b[0])))
        return slog(x, *b)
    m.log = log
    for nm in ("cos", "sin", "log10", "log2"):
        def mk(nm=nm):
            real = getattr(math, nm)

            def g(x):
                return real(float(x))
            return g
        setattr(m, nm, mk())
    return m


def _prod(a, start):
    r = start
    for x in a:
        r = r * x
    return r


def _unint(x):
    c = x.num.const()
    return int(c) if c is not None else x


_codes = {}


def _compile(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _codes:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_Lits().visit(tree))
        _codes[key] = compile(tree, path, "exec", dont_inherit=True)
    return _codes[key]


executed = set()       # (file, qualname) of repository functions entered


def _monitor():
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO_SRC):
            executed.add((os.path.relpath(fn, REPO_SRC), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


class World:
    """a fresh copy of the package's modules"""

    def __init__(self):
        self.mods = {}
        self.np = shim_np.make()
        self.math = make_math()
        b = dict(builtins.__dict__)
        b.update(float=s_float, int=s_int, __import__=self._import, __lit__=_lit, __div__=_div)
        self.builtins = b

    def _path(self, name):
        p = os.path.join(REPO_SRC, *name.split("."))
        if os.path.isdir(p):
            q = os.path.join(p, "__init__.py")
            return q, True
        return p + ".py", False

    def load(self, name, run_init=False):
        if name in self.mods and not (run_init and getattr(self.mods[name], "__lazy__", False)):
            return self.mods[name]
        path, pkg = self._path(name)
        m = self.mods.get(name) or types.ModuleType(name)
        self.mods[name] = m
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        parent = name.rpartition(".")[0]
        if parent:
            pm = self.load(parent)
            setattr(pm, name.rpartition(".")[2], m)
        if pkg and not run_init:
            m.__lazy__ = True          # package __init__ only executes when imported from directly
            return m
        m.__lazy__ = False
        if os.path.exists(path):
            exec(_compile(path), m.__dict__)
        elif not pkg:
            del self.mods[name]
            raise ModuleNotFoundError(name)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__", "")
            base = pkg.split(".")
            if level > 1:
                base = base[: -(level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        if full == "numpy" or full.startswith("numpy."):
            if full == "numpy" or not fromlist:
                return self.np
            sub = self.np
            for part in full.split(".")[1:]:
                sub = getattr(sub, part)
            return sub
        if full == "math":
            return self.math
        if full.split(".")[0] == "ellalgo":
            m = self.load(full)
            if fromlist:
                for a in fromlist:
                    if not hasattr(m, a):
                        if getattr(m, "__path__", None):
                            try:
                                self.load(full + "." + a)
                                continue
                            except ModuleNotFoundError:
                                pass
                        if getattr(m, "__lazy__", False):
                            self.load(full, run_init=True)
                return m
            return self.load(full.split(".")[0])
        return builtins.__import__(name, globals, locals, fromlist, level)
