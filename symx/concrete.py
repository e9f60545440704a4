"""Concrete twin of engine.SymCtx: runs the same harness functions on the real, unmodified code with real numpy.

Used under the repository's own interpreter to (a) replay solver counterexamples before they are reported and
(b) run the model of each explored path through the real code (validation of the symbolic execution).
Comparisons are three-valued: a claim counts as violated only if it fails by more than a rounding tolerance."""
import importlib
import json
import math
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


class Skip(BaseException):
    pass


class NaNSeen(Exception):
    pass


class Tri:
    """True / False / unclear (None)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return bool(self.v)


def tri(x):
    if isinstance(x, Tri):
        return x.v
    return bool(x)


class ConcreteCtx:
    symbolic = False

    def __init__(self, inputs, tol=1e-7, exact_order=False, known=(), slices=None):
        import numpy as np
        self.np = np
        self.math = math
        self.inputs = inputs
        self.tol = tol
        self.exact_order = exact_order
        self.failures = []
        self.labels = []
        self.known_ids = set(known)
        self.n_proved = 0

    def mod(self, name):
        return importlib.import_module(name)

    def listed(self, kid):
        return kid in self.known_ids

    # inputs
    def real(self, name, pos=False, nonneg=False):
        v = float(self.inputs.get(name, 0.0))
        if (pos and v <= 0) or (nonneg and v < 0):
            raise Skip(name)
        return v

    def integer(self, name, lo=None, hi=None):
        v = int(self.inputs.get(name, lo or 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def choice(self, name, k):
        return self.integer(name, 0, k - 1)

    def boolean(self, name):
        return self.choice(name, 2) == 1

    def const(self, v):
        if isinstance(v, str):
            from fractions import Fraction
            return float(Fraction(v))
        return v

    def num(self, v):
        return float(v)

    def arr(self, xs):
        return self.np.array(xs, dtype=float)

    def iarr(self, xs):
        return self.np.array(xs, dtype=int)

    def vec(self, name, n, **k):
        return self.arr([self.real(f"{name}{i}", **k) for i in range(n)])

    def symmat(self, name, n):
        rows = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                rows[i][j] = rows[j][i] = self.real(f"{name}{i}{j}")
        return self.arr(rows)

    # predicates
    def _c(self, a, b):
        a, b = float(a), float(b)
        if a != a or b != b:
            raise NaNSeen("NaN in a compared quantity")
        if math.isinf(a) or math.isinf(b):
            return a, b, 0.0
        return a, b, self.tol * (1.0 + max(abs(a), abs(b)))

    def _ord(self, a, b, strict):
        a, b, t = self._c(a, b)
        if self.exact_order:
            return Tri(a < b if strict else a <= b)
        if a < b - t:
            return Tri(True)
        if a > b + t:
            return Tri(False)
        return Tri(None)

    def le(self, a, b):
        return self._ord(a, b, False)

    def lt(self, a, b):
        return self._ord(a, b, True)

    def ge(self, a, b):
        return self._ord(b, a, False)

    def gt(self, a, b):
        return self._ord(b, a, True)

    def eq(self, a, b):
        a, b, t = self._c(a, b)
        if a == b:
            return Tri(True)
        return Tri(False) if abs(a - b) > t else Tri(None)

    def ne(self, a, b):
        return self.Not(self.eq(a, b))

    @staticmethod
    def Not(a):
        v = tri(a)
        return Tri(None if v is None else not v)

    @staticmethod
    def And(*xs):
        vs = [tri(x) for x in xs]
        if any(v is False for v in vs):
            return Tri(False)
        return Tri(None) if any(v is None for v in vs) else Tri(True)

    @staticmethod
    def Or(*xs):
        vs = [tri(x) for x in xs]
        if any(v is True for v in vs):
            return Tri(True)
        return Tri(None) if any(v is None for v in vs) else Tri(False)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.And(self.Implies(a, b), self.Implies(b, a))

    def sqrt(self, x):
        return math.sqrt(max(float(x), 0.0)) if float(x) > -1e-9 else math.sqrt(x)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def rint(self, x):
        return float(round(float(x)))

    def is_true(self, b):
        return bool(b)

    def settle(self, b):
        """a case split that must not be taken on a rounding error"""
        if tri(b) is None:
            raise Skip("too close to call")
        return tri(b)

    def assume(self, b):
        if tri(b) is False:
            raise Skip("assumption")

    def axiom(self, b):
        pass

    def reach(self, label):
        self.labels.append(label)

    def observe(self, name, v):
        pass

    def prove(self, claim, label):
        self.labels.append(label)
        self.n_proved += 1
        if tri(claim() if callable(claim) else claim) is False:
            self.failures.append(label)
            return False
        return True

    def fail(self, label):
        return self.prove(False, label)


def purge():
    for k in list(sys.modules):
        if k == "ellalgo" or k.startswith("ellalgo."):
            del sys.modules[k]


def run_one(job):
    """job: harness, task, inputs, tol, exact_order, known"""
    purge()
    hm = importlib.import_module("harness." + job["harness"])
    task = hm.task(job["task"])
    ctx = ConcreteCtx(job["inputs"], job.get("tol", 1e-7), job.get("exact_order", False), job.get("known", ()))
    out = {"failures": [], "skip": None, "exc": None}
    import numpy as np
    try:
        with np.errstate(all="ignore"):
            task["fn"](ctx, **task.get("params", {}))
    except Skip as e:
        # a claim that failed before did so under the assumptions made until then
        out["skip"] = None if ctx.failures else str(e)
    except Exception as e:
        out["exc"] = type(e).__name__ + ": " + str(e)[:200]
        out["tb"] = traceback.format_exc()[-1500:]
        ctx.failures.append("exception:" + type(e).__name__)
    out["failures"] = ctx.failures
    out["labels"] = ctx.labels[-50:]
    return out


def main():
    sys.path[:0] = [REPO_SRC, ROOT]
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    real_stdout = os.dup(1)
    os.dup2(2, 1)                       # code under test may print
    jobs = json.load(sys.stdin)
    res = [run_one(j) for j in jobs]
    with os.fdopen(real_stdout, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
