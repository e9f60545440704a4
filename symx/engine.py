"""Path-exploring symbolic executor for Python code over exact reals/integers, deciding with z3 (cvc5 as
second opinion).  The code under test runs unmodified (apart from literals made exact by loader.py) on
SymReal/SymInt/SymBool proxies; every branch on a symbolic condition forks; every claim becomes an SMT query
`path condition and not claim`."""
import math
import numbers
import os
import time
from fractions import Fraction

import numpy as _np
import z3

from . import poly as P
from .poly import Num, nadd, nconst, ndiv, nmul, nneg, nsub, nvar

INF = float("inf")


class EngineStop(BaseException):
    """engine-internal control flow; must not be swallowed by `except Exception`."""


class Unsupported(EngineStop):
    pass


class Infeasible(EngineStop):
    pass


class PathLimit(EngineStop):
    pass


class TaskDone(EngineStop):
    pass


_cur = None            # current SymCtx
_sorts = {}            # var index -> 'real' | 'int'
_zvars = {}            # var index -> z3 expr of sort Real
_zint = {}


def cur():
    return _cur


def zvar(i):
    e = _zvars.get(i)
    if e is None:
        nm = P.var_name(i)
        if _sorts.get(i) == "int":
            v = z3.Int(nm)
            _zint[i] = v
            e = z3.ToReal(v)
        else:
            e = z3.Real(nm)
        _zvars[i] = e
    return e


def zq(c):
    if isinstance(c, Fraction):
        return z3.RealVal(f"{c.numerator}/{c.denominator}")
    return z3.RealVal(int(c))


_poly_cache = {}


def poly_z3(p):
    key = frozenset(p.items())
    e = _poly_cache.get(key)
    if e is not None:
        return e
    terms = []
    for m in sorted(p, reverse=True):
        c = p[m]
        fs = []
        for i, k in P.mono_items(m):
            fs += [zvar(i)] * k
        if c != 1 or not fs:
            fs.insert(0, zq(c))
        t = fs[0]
        if len(fs) > 1:
            t = z3.Product(*fs) if len(fs) > 1 else fs[0]
        terms.append(t)
    e = z3.Sum(*terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
    if len(_poly_cache) > 20000:
        _poly_cache.clear()
    _poly_cache[key] = e
    return e


def poly_vars(p):
    s = set()
    for m in p:
        for i, _ in P.mono_items(m):
            s.add(i)
    return s


def num_vars(x):
    s = poly_vars(x.n)
    for f, _ in x.d:
        s |= poly_vars(P.factor_poly(f))
    return s


# ------------------------------------------------------------------------------------------- values

def to_num(x):
    if isinstance(x, SymReal):
        return x.num
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return nconst(int(x))
    if isinstance(x, (int, Fraction)):
        return nconst(x)
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            return None
        return nconst(Fraction(x))
    if isinstance(x, _np.integer):
        return nconst(int(x))
    if isinstance(x, _np.floating):
        return to_num(float(x))
    if isinstance(x, _np.bool_):
        return nconst(int(x))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return to_num(x.item())
    return NotImplemented


def _binop(op):
    def f(self, o):
        if isinstance(o, _np.ndarray) and o.ndim > 0:
            return NotImplemented
        if isinstance(o, complex):
            return _complex_op(op, self, o)
        n = to_num(o)
        if n is NotImplemented:
            return NotImplemented
        if n is None:
            return _inf_op(op, self, float(o))
        isint = isinstance(self, SymInt) and isinstance(o, (int, SymInt)) and not isinstance(o, bool)
        return _mk(op(self.num, n), isint and op is not _div)
    return f


def _complex_op(op, a, b):
    from . import spectral
    if not spectral.on():
        return NotImplemented
    a, b = spectral.Cx.lift(a), spectral.Cx.lift(b)
    return {nadd: a.__add__, nsub: a.__sub__, nmul: a.__mul__, _div: a.__truediv__}[op](b)


def _rbinop(op):
    def f(self, o):
        if isinstance(o, _np.ndarray) and o.ndim > 0:
            return NotImplemented
        if isinstance(o, complex):
            return _complex_op(op, o, self)
        n = to_num(o)
        if n is NotImplemented:
            return NotImplemented
        if n is None:
            raise Unsupported("arithmetic with inf/nan")
        isint = isinstance(self, SymInt) and isinstance(o, (int, SymInt)) and not isinstance(o, bool)
        return _mk(op(n, self.num), isint and op is not _div)
    return f


def _inf_op(op, self, o):
    if o != o:
        return o
    if op in (nadd,):
        return o
    if op in (nsub,):
        return -o
    raise Unsupported("arithmetic with inf")


def _div(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("float division by zero")
        return ndiv(a, b)
    ctx = _cur
    if not ctx.known_nonzero(b):
        if ctx.decide(cmp_nums("==", b, P.ZERO)):
            raise ZeroDivisionError("float division by zero")
    return ndiv(a, b)


def _mk(n, isint=False):
    r = object.__new__(SymInt if isint else SymReal)
    r.num = n
    return r


def num_z3(x):
    e = poly_z3(x.num.n)
    for f, k in x.num.d:
        for _ in range(k):
            e = e / poly_z3(P.factor_poly(f))
    return e


def cmp_nums(op, a, b):
    d = nsub(a, b)
    c = d.const()
    if c is not None:
        return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
    return SymBool.atom(op, d)


def _cmp(op):
    def f(self, o):
        if isinstance(o, _np.ndarray) and o.ndim > 0:
            return NotImplemented
        n = to_num(o)
        if n is NotImplemented:
            if op in ("==", "!="):
                return op == "!="
            return NotImplemented
        if n is None:
            o = float(o)
            if o != o:
                return op == "!="
            return {"==": False, "!=": True, "<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0}[op]
        if _cur is not None and _cur.task.get("spectral"):
            from . import spectral
            return cmp_nums(op, spectral.named(self).num, spectral.named(_mk(n)).num)
        return cmp_nums(op, self.num, n)
    return f


class SymReal:
    __slots__ = ("num",)
    __array_priority__ = -1000.0

    def __new__(cls, x=0):
        if isinstance(x, Num):
            return _mk(x, False)
        if isinstance(x, SymReal):
            return _mk(x.num, False)
        n = to_num(x)
        if n is NotImplemented or n is None:
            if isinstance(x, str):
                v = float(x)
                if v in (INF, -INF) or v != v:
                    return v
                return _mk(nconst(Fraction(x)))
            if n is None:
                return x
            raise TypeError(f"cannot make a number of {x!r}")
        return _mk(n, False)

    __add__ = _binop(nadd)
    __radd__ = _rbinop(nadd)
    __sub__ = _binop(nsub)
    __rsub__ = _rbinop(nsub)
    __mul__ = _binop(nmul)
    __rmul__ = _rbinop(nmul)
    __truediv__ = _binop(_div)
    __rtruediv__ = _rbinop(_div)
    __eq__ = _cmp("==")
    __ne__ = _cmp("!=")
    __lt__ = _cmp("<")
    __le__ = _cmp("<=")
    __gt__ = _cmp(">")
    __ge__ = _cmp(">=")

    def __hash__(self):
        return hash(self.num.key())

    def __neg__(self):
        return _mk(nneg(self.num), isinstance(self, SymInt))

    def __pos__(self):
        return self

    def __abs__(self):
        if _cur is not None and _cur.task.get("spectral"):
            from . import spectral
            self = spectral.named(self)
            spectral.settle(self)
            if _cur.quick_sign_num(self.num) > 0:
                return self
        if self >= 0:
            return self
        return -self

    def __pow__(self, k):
        if isinstance(k, SymReal):
            k = k.num.const()
            if k is None:
                raise Unsupported("symbolic exponent")
        k = Fraction(k)
        if k.denominator == 1:
            k = int(k)
            if k >= 0:
                r = P.ONE
                for _ in range(k):
                    r = nmul(r, self.num)
                return _mk(r, isinstance(self, SymInt))
            return SymReal(1) / (self ** (-k))
        if k.denominator == 2:
            return sym_sqrt(self) ** k.numerator
        raise Unsupported(f"exponent {k}")

    def __rpow__(self, b):
        c = self.num.const()
        if c is not None:
            return SymReal(b) ** c
        raise Unsupported("symbolic exponent")

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        c = self.num.const()
        if c is None:
            raise Unsupported("float() of a symbolic value")
        return float(c)

    def __int__(self):
        c = self.num.const()
        if c is None:
            raise Unsupported("int() of a symbolic value")
        return int(c)

    def __index__(self):
        c = self.num.const()
        if c is None:
            raise Unsupported("symbolic index")
        c = Fraction(c)
        if c.denominator != 1 or not isinstance(self, SymInt):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(c)

    def __floordiv__(self, o):
        return sym_floor(self / o)

    def __rfloordiv__(self, o):
        return sym_floor(SymReal(o) / self)

    def __mod__(self, o):
        return self - o * sym_floor(self / o)

    def __rmod__(self, o):
        return SymReal(o) % self

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __trunc__(self):
        return sym_trunc(self)

    def __round__(self, nd=None):
        if nd not in (None, 0):
            raise Unsupported("round to digits")
        return sym_rint(self)

    # numpy object ufuncs call these
    def sqrt(self):
        return sym_sqrt(self)

    def exp(self):
        return sym_exp(self)

    def log(self):
        return sym_log(self)

    def __divmod__(self, o):
        return self // o, self % o

    def rint(self):
        r = sym_rint(self)
        return _mk(r.num, False)

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SymReal(0)

    def is_integer(self):
        return bool(self == sym_floor(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        c = self.num.const()
        return f"<{c}>" if c is not None else "<sym>"

    def __format__(self, spec):
        return "<sym>"


class SymInt(SymReal):
    __slots__ = ()

    def __new__(cls, x=0):
        if isinstance(x, Num):
            return _mk(x, True)
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            return sym_trunc(x)
        if isinstance(x, (int, float, _np.number)):
            return _mk(nconst(int(x)), True)
        raise TypeError(f"int of {x!r}")


numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)


class SymBool:
    """z3 boolean with a 'robust negation' used to look for replayable counterexamples."""
    __slots__ = ("e", "vars", "rneg", "fact", "parts")

    def __init__(self, e, vs, rneg=None, fact=None, parts=None):
        self.parts = parts                 # ("and" | "or", members)
        self.e = e
        self.vars = vs
        self.rneg = rneg or (lambda m: z3.Not(e))
        self.fact = fact

    @staticmethod
    def atom(op, d):
        vs = num_vars(d)
        ne = poly_z3(d.n)
        if op in ("==", "!="):
            e = ne == 0
            val = d

            def far(m, d=d):
                up, lo = SymBool.atom(">", nsub(d, nconst(m))), SymBool.atom("<", nadd(d, nconst(m)))
                return z3.Or(up.e, lo.e)
            if op == "==":
                return SymBool(e, vs, far, ("==", d))
            return SymBool(z3.Not(e), vs, None, ("!=", d))
        sgn = 1
        fs = [ne]
        ctx = _cur
        for f, k in d.d:
            if k & 1:
                s = ctx.quick_sign(P.factor_poly(f)) if ctx else 0
                if s > 0:
                    continue
                if s < 0:
                    sgn = -sgn
                    continue
                fs.append(poly_z3(P.factor_poly(f)))
        prod = fs[0] if len(fs) == 1 else z3.Product(*fs)
        eff = op
        if sgn < 0:
            eff = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
        e = {"<": prod < 0, "<=": prod <= 0, ">": prod > 0, ">=": prod >= 0}[eff]

        def rneg(m, op=op, d=d):
            if op in ("<", "<="):
                a = cmp_nums(">", nsub(d, nconst(m)), P.ZERO)
            else:
                a = cmp_nums("<", nadd(d, nconst(m)), P.ZERO)
            return a.e if isinstance(a, SymBool) else z3.BoolVal(a)
        return SymBool(e, vs, rneg, (op, d))

    def __bool__(self):
        return _cur.decide(self)

    def negate(self):
        fact = None
        if self.fact:
            op, d = self.fact
            fact = ({"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[op], d)
        parts = ({"and": "or", "or": "and"}[self.parts[0]], [y.negate() for y in self.parts[1]]) if self.parts else None
        return SymBool(z3.Not(self.e), self.vars, lambda m: self.e, fact, parts)

    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return self.negate()

    def logical_not(self):
        return self.negate()

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else self.negate()
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e, self.vars | o.vars)
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r.negate() if isinstance(r, SymBool) else not r

    def __hash__(self):
        return id(self)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<symbool>"


def _b(x):
    """normalise to python bool or SymBool"""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymReal):
        return x != 0
    return bool(x)


def And(*xs):
    ys = []
    for x in xs:
        x = _b(x)
        if x is False:
            return False
        if x is True:
            continue
        ys.append(x)
    if not ys:
        return True
    if len(ys) == 1:
        return ys[0]
    return SymBool(z3.And(*[y.e for y in ys]), set().union(*[y.vars for y in ys]),
                   lambda m: z3.Or(*[y.rneg(m) for y in ys]), parts=("and", ys) if _cur is not None and _cur.task.get("spectral") else None)


def Or(*xs):
    ys = []
    for x in xs:
        x = _b(x)
        if x is True:
            return True
        if x is False:
            continue
        ys.append(x)
    if not ys:
        return False
    if len(ys) == 1:
        return ys[0]
    return SymBool(z3.Or(*[y.e for y in ys]), set().union(*[y.vars for y in ys]),
                   lambda m: z3.And(*[y.rneg(m) for y in ys]), parts=("or", ys) if _cur is not None and _cur.task.get("spectral") else None)


def Not(x):
    x = _b(x)
    return x.negate() if isinstance(x, SymBool) else (not x)


# ------------------------------------------------------------------------------- non-polynomial functions

def sym_sqrt(x):
    x = SymReal(x) if not isinstance(x, SymReal) else x
    ctx = _cur
    if ctx.task.get("spectral"):
        from . import spectral
        x = spectral.named(x)
    n = x.num
    c = n.const()
    if c is not None:
        c = Fraction(c)
        if c < 0:
            raise ValueError("expected a nonnegative input, got a negative one")
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return SymReal(Fraction(a, b))
    else:
        if ctx.quick_sign_num(n) <= 0:
            if ctx.decide(cmp_nums("<", n, P.ZERO)):
                raise ValueError("math domain error")
    # perfect square?
    if all(e % 2 == 0 for _, e in n.d):
        r = P.psqrt(n.n)
        if r is not None:
            rn = n
            rt = Num(r, tuple((f, e // 2) for f, e in n.d))
            rs = _mk(rt)
            sg = ctx.quick_sign_num(rt)
            if sg > 0:
                return rs
            if sg < 0:
                return -rs
            return rs if ctx.decide(cmp_nums(">=", rt, P.ZERO)) else -rs
    key = n.key()
    memo = ctx.sqrt_memo
    if key in memo:
        return memo[key]
    i = P.var_index(f"sqrt!{len(memo)}!{ctx.uid}")
    # equal-up-to-representation radicands were merged by the canonical key above
    P.SQ[i] = n
    s = _mk(nvar(i))
    memo[key] = s
    ctx.sqrt_vars.append(i)
    e = zvar(i)
    rad_e = n
    # s >= 0 and s^2 * den = num
    den = z3.RealVal(1)
    fs = []
    for f, k in n.d:
        fs += [poly_z3(P.factor_poly(f))] * k
    lhs = z3.Product(e, e, *fs)
    vs = num_vars(n) | {i}
    ctx.add_axiom(z3.And(e >= 0, lhs == poly_z3(n.n)), vs)
    if ctx.quick_sign_num(n) > 0:
        ctx.add_axiom(e > 0, {i})
        ctx.pos.add(i)
    else:
        ctx.nonneg.add(i)
    return s


def _fresh_int(ctx, tag):
    ctx.n_fresh += 1
    i = P.var_index(f"{tag}!{ctx.n_fresh}")
    _sorts[i] = "int"
    zvar(i)
    return i


def sym_floor(x):
    n = to_num(x)
    c = n.const()
    if c is not None:
        return SymInt(nconst(math.floor(c)))
    if isinstance(x, SymInt):
        return x
    ctx = _cur
    key = ("floor", n.key())
    if key in ctx.fn_memo:
        return ctx.fn_memo[key]
    i = _fresh_int(ctx, "floor")
    r = _mk(nvar(i), True)
    ctx.assume_raw(And(r <= _mk(n), _mk(n) < r + 1))
    ctx.fn_memo[key] = r
    return r


def sym_trunc(x):
    if isinstance(x, SymInt):
        return x
    n = to_num(x)
    c = n.const()
    if c is not None:
        return SymInt(nconst(int(c)))
    ctx = _cur
    key = ("trunc", n.key())
    if key in ctx.fn_memo:
        return ctx.fn_memo[key]
    i = _fresh_int(ctx, "trunc")
    r = _mk(nvar(i), True)
    X = _mk(n)
    ctx.assume_raw(Or(And(X >= 0, r <= X, X < r + 1), And(X < 0, r >= X, X > r - 1)))
    ctx.fn_memo[key] = r
    return r


def sym_rint(x):
    if isinstance(x, SymInt):
        return x
    n = to_num(x)
    c = n.const()
    if c is not None:
        return SymInt(nconst(round(Fraction(c))))
    ctx = _cur
    if not n.d and all(Fraction(co).denominator == 1 and all(i in _zint for i, _ in P.mono_items(mo)) for mo, co in n.n.items()):
        return _mk(n, True)              # an integer already
    key = ("rint", n.key())
    if key in ctx.fn_memo:
        return ctx.fn_memo[key]
    i = _fresh_int(ctx, "rint")
    r = _mk(nvar(i), True)
    X = _mk(n)
    h = Fraction(1, 2)
    tie = Or(X - r == h, X - r == -h)
    even = SymBool(zi(i) % 2 == 0, {i})
    ctx.assume_raw(And(X - r <= h, r - X <= h, Or(Not(tie), even)))
    ctx.fn_memo[key] = r
    return r


def zi(i):
    zvar(i)
    return _zint[i]


def sym_exp(x):
    """exp as an uninterpreted positive function; exp(log u) = u; further axioms on request."""
    if type(x).__name__ in ("Lin", "Cx"):
        from . import spectral
        if type(x).__name__ == "Cx":
            raise Unsupported("exponential of a symbolic complex number")
        return spectral.exp(x)
    if not isinstance(x, SymReal):
        x = SymReal(x)
    ctx = _cur
    n = x.num
    c = n.const()
    if c == 0:
        return SymReal(1)
    key = n.key()
    if key in ctx.exp_memo:
        return ctx.exp_memo[key]
    ctx.n_fresh += 1
    i = P.var_index(f"exp!{len(ctx.exp_memo)}!{ctx.uid}")
    r = _mk(nvar(i))
    ctx.pos.add(i)
    ctx.add_axiom(zvar(i) > 0, {i})
    ctx.exp_memo[key] = r
    ctx.exp_pairs.append((x, r))
    ctx.exp_log.append(("exp", x, r))
    return r


def _log_monomial(ctx, n):
    """log of a product/quotient of known exponentials: the sum of their logarithms, or None"""
    if len(n.n) != 1:
        return None
    known = {}
    for a, e in ctx.exp_pairs:
        if not e.num.d and len(e.num.n) == 1:
            (mo, co), = e.num.n.items()
            it = list(P.mono_items(mo))
            if co == 1 and len(it) == 1 and it[0][1] == 1:
                known[it[0][0]] = a
    (mo, co), = n.n.items()
    if co != 1:
        return None
    parts = [(i, k) for i, k in P.mono_items(mo)]
    for f, k in n.d:
        p = P.factor_poly(f)
        if len(p) != 1:
            return None
        parts += [(i, -k * q) for i, q in P.mono_items(next(iter(p)))]
    if not parts or any(i not in known for i, _ in parts):
        return None
    r = SymReal(0)
    for i, k in parts:
        r = r + known[i] * k
    return r


def sym_log(u):
    if type(u).__name__ in ("Lin", "Cx"):
        raise Unsupported("logarithm of this value")
    if not isinstance(u, SymReal):
        u = SymReal(u)
    ctx = _cur
    if ctx.task.get("spectral"):
        from . import spectral
        return spectral.log(u)
    n = u.num
    if n.const() == 1:
        return SymReal(0)
    if ctx.quick_sign_num(n) <= 0:
        if ctx.decide(cmp_nums("<=", n, P.ZERO)):
            raise ValueError("math domain error")
    for a, e in ctx.exp_pairs:
        if nsub(e.num, n).is_zero():
            return a
    split = _log_monomial(ctx, n)
    if split is not None:
        return split
    ctx.n_fresh += 1
    i = P.var_index(f"log!{len(ctx.exp_pairs)}!{ctx.uid}")
    r = _mk(nvar(i))
    ctx.exp_memo[r.num.key()] = u
    ctx.exp_pairs.append((r, u))
    ctx.exp_log.append(("log", r, u))
    return r


def ln_bounds(c):
    """rational lower/upper bounds of log(c), c a positive Fraction (mpmath interval arithmetic)."""
    raise Unsupported("log of constant")


# ------------------------------------------------------------------------------------------- context

class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.feas = 0
        self.unknown_feas = 0
        self.paths = 0
        self.decisions = 0
        self.obligations = 0
        self.discharged = 0
        self.by_normal_form = 0
        self.by_solver = 0
        self.solvers = {}


class SymCtx:
    """one path execution"""
    symbolic = True

    def __init__(self, task, prefix, stats):
        global _cur
        self.task = task
        self.prefix = prefix
        self.stats = stats
        self.uid = 0
        self.decisions = []
        self.pending = []
        self.pc = []            # (z3 expr, vars)
        self.pos = set()
        self.nonneg = set()
        self.known = {}         # factor id -> sign / 'nz'
        self.inputs = []        # (name, kind, var index)
        self.sqrt_memo = {}
        self.sqrt_vars = []
        self.fn_memo = {}
        self.exp_memo = {}
        self.exp_pairs = []
        self.exp_log = []       # ('exp'|'log', argument side, value side) in creation order
        self.n_fresh = 0
        self.labels = []
        self.observed = []
        self.facts = []
        self.known_ids = set()
        self.failures = []      # dicts
        self.inconclusive = []
        self.solver = z3.Solver()
        self.feas_timeout = task.get("feas_ms", 400)
        self.max_decisions = task.get("max_decisions", 4000)
        self.deadline = task.get("deadline")
        P.reset()
        _cur = self

    # ---- facts
    def quick_sign(self, p):
        """+1/-1 if p has that strict sign on this path by inspection, else 0"""
        f, lc = P.intern_factor(p) if not (len(p) == 1 and 0 in p) else (None, p.get(0, 0))
        if f is None:
            return (lc > 0) - (lc < 0)
        k = self.known.get(f)
        if k in (1, -1):
            return k if lc > 0 else -k
        allp = True
        alln = True
        strict = False
        for m, c in p.items():
            st = True
            ok = True
            for i, e in P.mono_items(m):
                if i in self.pos:
                    continue
                if e % 2 == 0 or i in self.nonneg:
                    st = False
                    continue
                ok = False
                break
            if not ok:
                return 0
            if c > 0:
                alln = False
            else:
                allp = False
            if st:
                strict = True
        if strict and allp:
            return 1
        if strict and alln:
            return -1
        return 0

    def quick_sign_num(self, n):
        s = self.quick_sign(n.n) if n.n else 0
        if s == 0:
            return 0
        for f, k in n.d:
            if k & 1:
                s *= self.quick_sign(P.factor_poly(f))
        return s

    def known_nonzero(self, n):
        if self.quick_sign(n.n):
            return True
        # all split factors known nonzero?
        c, facs = P.split_factors(n.n)
        return all(self.known.get(f) or self.quick_sign(P.factor_poly(f)) for f, _ in facs)

    def note_fact(self, b):
        if not b.fact:
            return
        self.facts.append(b.fact)
        op, d = b.fact
        sgn = 1
        for f, k in d.d:
            if k & 1:
                s = self.quick_sign(P.factor_poly(f))
                if s == 0:
                    sgn = 0
                    break
                sgn *= s
        if not d.n or (len(d.n) == 1 and 0 in d.n):
            return
        f, lc = P.intern_factor(d.n)
        if op == "!=":
            self.known.setdefault(f, "nz")
        elif op in (">", "<") and sgn:
            s = sgn * (1 if op == ">" else -1) * (1 if lc > 0 else -1)
            self.known[f] = s
            if len(d.n) == 1:
                (m, c), = d.n.items()
                its = list(P.mono_items(m))
                if len(its) == 1 and its[0][1] == 1 and s > 0:
                    self.pos.add(its[0][0])
        elif op in (">", "<"):
            self.known.setdefault(f, "nz")
        elif op in (">=", "<=") and sgn and len(d.n) == 1:
            (m, c), = d.n.items()
            its = list(P.mono_items(m))
            s = sgn * (1 if op == ">=" else -1) * (1 if c > 0 else -1)
            if len(its) == 1 and its[0][1] == 1 and s > 0:
                self.nonneg.add(its[0][0])

    # ---- constraints
    def add_axiom(self, e, vs):
        self.pc.append((e, frozenset(vs)))
        self.solver.add(e)

    def assume_raw(self, b):
        b = _b(b)
        if b is True:
            return
        if b is False:
            raise Infeasible("assumption is false")
        self.add_axiom(b.e, b.vars)
        self.note_fact(b)

    def assume(self, b):
        self.assume_raw(b)

    def cone(self, vs):
        vs = set(vs)
        rest = list(self.pc)
        out = []
        changed = True
        while changed:
            changed = False
            nxt = []
            for e, v in rest:
                if v & vs or not v:
                    out.append(e)
                    if not v <= vs:
                        vs |= v
                    changed = True
                else:
                    nxt.append((e, v))
            rest = nxt
        return out

    def _check(self, exprs, timeout, tactic=None):
        t = time.time()
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.set("timeout", int(timeout))
        s.add(*exprs)
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r, s

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("task time budget exhausted")

    def decide(self, b):
        if b is True or b is False:
            return b
        self.check_time()
        i = len(self.decisions)
        self.stats.decisions += 1
        if i >= self.max_decisions:
            raise PathLimit("too many decisions on one path")
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            base = self.cone(b.vars)
            r1, _ = self._check(base + [b.e], self.feas_timeout)
            self.stats.feas += 1
            if r1 == z3.unsat:
                v = False
            else:
                r2, _ = self._check(base + [z3.Not(b.e)], self.feas_timeout)
                self.stats.feas += 1
                if r1 == z3.unknown or r2 == z3.unknown:
                    self.stats.unknown_feas += 1
                if r2 == z3.unsat:
                    v = True
                else:
                    v = True
                    self.pending.append(self.decisions + [False])
        self.decisions.append(v)
        c = b if v else b.negate()
        self.add_axiom(c.e, c.vars)
        self.note_fact(c)
        if c.parts and c.parts[0] == "and":
            for y in c.parts[1]:
                self.note_fact(y)
        return v

    # ---- harness API: inputs
    def real(self, name, pos=False, nonneg=False):
        i = P.var_index(name)
        _sorts[i] = "real"
        r = _mk(nvar(i))
        self.inputs.append((name, "real", i))
        if pos:
            self.pos.add(i)
            self.add_axiom(zvar(i) > 0, {i})
        elif nonneg:
            self.nonneg.add(i)
            self.add_axiom(zvar(i) >= 0, {i})
        return r

    def integer(self, name, lo=None, hi=None):
        i = P.var_index(name)
        _sorts[i] = "int"
        zvar(i)
        r = _mk(nvar(i), True)
        self.inputs.append((name, "int", i))
        if lo is not None:
            self.add_axiom(_zint[i] >= lo, {i})
            if lo > 0:
                self.pos.add(i)
            elif lo == 0:
                self.nonneg.add(i)
        if hi is not None:
            self.add_axiom(_zint[i] <= hi, {i})
        return r

    def choice(self, name, k):
        v = self.integer(name, 0, k - 1)
        for j in range(k - 1):
            if self.decide(_b(v == j)):
                return j
        return k - 1

    def boolean(self, name):
        return self.choice(name, 2) == 1

    def const(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return SymInt(v)
        return SymReal(Fraction(v) if not isinstance(v, str) else Fraction(v))

    def num(self, v):
        """exact real constant (as the code would see a float)"""
        return SymReal(Fraction(v))

    def arr(self, xs):
        return self.np.array(xs, dtype=float)

    def iarr(self, xs):
        return self.np.array(xs, dtype=int)

    def vec(self, name, n, **k):
        return self.arr([self.real(f"{name}{i}", **k) for i in range(n)])

    def symmat(self, name, n):
        rows = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                rows[i][j] = rows[j][i] = self.real(f"{name}{i}{j}")
        return self.arr(rows)

    # ---- predicates
    def le(self, a, b):
        return _b(SymReal(a) <= b)

    def lt(self, a, b):
        return _b(SymReal(a) < b)

    def ge(self, a, b):
        return _b(SymReal(a) >= b)

    def gt(self, a, b):
        return _b(SymReal(a) > b)

    def eq(self, a, b):
        return _b(SymReal(a) == b)

    def ne(self, a, b):
        return _b(SymReal(a) != b)

    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)

    def Implies(self, a, b):
        return Or(Not(a), b)

    def Iff(self, a, b):
        return And(Or(Not(a), b), Or(Not(b), a))

    def sqrt(self, x):
        return sym_sqrt(x)

    def exp(self, x):
        return sym_exp(x)

    def log(self, x):
        return sym_log(x)

    def rint(self, x):
        return _mk(sym_rint(x).num)

    unsupported = Unsupported

    def listed(self, kid):
        return kid in self.known_ids

    def axiom(self, b):
        """a mathematical fact handed to the solver (listed in the harness), not an assumption on inputs"""
        self.assume_raw(b)

    def is_true(self, b):
        """fork on b and return a python bool"""
        b = _b(b)
        return b if isinstance(b, bool) else self.decide(b)

    settle = is_true

    def reach(self, label):
        self.labels.append(label)

    def observe(self, name, v):
        self.observed.append((name, v))

    # ---- claims
    def prove(self, claim, label):
        self.check_time()
        self.labels.append(label)
        self.stats.obligations += 1
        if callable(claim):
            claim = claim()
        claim = _b(claim)
        if claim is True:
            self.stats.discharged += 1
            self.stats.by_normal_form += 1
            return True
        if claim is False:
            neg = z3.BoolVal(True)
            vs = set()
            rneg = lambda m: z3.BoolVal(True)      # noqa: E731
            base = self.spec_split()[0] if self.task.get("spectral") else [e for e, _ in self.pc]
        else:
            neg = z3.Not(claim.e)
            vs = claim.vars
            rneg = claim.rneg
            base = self.cone(vs)
            if self.task.get("spectral"):            # first from the linear facts alone, then from the others
                defs = getattr(self, "spec", {}).get("defs", {})
                lin, nonlin, _ = self.spec_split()
                for part in ([e for e in lin if e.get_id() not in defs], nonlin, lin):
                    r, _ = self._check(part + [neg], 20000)
                    if r == z3.unsat:
                        base = part
                        break
                else:
                    if next(self.spec_models(neg), None) is not None:
                        self.failures.append({"label": label})
                        self.task["on_failure"](self, label, neg, rneg)
                        self.assume_raw(claim)
                        return False
        r, who = self.solve_unsat(base + [neg], self.task.get("prove_s", 20))
        if r == "unsat":
            self.stats.discharged += 1
            self.stats.by_solver += 1
            self.stats.solvers[who] = self.stats.solvers.get(who, 0) + 1
            if claim is False:
                raise Infeasible(label)
            self.assume_raw(claim)
            return True
        if r == "unknown":
            self.inconclusive.append(label)
            if claim is not False:
                self.assume_raw(claim)
            return None
        # sat: look for a counterexample that replays on the real code
        self.failures.append({"label": label})
        self.task["on_failure"](self, label, neg, rneg)
        if claim is False:
            raise Infeasible(label)
        self.assume_raw(claim)
        return False

    def fail(self, label):
        return self.prove(False, label)

    def spec_split(self):
        """the facts of a spectral task: linear ones, ones with roots and points on the circle, the unknowns of the latter"""
        odd = set(self.sqrt_vars) | {v for e, w in self.pc for v in w if P.var_name(v).split("!")[0] in ("cos", "sin", "mag")}
        return [e for e, w in self.pc if not w & odd], [e for e, w in self.pc if w & odd], odd

    def spec_models(self, neg):
        """models of all facts with neg: samples from the linear facts, then the rest at these values"""
        lin, nonlin, odd = self.spec_split()
        shared = sorted({v for e, w in self.pc for v in w} - odd)
        ins = [zvar(i) for _, kind, i in self.inputs if kind == "real"]
        byname = {nm: zvar(i) for nm, _, i in self.inputs}
        boxes = [[byname[nm] == z3.Q(*v.as_integer_ratio()) for nm, v in h.items()] for h in self.task.get("hints", ())]
        boxes += [[z3.Or(z3.And(e >= lo, e <= 9), z3.And(e <= -lo, e >= -9)) for e in ins] for lo in (z3.Q(1, 4), z3.Q(1, 16))]
        boxes += [[e == z3.Q(k, 16) for e, k in zip(ins[1:], ks)] for ks in ((5, 3, -7, 2, 9, 1, -4, 6), (-6, 11, 4, -3, 1, 7, 2, -5), (9, 5, 2, 1, 1, 1, 1, 1))] + [[]]
        for box in boxes:
            r, s = self._check(lin + box + [neg], 3000)
            if r != z3.sat:
                r, s = self._check(lin + box, 8000)
            if r != z3.sat:
                continue
            m = s.model()
            pins = [zvar(i) == m.eval(zvar(i), model_completion=True) for i in shared]
            pins += [e == m.eval(e, model_completion=True) for e in ins]
            for tac in (None, "qfnra-nlsat"):
                try:
                    r, _ = self._check(nonlin + pins + [neg], 4000, tac)
                except z3.Z3Exception:
                    continue
                if r == z3.sat:
                    yield self.model_inputs(m)
                if r != z3.unknown:
                    break

    def solve_unsat(self, exprs, budget_s):
        """portfolio: returns (unsat|sat|unknown, solver name)"""
        sched = [("z3", None, 0.1), ("z3-nlsat", "qfnra-nlsat", 0.2), ("z3", None, 1.0), ("z3-nlsat", "qfnra-nlsat", 1.0)]
        for nm, tac, frac in sched:
            self.check_time()
            try:
                r, _ = self._check(exprs, budget_s * frac * 1000, tac)
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return "unsat", nm
            if r == z3.sat:
                return "sat", nm
        r = cvc5_check(exprs, budget_s, self.stats)
        return r, "cvc5"

    def models(self, neg, rneg):
        """candidate counterexample models, nicest first"""
        if self.task.get("spectral"):
            yield from self.spec_models(neg)
        full = [e for e, _ in self.pc]
        box = []
        for name, kind, i in self.inputs:
            if kind == "real":
                e = zvar(i)
                box.append(z3.And(e <= 16, e >= -16, z3.Or(e == 0, e >= z3.Q(1, 8), e <= z3.Q(-1, 8))))
        tries = []
        for m in (Fraction(1), Fraction(1, 10), Fraction(1, 100), Fraction(1, 10 ** 4)):
            try:
                tries.append(full + box + [rneg(m)])
            except EngineStop:
                pass
        tries.append(full + box + [neg])
        for m in (Fraction(1, 10 ** 4),):
            try:
                tries.append(full + [rneg(m)])
            except EngineStop:
                pass
        tries.append(full + [neg])
        if not self.task.get("spectral"):
            tries += [("marg", m) for m in (Fraction(1, 1000), Fraction(1, 10 ** 5))]
        seen = set()
        for ex in tries:
            if isinstance(ex, tuple):                    # away from the borders of the branches taken
                ex = full + self.margins(ex[1]) + [neg]
            for tac in (None, "qfnra-nlsat"):
                try:
                    r, s = self._check(ex, 8000, tac)
                except z3.Z3Exception:
                    continue
                if r == z3.sat:
                    for mv in [self.model_inputs(s.model())] + ([self.pin_exp(ex, s.model())] if self.exp_pairs else []):
                        key = repr(sorted(mv.items())) if mv is not None else None
                        if mv is not None and key not in seen:
                            seen.add(key)
                            yield mv
                    break
                if r == z3.unsat:
                    break

    def pin_exp(self, exprs, model):
        """a model near the given one in which every exp/log value used is the true one (to rounding)"""
        import math
        ex = list(exprs)
        for kind, a, e in self.exp_log:
            src, dst = (a, e) if kind == "exp" else (e, a)
            v = model_value(model.eval(num_z3(src), model_completion=True), "real")
            try:
                w = math.exp(v) if kind == "exp" else math.log(v)
            except (ValueError, OverflowError):
                return None
            for b in (cmp_nums("==", src.num, nconst(Fraction(v))), cmp_nums("==", dst.num, nconst(Fraction(w)))):
                if isinstance(b, SymBool):
                    ex.append(b.e)
            try:
                r, s = self._check(ex, 3000)
                if r == z3.unknown:
                    r, s = self._check(ex, 3000, "qfnra-nlsat")
            except z3.Z3Exception:
                return None
            if r != z3.sat:
                return None
            model = s.model()
        return self.model_inputs(model)

    def model_inputs(self, model):
        out = {}
        for name, kind, i in self.inputs:
            v = model.eval(_zint[i] if kind == "int" else zvar(i), model_completion=True)
            out[name] = model_value(v, kind)
        return out

    def margins(self, margin):
        """the decisions of this path, taken with a margin"""
        marg = []
        for op, d in self.facts:
            if self.task.get("spectral") and len(num_vars(d)) > 1:
                continue                             # the smallest sample is one of the samples
            m = nconst(margin)
            try:
                if op in ("<", "<="):
                    b = cmp_nums("<=", nadd(d, m), P.ZERO)
                elif op in (">", ">="):
                    b = cmp_nums(">=", nsub(d, m), P.ZERO)
                elif op == "!=":
                    b = Or(cmp_nums(">=", nsub(d, m), P.ZERO), cmp_nums("<=", nadd(d, m), P.ZERO))
                else:
                    continue
            except EngineStop:
                continue
            if isinstance(b, SymBool):
                marg.append(b.e)
        return marg

    def witness(self):
        """(model of the whole path condition, robust?) or (None, False)"""
        full = [e for e, _ in self.pc] if not self.task.get("spectral") else self.spec_split()[0]
        marg = self.margins(Fraction(1, 1000) if not self.task.get("spectral") else Fraction(1, 10 ** 5))
        box = []
        for name, kind, i in self.inputs:
            if kind == "real":
                e = zvar(i)
                box.append(z3.And(e <= 6, e >= -6, z3.Or(e == 0, e >= z3.Q(1, 4), e <= z3.Q(-1, 4))))
        if self.task.get("spectral"):
            ins = [zvar(i) for _, _, i in self.inputs]
            for ks in ((5, 3, -7, 2, 9, 1, -4, 6, 2, 3, 1), (1,) * 11, (0,) * 11):
                r, s = self._check(full + marg + [e == z3.Q(k, 8) for e, k in zip(ins[1:], ks)], 1500)
                if r == z3.sat:
                    return self.model_inputs(s.model()), True
        if self.task.get("robust_witness", True):
            for tac in ("qfnra-nlsat", None):
                try:
                    r, s = self._check(full + marg + box, 700, tac)
                except z3.Z3Exception:
                    continue
                if r == z3.sat:
                    if self.exp_pairs:
                        mv = self.pin_exp(full + marg, s.model())
                        if mv is None:
                            break
                        return mv, True
                    return self.model_inputs(s.model()), True
                if r == z3.unsat:
                    break
        for tac in (None, "qfnra-nlsat"):
            try:
                r, s = self._check(full, 1500, tac)
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                return self.model_inputs(s.model()), False
            if r == z3.unsat:
                return None, False
        return None, False


def model_value(v, kind):
    if kind == "int":
        return int(v.as_long())
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return float(f)
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0.0


def cvc5_check(exprs, budget_s, stats):
    import subprocess
    s = z3.Solver()
    s.add(*exprs)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    t = time.time()
    stats.queries += 1
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--nl-cov", f"--tlimit={int(budget_s * 1000)}"], input=txt,
                           capture_output=True, text=True, timeout=budget_s + 10)
        out = p.stdout.strip().splitlines()
    except Exception:
        out = []
    stats.solver_s += time.time() - t
    if any("error" in x for x in out):
        return "unknown"
    if out and out[0] in ("sat", "unsat"):
        # a sat verdict from cvc5 alone still needs a z3 model to replay
        return out[0]
    return "unknown"
