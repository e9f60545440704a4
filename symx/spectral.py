"""Values for code that goes from a sampled spectrum to a signal: logarithms, discrete Fourier transforms, complex exponentials.

Switched on by a task (`spectral=True`).  A logarithm becomes a new real unknown per distinct argument (`Lin`: a complex linear
combination of such unknowns, on which a Fourier transform of any length acts as numpy's own does on the coefficients); the
exponential of a combination is a magnitude and a point on the unit circle (`Cx`), one unknown point per distinct phase, the
mirrored point for the opposite phase.  A Fourier transform of `Cx` values uses exact algebraic twiddle factors.  Cosines of
given angles are rounded to 9 digits, so that samples which are equal in exact arithmetic are equal here; linear combinations are
identified up to 1e-8 in every coefficient."""
from fractions import Fraction

import numpy as np
import z3

from . import engine as E
from . import poly as P
from .engine import SymBool, SymReal, Unsupported

TOL = 1e-8


def on():
    ctx = E.cur()
    return ctx is not None and bool(ctx.task.get("spectral"))


def _store():
    ctx = E.cur()
    if not hasattr(ctx, "spec"):
        ctx.spec = {"logs": [None], "keys": {}, "phases": [], "mags": [], "ite": 0}
    return ctx.spec


def fresh(tag):
    st = _store()
    st["ite"] += 1
    return E._mk(E.nvar(P.var_index(f"{tag}!{st['ite']}")))


def snap(x):
    return np.round(x, 9) + 0.0


def cnum(o):
    """a plain number as complex, or None"""
    if isinstance(o, SymReal):
        c = o.num.const()
        return None if c is None else complex(float(c))
    if isinstance(o, Cx):
        a, b = o.re.num.const(), o.im.num.const()
        return None if a is None or b is None else complex(float(a), float(b))
    if isinstance(o, (int, float, complex, np.number, Fraction)) and not isinstance(o, bool):
        return complex(o)
    return None


class Lin:
    """constant + complex combination of logarithms"""
    __slots__ = ("v",)
    __array_priority__ = -1000.0

    def __init__(self, v):
        self.v = v

    def _pair(self, o):
        n = max(len(self.v), len(o.v))
        return np.pad(self.v, (0, n - len(self.v))), np.pad(o.v, (0, n - len(o.v)))

    def _lift(self, o):
        if isinstance(o, Lin):
            return o
        c = cnum(o)
        return None if c is None else Lin(np.array([c]))

    def __add__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        a, b = self._pair(o)
        return Lin(a + b)
    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.v)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._lift(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        c = cnum(o)
        if c is None:
            if isinstance(o, np.ndarray) and o.ndim:
                return NotImplemented
            raise Unsupported("product of logarithms")
        return Lin(self.v * c)
    __rmul__ = __mul__

    def __truediv__(self, o):
        c = cnum(o)
        if c is None:
            if isinstance(o, np.ndarray) and o.ndim:
                return NotImplemented
            raise Unsupported("quotient of logarithms")
        return Lin(self.v / c)

    def _no(self, *a):
        raise Unsupported("comparison of logarithms")
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __abs__ = __bool__ = __float__ = __complex__ = _no
    __hash__ = None

    @property
    def real(self):
        return Lin(self.v.real.astype(complex))

    @property
    def imag(self):
        return Lin(self.v.imag.astype(complex))

    def conjugate(self):
        return Lin(self.v.conj())
    conj = conjugate

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<Lin {np.count_nonzero(self.v)}>"


class Cx:
    """complex number with symbolic parts"""
    __slots__ = ("re", "im")
    __array_priority__ = -1000.0

    def __init__(self, re, im=0):
        self.re, self.im = SymReal(re), SymReal(im)

    @staticmethod
    def lift(o):
        if isinstance(o, Cx):
            return o
        if isinstance(o, SymReal):
            return Cx(o)
        if isinstance(o, (complex, np.complexfloating)):
            return Cx(float(o.real), float(o.imag))
        if isinstance(o, (int, float, np.number)) and not isinstance(o, bool):
            return Cx(o)
        return None

    def __add__(self, o):
        o = self.lift(o)
        return NotImplemented if o is None else Cx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self.lift(o)
        return NotImplemented if o is None else Cx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = self.lift(o)
        return NotImplemented if o is None else Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self.lift(o)
        if o is None:
            return NotImplemented
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return Cx(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        o = self.lift(o)
        return NotImplemented if o is None else o / self

    def __abs__(self):
        return E.sym_sqrt(self.re * self.re + self.im * self.im)

    def _no(self, *a):
        raise Unsupported("comparison of complex values")
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __float__ = _no
    __hash__ = None

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return Cx(self.re, -self.im)
    conj = conjugate

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"({self.re} + {self.im}j)"


def named(x):
    """a linear combination of several unknowns gets a name of its own, which keeps the solver's atoms small"""
    if x.num.d or len(x.num.n) < 2 or any(sum(e for _, e in P.mono_items(m)) > 1 for m in x.num.n) or sum(1 for m in x.num.n if m) < 2:
        return x
    st = _store().setdefault("names", {})
    key = x.num.key()
    if key not in st:
        v = fresh("lin")
        ctx = E.cur()
        e = E.num_z3(v) == E.num_z3(x)
        ctx.add_axiom(e, E.num_vars(v.num) | E.num_vars(x.num))
        _store().setdefault("defs", {})[e.get_id()] = e
        if ctx.quick_sign_num(x.num) > 0:
            ctx.assume(v > 0)
        st[key] = v
    return st[key]


def settle(x):
    """note that a sample is positive if the smallest sample is"""
    st = _store()
    m = st.setdefault("low", {}).get(x.num.key())
    if m is not None and E.cur().quick_sign_num(m.num) > 0:
        E.cur().assume(x > 0)
        return
    local = st.get("local", {}).get(x.num.key())             # a case distinction: does it say so by itself?
    if local is not None and E.cur().quick_sign_num(x.num) == 0 and E.cur()._check(local + [E.num_z3(x) <= 0], 500)[0] == z3.unsat:
        E.cur().assume(x > 0)


def log(x):
    """a new unknown per distinct argument"""
    if not isinstance(x, SymReal):
        x = SymReal(x)
    x = named(x)
    ctx = E.cur()
    n = x.num
    if ctx.quick_sign_num(n) <= 0:
        settle(x)
    if ctx.quick_sign_num(n) <= 0 and ctx.decide(E.cmp_nums("<=", n, P.ZERO)):
        raise Unsupported("logarithm of a non-positive number")
    st = _store()
    key = n.key()
    if key not in st["keys"]:
        st["keys"][key] = len(st["logs"])
        st["logs"].append(x)
    v = np.zeros(len(st["logs"]), dtype=complex)
    v[st["keys"][key]] = 1
    return Lin(v)


def _same(a, b):
    n = max(len(a), len(b))
    return np.max(np.abs(np.pad(a, (0, n - len(a))) - np.pad(b, (0, n - len(b)))), initial=0) < TOL


def _magnitude(a):
    """exp of a real combination of logarithms"""
    st = _store()
    nz = [i for i in range(len(a)) if abs(a[i]) >= TOL]
    if all(i and abs(2 * a[i] - round(2 * a[i])) < TOL for i in nz) and len(nz) <= 3:
        r = SymReal(1)
        for i in nz:
            k = round(2 * a[i])
            f = st["logs"][i] ** (abs(k) // 2)
            if k % 2:
                f = f * E.sym_sqrt(st["logs"][i])
            r = r * f if k > 0 else r / f
        return r
    for b, m in st["mags"]:
        if _same(a, b):
            return m
    m = fresh("mag")
    E.cur().assume(m > 0)
    st["mags"].append((a, m))
    return m


def unit(phi):
    """(cos, sin) of a real combination of logarithms"""
    st = _store()
    if _same(phi, np.zeros(1)):
        return SymReal(1), SymReal(0)
    for b, c, s in st["phases"]:
        if _same(phi, b):
            return c, s
        if _same(phi, -b):
            return c, -s
    c, s = fresh("cos"), fresh("sin")
    E.cur().assume(c * c + s * s == 1)
    st["phases"].append((phi, c, s))
    return c, s


def exp(x):
    m = _magnitude(x.v.real)
    c, s = unit(x.v.imag)
    return Cx(m * c, m * s)


def _algebraic(x):
    for v, f in ((0, lambda: 0), (.5, lambda: Fraction(1, 2)), (1, lambda: 1), (2 ** .5 / 2, lambda: E.sym_sqrt(2) / 2),
                 (3 ** .5 / 2, lambda: E.sym_sqrt(3) / 2), ((5 ** .5 - 1) / 4, lambda: (E.sym_sqrt(5) - 1) / 4), ((5 ** .5 + 1) / 4, lambda: (E.sym_sqrt(5) + 1) / 4),
                 (((5 + 5 ** .5) / 8) ** .5, lambda: E.sym_sqrt(10 - 2 * E.sym_sqrt(5)) * (E.sym_sqrt(5) + 1) / 8), (((5 - 5 ** .5) / 8) ** .5, lambda: E.sym_sqrt(10 - 2 * E.sym_sqrt(5)) / 4)):
        if abs(abs(x) - v) < 1e-12:
            r = SymReal(f())
            return r if x >= 0 else -r
    return SymReal(float(np.round(x, 12)))


def twiddle(k, n):
    """exact for the lengths 1-6, 8, 10 and 12, otherwise to 12 digits"""
    k %= n
    key = (k, n)
    st = _store().setdefault("twiddle", {})
    if key not in st:
        a = 2 * np.pi * min(k, n - k) / n
        c, s = _algebraic(np.cos(a)), _algebraic(np.sin(a))
        st[key] = (c, s if 2 * k <= n else -s)
    return st[key]


def _fft1(xs, n, sign, norm):
    scale = {None: {-1: 1, 1: n}, "backward": {-1: 1, 1: n}, "forward": {-1: n, 1: 1}}.get(norm, {}).get(sign)
    if scale is None:
        raise Unsupported("this normalisation")
    xs = (list(xs) + [0] * n)[:n]
    if any(isinstance(x, Lin) for x in xs):
        w = max(len(x.v) for x in xs if isinstance(x, Lin))
        M = np.zeros((n, w), dtype=complex)
        for i, x in enumerate(xs):
            if isinstance(x, Lin):
                M[i, :len(x.v)] = x.v
            else:
                c = cnum(x)
                if c is None:
                    raise Unsupported(f"mixed transform {type(x)} {x}")
                M[i, 0] = c
        F = np.fft.fft(M, axis=0) if sign < 0 else np.fft.ifft(M, axis=0) * n
        return [Lin(r / scale) for r in F]
    xs = [Cx.lift(x) for x in xs]
    if any(x is None for x in xs):
        raise Unsupported("transform of these values")
    out = []
    for k in range(n):
        t = Cx(0)
        for i, x in enumerate(xs):
            c, s = twiddle(i * k, n)
            t = t + x * Cx(c, s if sign > 0 else -s)
        out.append(Cx(t.re / scale, t.im / scale))
    return out


def _arr(xs):
    from .shim_np import _wrap
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return _wrap(a)


def _transform(kind, real):
    def g(a, n=None, axis=-1, norm=None, **k):
        b = np.asarray(a)
        if b.dtype != object:
            return real(a, n, axis, norm, **k)
        if b.ndim != 1:
            raise Unsupported("transform of this shape")
        xs = list(b)
        if kind in ("fft", "ifft"):
            return _arr(_fft1(xs, int(n) if n else len(xs), -1 if kind == "fft" else 1, norm))
        if kind == "rfft":
            n = int(n) if n else len(xs)
            return _arr(_fft1(xs, n, -1, norm)[:n // 2 + 1])
        n = int(n) if n else 2 * (len(xs) - 1)                       # irfft
        xs = (xs + [0] * n)[:n // 2 + 1]
        xs[0] = _part(xs[0])
        if n % 2 == 0:
            xs[-1] = _part(xs[-1])
        full = xs + [_conj(x) for x in reversed(xs[1:(n + 1) // 2])]
        return _arr([_part(x) for x in _fft1(full, n, 1, norm)])
    return g


def _part(x):
    return x.real if isinstance(x, (Lin, Cx, complex, SymReal)) else x


def _conj(x):
    return x.conjugate() if isinstance(x, (Lin, Cx, complex)) else x


def install(m, over):
    import types
    fft = types.ModuleType("numpy.fft")
    fft.__dict__.update({k: getattr(np.fft, k) for k in dir(np.fft) if not k.startswith("__")})
    for kind in ("fft", "ifft", "rfft", "irfft"):
        setattr(fft, kind, _transform(kind, getattr(np.fft, kind)))
    over["fft"] = fft


# ---- reductions and case distinctions that do not split the path

def extreme(xs, less):
    """smallest (largest) of many"""
    uniq = {}
    for x in xs:
        x = named(SymReal(x))
        uniq[x.num.key()] = x
    us = list(uniq.values())
    if len(us) == 1:
        return us[0]
    m = fresh("min" if less else "max")
    ctx = E.cur()
    for x in us:
        ctx.assume(m <= x if less else m >= x)
        if less:
            _store().setdefault("low", {})[x.num.key()] = m
    ctx.assume(E.Or(*[m == x for x in us]))
    if less and all(ctx.quick_sign_num(x.num) > 0 for x in us):
        ctx.assume(m > 0)
    return m


def ite(c, x, y):
    c = E._b(c) if not isinstance(c, (bool, np.bool_)) else bool(c)
    if c is True or c is False:
        return x if c else y
    x, y = named(SymReal(x)), named(SymReal(y))
    st = _store().setdefault("ites", {})
    key = (c.e.get_id(), x.num.key(), y.num.key())
    if key in st:
        return st[key][0]
    v = fresh("ite")
    ctx = E.cur()
    facts = [E.Or(E.Not(c), v == x), E.Or(c, v == y)]
    for f in facts:
        ctx.assume(f)
    _store().setdefault("local", {})[v.num.key()] = [f.e for f in facts if isinstance(f, SymBool)]
    st[key] = (v, c)                                        # keep the condition alive: its id is the key
    return v


def maxmin(x, y, less):
    x, y = named(SymReal(x)), named(SymReal(y))
    if (x - y).num.const() is not None:
        d = (x - y).num.const()
        return x if (d <= 0) == less else y
    st = _store().setdefault("mm", {})
    key = (x.num.key(), y.num.key(), less)
    if key not in st:
        v = fresh("mm")
        ctx = E.cur()
        for t in (x, y):
            ctx.assume(v <= t if less else v >= t)
        ctx.assume(E.Or(v == x, v == y))
        if not less and any(ctx.quick_sign_num(t.num) > 0 for t in (x, y)):
            ctx.assume(v > 0)
        st[key] = v
    return st[key]


def count(xs):
    """how many of these conditions hold"""
    xs = [E._b(x) for x in xs]
    known = sum(1 for x in xs if x is True)
    xs = [x for x in xs if x is not True and x is not False]
    if not xs:
        return known
    v = fresh("count")
    vs = set(E.num_vars(v.num))
    for x in xs:
        vs |= set(x.vars)
    E.cur().add_axiom(E.num_z3(v) == known + z3.Sum([z3.If(x.e, z3.RealVal(1), z3.RealVal(0)) for x in xs]), vs)
    return v

