"""numpy stand-in used by the code under test during symbolic execution.

Real numpy does the work on object-dtype arrays (a ndarray subclass), so views, aliasing, slicing, broadcasting
and in-place updates have numpy's own semantics; only dtype choices and truth-valued reductions are replaced."""
import types

import numpy as np

from . import engine as E
from . import spectral as S
from .engine import SymBool, SymInt, SymReal, Unsupported


class SymArr(np.ndarray):
    __array_priority__ = 10.0
    _int = False          # stands for an array of integer dtype: what is stored in it is truncated

    def __array_finalize__(self, obj):
        if getattr(obj, "_int", False):
            self._int = True

    def _cmp(self, o, uf):
        r = uf(np.asarray(self), np.asarray(o, dtype=object) if not isinstance(o, np.ndarray) else np.asarray(o), dtype=object)
        return r.view(SymArr) if isinstance(r, np.ndarray) else r

    def __eq__(self, o):
        return self._cmp(o, np.equal)

    def __ne__(self, o):
        return self._cmp(o, np.not_equal)

    def __lt__(self, o):
        return self._cmp(o, np.less)

    def __le__(self, o):
        return self._cmp(o, np.less_equal)

    def __gt__(self, o):
        return self._cmp(o, np.greater)

    def __ge__(self, o):
        return self._cmp(o, np.greater_equal)

    __hash__ = None

    def __invert__(self):
        return _wrap(np.array([(not e) if isinstance(e, (bool, np.bool_)) else ~e for e in np.asarray(self).flat], dtype=object).reshape(self.shape))

    def all(self, *a, **k):
        if a or k:
            return np.asarray(self).all(*a, **k)
        return E.And(*list(np.asarray(self).flat))

    def any(self, *a, **k):
        if a or k:
            return np.asarray(self).any(*a, **k)
        return E.Or(*list(np.asarray(self).flat))

    def __bool__(self):
        if self.size == 1:
            return bool(self.flat[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def _mask(self, k):
        if isinstance(k, np.ndarray) and k.dtype == object and k.size and all(
                isinstance(e, (SymBool, bool, np.bool_)) for e in np.asarray(k).flat):
            m = np.empty(k.shape, dtype=bool)
            for i, e in enumerate(np.asarray(k).flat):
                m.flat[i] = bool(e)
            return m
        return _idx(k)

    def __getitem__(self, k):
        r = super().__getitem__(self._mask(k))
        return r

    def __setitem__(self, k, v):
        if isinstance(k, SymArr) and k.shape == self.shape and not isinstance(v, np.ndarray) and S.on() and any(isinstance(e, SymBool) for e in np.asarray(k).flat):
            for i, e in enumerate(np.asarray(k).flat):
                self.flat[i] = S.ite(e, v, self.flat[i])
            return
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            v = SymReal(v) if not (v != v or v in (E.INF, -E.INF)) else v
        if self._int and not _isint(v):
            v = _map(E.sym_trunc, v) if isinstance(v, np.ndarray) else E.sym_trunc(v)
        super().__setitem__(self._mask(k), v)

    def astype(self, dtype, *a, **k):
        if dtype in (float, np.float64, object, "float", "float64") or getattr(dtype, "__name__", "") in ("float",):
            return _flag(self.copy(), False)
        if _int_dtype(dtype):
            return _flag(_wrap(np.array([E.sym_trunc(x) if isinstance(x, SymReal) else int(x) for x in self.flat] + [None], dtype=object)[:-1].reshape(self.shape)), True)
        if dtype is bool:
            return self._mask(self)
        if dtype in (complex, np.complex128):
            return _flag(self.copy(), False)
        raise Unsupported(f"astype {dtype}")

    @property
    def real(self):
        return _map(lambda x: x.real, self) if self.ndim and any(isinstance(x, (S.Lin, S.Cx, complex)) for x in np.asarray(self).flat) else self

    @property
    def imag(self):
        return _map(lambda x: x.imag, self)

    def conj(self):
        return _map(lambda x: x.conjugate() if hasattr(x, "conjugate") else x, self)
    conjugate = conj

    def clip(self, lo=None, hi=None, **k):
        return s_clip(self, lo, hi)

    def dot(self, o, out=None):
        r = np.dot(np.asarray(self), np.asarray(o))
        return _flag(_wrap(r), _isint(self) and _isint(o))

    def round(self, decimals=0, out=None):
        return s_round(self, decimals)

    def tolist(self):
        return np.asarray(self).tolist()

    def max(self, *a, **k):
        return s_max(self, *a, **k)

    def min(self, *a, **k):
        return s_min(self, *a, **k)

    def argmax(self, *a, **k):
        return s_argmax(self)

    def argmin(self, *a, **k):
        return s_argmin(self)

    def copy(self, order="C"):
        return np.ndarray.copy(self, order)

    def __deepcopy__(self, memo):
        return np.ndarray.copy(self)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [np.asarray(x) if isinstance(x, SymArr) else x for x in inputs]
        if out is not None:
            outs = tuple(np.asarray(x) if isinstance(x, SymArr) else x for x in out)
            for o in outs:
                if o is not None and o.dtype != object:
                    raise Unsupported("in-place operation on a float array with symbolic values")
            kw["out"] = outs
            if any(getattr(x, "_int", False) for x in out) and not (ufunc in _INT_UFUNCS and all(_isint(x) for x in inputs)):
                raise TypeError(f"Cannot cast ufunc '{ufunc.__name__}' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        if ufunc in (np.equal, np.not_equal, np.less, np.less_equal, np.greater, np.greater_equal) and method == "__call__":
            kw.setdefault("dtype", object)
        if ufunc in (np.isfinite, np.isnan, np.isinf) and method == "__call__":
            f = {np.isfinite: _isfinite1, np.isnan: _isnan1, np.isinf: _isinf1}[ufunc]
            return np.array([f(x) for x in ins[0].flat], dtype=bool).reshape(ins[0].shape)
        if ufunc is np.rint and method == "__call__":
            return s_round(_wrap(ins[0]))
        if ufunc is np.sign and method == "__call__":
            return _map(_sign1, ins[0])
        if ufunc is np.square and method == "__call__":
            return _wrap(ins[0] * ins[0])
        if ufunc in (np.maximum, np.minimum) and method == "__call__":
            a, b = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in ins])
            f = _max2 if ufunc is np.maximum else _min2
            return _wrap(np.array([f(x, y) for x, y in zip(a.flat, b.flat)], dtype=object).reshape(a.shape))
        if ufunc in (np.exp, np.log, np.sqrt) and method == "__call__":
            return _map({np.exp: E.sym_exp, np.log: E.sym_log, np.sqrt: E.sym_sqrt}[ufunc], ins[0])
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            return out[0] if len(out) == 1 else out
        return _flag(_wrap(r), ufunc in _INT_UFUNCS and all(_isint(x) for x in inputs))


_INT_UFUNCS = (np.add, np.subtract, np.multiply, np.negative, np.positive, np.absolute, np.maximum, np.minimum, np.matmul, np.square)


def _isint(x):
    """of integer type (not merely of integer value)"""
    if isinstance(x, SymArr):
        return x._int
    if isinstance(x, np.ndarray):
        return x.dtype.kind in "iub"
    return isinstance(x, (bool, int, SymInt, np.integer))


def _flag(a, on):
    if isinstance(a, SymArr):
        a._int = bool(on)
    return a


def _int_dtype(d):
    return d in (int, np.int64, np.int32, "int", "int64", "i8") or getattr(d, "__name__", "") == "int"


def _as(a, dtype):
    """what dtype= asks for"""
    if dtype is None:
        return a
    if _int_dtype(dtype):
        return a.astype(int)
    if dtype is object:
        return a
    return _flag(a, False)


def _wrap(r):
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArr):
        return r.view(SymArr)
    return r


def _map(f, a):
    a = np.asarray(a)
    if a.ndim == 0:
        return f(a.item())
    return _wrap(np.array([f(x) for x in a.flat] + [None], dtype=object)[:-1].reshape(a.shape))


def _idx(k):
    if isinstance(k, SymInt):
        return k.__index__()
    if isinstance(k, tuple):
        return tuple(_idx(x) for x in k)
    if isinstance(k, slice):
        return slice(*[_idx(x) if x is not None else None for x in (k.start, k.stop, k.step)])
    return k


def _num(x):
    if isinstance(x, (int, float, np.number)) and not isinstance(x, (bool, np.bool_)):
        x = float(x) if isinstance(x, (np.floating, float)) else int(x)
        if x != x or x in (E.INF, -E.INF):
            return x
        return SymReal(x)
    return x


def _objectify(a):
    """array-like -> SymArr of object dtype with exact numbers"""
    if isinstance(a, SymArr):
        return np.ndarray.copy(a)
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return _wrap(a.copy())
        out = np.empty(a.shape, dtype=object)
        for i, x in enumerate(a.flat):
            out.flat[i] = _num(x)
        return _flag(_wrap(out), a.dtype.kind in "iu")
    if isinstance(a, (list, tuple)):
        items = [_objectify(x) if isinstance(x, (list, tuple, np.ndarray)) else _num(x) for x in a]
        if items and isinstance(items[0], np.ndarray):
            shp = items[0].shape
            out = np.empty((len(items),) + shp, dtype=object)
            for i, x in enumerate(items):
                out[i] = x
            return _flag(_wrap(out), all(_isint(x) for x in items))
        out = np.empty(len(items), dtype=object)
        for i, x in enumerate(items):
            out[i] = x
        return _flag(_wrap(out), bool(items) and all(_isint(x) and not isinstance(x, (bool, np.bool_)) for x in a))
    out = np.empty((), dtype=object)
    out[()] = _num(a)
    return _wrap(out)


def _full(shape, v):
    if isinstance(shape, (list, tuple)):
        shape = tuple(int(s) for s in shape)
    else:
        shape = int(shape)
    out = np.empty(shape, dtype=object)
    out.fill(v)
    return _wrap(out)


def zeros(shape, dtype=None, order="C"):
    if dtype is bool:
        return np.zeros(shape, dtype=bool)
    return _as(_full(shape, SymReal(0)), dtype)


def ones(shape, dtype=None, order="C"):
    if dtype is bool:
        return np.ones(shape, dtype=bool)
    return _as(_full(shape, SymReal(1)), dtype)


def full(shape, v, dtype=None, order="C"):
    return _as(_flag(_full(shape, _num(v)), _isint(v) and not isinstance(v, bool)), dtype)


def eye(n, m=None, k=0, dtype=None, order="C"):
    n = int(n)
    m = n if m is None else int(m)
    out = _full((n, m), SymReal(0))
    for i in range(n):
        if 0 <= i + k < m:
            out[i, i + k] = SymReal(1)
    return _as(out, dtype)


def s_array(a, dtype=None, copy=True, ndmin=0, **k):
    if dtype is bool:
        return np.array(a, dtype=bool)
    if hasattr(a, "__next__") or isinstance(a, range):
        a = list(a)
    r = _as(_objectify(a), dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def s_asarray(a, dtype=None, order=None, copy=None):
    if isinstance(a, SymArr) and not copy and (dtype in (None, object) or _int_dtype(dtype) == a._int):
        return a
    return s_array(a, dtype)


def s_diag(v, k=0):
    v = s_asarray(v)
    if v.ndim == 1:
        n = len(v) + abs(k)
        out = zeros((n, n))
        for i in range(len(v)):
            out[i + max(-k, 0), i + max(k, 0)] = v[i]
        return _flag(out, v._int)
    return _flag(_wrap(np.diag(np.asarray(v), k).copy()), v._int)


def s_round(a, decimals=0, out=None):
    if decimals:
        if not isinstance(decimals, int) or abs(decimals) > 30:
            raise Unsupported("round decimals")
        p = 10 ** abs(decimals)
        return s_round(a * p) / p if decimals > 0 else s_round(a / p) * p
    f = lambda x: E._mk(E.sym_rint(x).num) if isinstance(x, SymReal) else SymReal(round(x))  # noqa: E731
    if isinstance(a, np.ndarray):
        return _map(f, a)
    return f(a)


def s_all(a, *r, **k):
    if isinstance(a, SymBool) or isinstance(a, bool):
        return a
    if not isinstance(a, np.ndarray):
        a = s_array(list(a))
    if r or k:
        return np.all(np.asarray(a), *r, **k)
    return E.And(*[E._b(x) for x in np.asarray(a).flat])


def s_any(a, *r, **k):
    if isinstance(a, SymBool) or isinstance(a, bool):
        return a
    if not isinstance(a, np.ndarray):
        a = s_array(list(a))
    if r or k:
        return np.any(np.asarray(a), *r, **k)
    return E.Or(*[E._b(x) for x in np.asarray(a).flat])


def s_count_nonzero(a):
    if S.on() and isinstance(a, np.ndarray) and all(isinstance(x, (SymBool, bool, np.bool_)) for x in np.asarray(a).flat):
        return S.count(list(np.asarray(a).flat))
    return sum(1 for x in np.asarray(s_asarray(a)).flat if bool(x != 0))


def _isfinite1(x):
    return True if isinstance(x, SymReal) else bool(np.isfinite(x))


def _isnan1(x):
    return False if isinstance(x, SymReal) else bool(np.isnan(x))


def _isinf1(x):
    return False if isinstance(x, SymReal) else bool(np.isinf(x))


def _sign1(x):
    if bool(x > 0):
        return SymReal(1)
    if bool(x < 0):
        return SymReal(-1)
    return SymReal(0)


def _max2(x, y):
    if S.on():
        return S.maxmin(x, y, False)
    return x if bool(x >= y) else y


def _min2(x, y):
    if S.on():
        return S.maxmin(x, y, True)
    return x if bool(x <= y) else y


def _scalar_or(f1):
    def g(x, *a, **k):
        if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
            x = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
            return np.array([f1(e) for e in np.asarray(x).flat], dtype=bool).reshape(x.shape)
        return f1(x)
    return g


def _axis(f, a, r, k):
    """reduction along an axis"""
    ax = k.get("axis", r[0] if r else None)
    a = np.asarray(s_asarray(a))
    if ax is None or a.ndim <= 1:
        return None
    m = np.moveaxis(a, int(ax), -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*m.shape[:-1]):
        out[i] = f(m[i])
    return _wrap(out)


def s_max(a, *r, **k):
    t = _axis(s_max, a, r, k)
    if t is not None:
        return t
    it = list(np.asarray(s_asarray(a)).flat)
    if S.on() and len(it) > 1:
        return S.extreme(it, False)
    m = it[0]
    for x in it[1:]:
        if bool(x > m):
            m = x
    return m


def s_min(a, *r, **k):
    t = _axis(s_min, a, r, k)
    if t is not None:
        return t
    it = list(np.asarray(s_asarray(a)).flat)
    if S.on() and len(it) > 1:
        return S.extreme(it, True)
    m = it[0]
    for x in it[1:]:
        if bool(x < m):
            m = x
    return m


def s_argmax(a, *r, **k):
    if _axis(s_argmax, a, r, k) is not None:
        raise Unsupported("argmax axis")
    it = list(np.asarray(s_asarray(a)).flat)
    j = 0
    for i in range(1, len(it)):
        if bool(it[i] > it[j]):
            j = i
    return j


def s_argmin(a, *r, **k):
    it = list(np.asarray(s_asarray(a)).flat)
    j = 0
    for i in range(1, len(it)):
        if bool(it[i] < it[j]):
            j = i
    return j


def s_norm(a, ord=None, **k):
    a = s_asarray(a)
    if a.ndim == 1 and not k and ord in (1, np.inf):
        v = [abs(x) for x in np.asarray(a).flat]
        return sum(v, SymReal(0)) if ord == 1 else s_max(v)
    if a.ndim == 2 and ord in (None, 2) and set(k) == {"axis"} and k["axis"] in (0, 1, -1):
        return _wrap(np.array([s_norm(r) for r in (a.T if k["axis"] == 0 else a)], dtype=object))
    if ord not in (None, 2) or k or (a.ndim != 1 and ord is not None):
        raise Unsupported("norm variant")
    return E.sym_sqrt(sum((x * x for x in np.asarray(a).flat), SymReal(0)))


def s_cholesky(a):
    a = s_asarray(a)
    n = len(a)
    L = zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            v = a[i, j] - sum((L[i, k] * L[j, k] for k in range(j)), SymReal(0))
            if i == j:
                if not (v > 0):
                    raise np.linalg.LinAlgError("Matrix is not positive definite")
                L[i, i] = E.sym_sqrt(v)
            else:
                L[i, j] = v / L[j, j]
    return L


def s_where(c, *r):
    if not r:
        return np.nonzero(_wrap(np.asarray(c))._mask(c)) if isinstance(c, SymArr) else np.nonzero(c)
    x, y = r
    if isinstance(c, (SymBool, bool)):
        return x if bool(c) else y
    if S.on() and isinstance(c, SymArr):
        cc, xx, yy = np.broadcast_arrays(np.asarray(c), np.asarray(x, dtype=object), np.asarray(y, dtype=object))
        return _wrap(np.array([S.ite(e, u, v) for e, u, v in zip(cc.flat, xx.flat, yy.flat)] + [None], dtype=object)[:-1].reshape(cc.shape))
    m = c._mask(c) if isinstance(c, SymArr) else np.asarray(c)
    return _wrap(np.where(m, np.asarray(x, dtype=object), np.asarray(y, dtype=object)))


def _unary(fsym, freal):
    def g(x, *a, **k):
        if isinstance(x, SymArr):
            return _map(fsym, x)
        if isinstance(x, SymReal):
            return fsym(x)
        if isinstance(x, (list, tuple)) and any(isinstance(e, SymReal) for e in x):
            return _map(fsym, s_array(x))
        return freal(x, *a, **k)
    return g


def _cos(x):
    if isinstance(x, S.Lin):
        return S.unit(x.v.real)[0]
    c = x.num.const() if isinstance(x, SymReal) else x
    if c is None:
        raise Unsupported("cos of symbolic value")
    return float(np.cos(float(c)))


def _sin(x):
    if isinstance(x, S.Lin):
        return S.unit(x.v.real)[1]
    c = x.num.const() if isinstance(x, SymReal) else x
    if c is None:
        raise Unsupported("sin of symbolic value")
    return float(np.sin(float(c)))


def _f(x):
    """exact constants back to floats, for purely numeric set-up code (linspace, cos, ...)"""
    if isinstance(x, SymReal):
        c = x.num.const()
        if c is None:
            raise Unsupported("symbolic value in numeric set-up code")
        return int(c) if isinstance(x, SymInt) else float(c)
    if isinstance(x, SymArr):
        return np.array([_f(e) for e in x.flat]).reshape(x.shape)
    return x


def _numeric(fn):
    def g(*a, **k):
        return fn(*[_f(x) for x in a], **{kk: _f(v) for kk, v in k.items()})
    return g


def _where_arg(f):
    """out= with where=: only the selected entries are written"""
    def g(*a, where=None, out=None, **k):
        if where is None:
            return f(*a, **k) if out is None else f(*a, out=out, **k)
        if out is None:
            raise Unsupported("where= without out=")
        args = np.broadcast_arrays(*[np.asarray(s_asarray(x)) for x in a], np.asarray(where))
        for idx in np.ndindex(args[0].shape):
            if bool(args[-1][idx]):
                out[idx] = f(*[x[idx] for x in args[:-1]], **k)
        return out
    return g


class _KindMeta(type):
    """np.floating and friends: a symbolic real is one"""
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real) or (isinstance(x, SymReal) and not isinstance(x, E.SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real) or issubclass(c, SymReal)


def _kind(t):
    return _KindMeta(t.__name__, (), {"real": t})


def _arith(name):
    real = getattr(np, name)

    def g(*a, **k):
        a = [s_array(x) if isinstance(x, (list, tuple)) and name not in ("concatenate", "hstack", "vstack", "stack", "column_stack", "block") else x for x in a]
        k.pop("dtype", None)
        r = real(*a, **k)
        return _wrap(r)
    return g


def s_outer(a, b, out=None):
    a, b = s_maybe(a), s_maybe(b)
    if not (isinstance(a, SymArr) or isinstance(b, SymArr)):
        return np.outer(a, b)
    return _flag(_wrap(np.outer(np.asarray(a, dtype=object), np.asarray(b, dtype=object))), _isint(a) and _isint(b))


def s_maybe(a):
    if isinstance(a, (list, tuple)):
        return s_array(a)
    return a


def s_dot(a, b, out=None):
    a, b = s_maybe(a), s_maybe(b)
    return _flag(_wrap(np.dot(np.asarray(a), np.asarray(b))), _isint(a) and _isint(b))


def s_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        return E._b(abs(x - y) <= SymReal(atol) + SymReal(rtol) * abs(y))
    if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
        return f(a, b)
    a, b = np.broadcast_arrays(np.asarray(s_asarray(a)), np.asarray(s_asarray(b)))
    return _wrap(np.array([f(x, y) for x, y in zip(a.flat, b.flat)] + [None], dtype=object)[:-1].reshape(a.shape))


def s_select(conds, vals, default=0):
    r = default
    for c, v in zip(reversed(list(conds)), reversed(list(vals))):
        r = s_where(c, v, r)
    return r


def _minor(A, i, j):
    return [[A[p][q] for q in range(len(A)) if q != j] for p in range(len(A)) if p != i]


def _det(A):
    n = len(A)
    if n == 0:
        return SymReal(1)
    if n == 1:
        return A[0][0]
    r = SymReal(0)
    for j in range(n):
        r = r + (1 if j % 2 == 0 else -1) * A[0][j] * _det(_minor(A, 0, j))
    return r


def _square(a):
    a = np.asarray(s_asarray(a))
    if a.ndim != 2 or a.shape[0] != a.shape[1] or a.shape[0] > 5:
        raise Unsupported("linear algebra on this shape")
    return [[a[i, j] for j in range(len(a))] for i in range(len(a))]


def s_det(a):
    return _det(_square(a))


def s_inv(a):
    A = _square(a)
    n = len(A)
    d = _det(A)
    if bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    return s_array([[(1 if (i + j) % 2 == 0 else -1) * _det(_minor(A, j, i)) / d for j in range(n)] for i in range(n)])


def s_solve(a, b):
    return s_dot(s_inv(a), s_asarray(b))


class _UFunc:
    """callable with .reduce, .outer, .accumulate, .at"""

    def __init__(self, f, red, uf):
        self.f, self.red, self.uf = f, red, uf

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def reduce(self, a, axis=0, **k):
        a = np.asarray(s_asarray(a))
        if a.ndim == 1 or axis is None:
            it = list(a.flat)
            r = it[0] if it else None
            if r is None:
                raise Unsupported("empty reduction")
            for x in it[1:]:
                r = self.red(r, x)
            return r
        return _axis(self.reduce, a, (axis,), {})

    def outer(self, a, b):
        return _wrap(np.array([[self.red(x, y) for y in s_asarray(b)] for x in s_asarray(a)], dtype=object))

    def __getattr__(self, n):
        return getattr(self.uf, n)


def s_clip(a, lo=None, hi=None, **k):
    lo, hi = k.pop("a_min", k.pop("min", lo)), k.pop("a_max", k.pop("max", hi))
    f = lambda x: _min2(_max2(x, lo) if lo is not None else x, hi) if hi is not None else (_max2(x, lo) if lo is not None else x)  # noqa: E731
    return _map(f, a) if isinstance(a, np.ndarray) else f(a)


def _trig(sym, real):
    def g(x, *a, **k):
        if S.on() and not isinstance(x, (SymArr, SymReal)):
            return S.snap(real(x, *a, **k))
        r = _unary(sym, real)(x, *a, **k)
        return _map(lambda e: e if isinstance(e, SymReal) else float(S.snap(e)), r) if S.on() and isinstance(r, np.ndarray) else r
    return g


def s_einsum(spec, *ops, **k):
    return _wrap(np.einsum(spec, *[np.asarray(o) for o in ops], optimize=False))


def s_sum(a, axis=None, **k):
    if hasattr(a, "__next__"):
        a = list(a)
    a = s_asarray(a)
    if S.on() and axis is None and a.size and all(isinstance(x, (SymBool, bool, np.bool_)) for x in np.asarray(a).flat):
        return S.count(list(np.asarray(a).flat))
    if axis is None and not k.get("keepdims"):
        return sum(list(np.asarray(a).flat), SymReal(0))
    return _wrap(np.sum(np.asarray(a), axis=axis, keepdims=bool(k.get("keepdims"))))


def s_copy(a, **k):
    return s_array(a)


def s_convolve(a, v, mode="full"):
    a, v = s_asarray(a), s_asarray(v)
    n, m = len(a), len(v)
    out = zeros(n + m - 1)
    for i in range(n):
        for j in range(m):
            out[i + j] = out[i + j] + a[i] * v[j]
    if mode == "full":
        return out
    if mode == "valid":
        lo, hi = min(n, m), max(n, m)
        return out[lo - 1:hi]
    k = max(n, m)
    st = (n + m - 1 - k) // 2
    return out[st:st + k]


def s_correlate(a, v, mode="valid"):
    return s_convolve(a, s_asarray(v)[::-1], mode)


def _like(f):
    def g(a, *v, dtype=None, **k):
        return f(np.shape(a), *v, dtype=dtype or (int if _isint(s_asarray(a)) else float))
    return g


def make():
    m = types.ModuleType("numpy")
    over = dict(
        zeros=zeros, ones=ones, full=full, eye=eye, identity=lambda n, dtype=None: eye(n), empty=zeros,
        zeros_like=_like(zeros), ones_like=_like(ones), empty_like=_like(zeros), full_like=_like(full),
        array=s_array, asarray=s_asarray, asanyarray=s_asarray, ascontiguousarray=s_asarray, atleast_1d=lambda a: s_array([a]) if not isinstance(a, (list, tuple, np.ndarray)) else s_asarray(a),
        diag=s_diag, round=s_round, around=s_round, rint=s_round, all=s_all, any=s_any, count_nonzero=s_count_nonzero,
        isfinite=_scalar_or(_isfinite1), isnan=_scalar_or(_isnan1), isinf=_scalar_or(_isinf1),
        max=s_max, amax=s_max, min=s_min, amin=s_min, argmax=s_argmax, argmin=s_argmin, where=s_where,
        exp=_unary(E.sym_exp, np.exp), log=_unary(E.sym_log, np.log), sqrt=_unary(E.sym_sqrt, np.sqrt),
        cos=_trig(_cos, np.cos), sin=_trig(_sin, np.sin), clip=s_clip,
        floor=_unary(lambda x: E._mk(E.sym_floor(x).num), np.floor),
        outer=s_outer, dot=s_dot, vdot=s_dot, inner=s_dot, matmul=lambda a, b: _wrap(np.asarray(s_maybe(a)) @ np.asarray(s_maybe(b))),
        einsum=s_einsum, sum=s_sum, copy=s_copy, convolve=s_convolve, correlate=s_correlate,
        linspace=_numeric(np.linspace), arange=_numeric(np.arange), log10=_numeric(np.log10),
        float64=SymReal, float32=SymReal, ndarray=np.ndarray, isscalar=lambda x: isinstance(x, (SymReal, int, float, np.number, str)),
        square=lambda x: x * x, abs=lambda x: _map(abs, x) if isinstance(x, np.ndarray) else abs(x),
        absolute=lambda x: _map(abs, x) if isinstance(x, np.ndarray) else abs(x), fabs=lambda x: _map(abs, x) if isinstance(x, np.ndarray) else abs(x),
        sign=lambda x: _map(_sign1, x) if isinstance(x, np.ndarray) else _sign1(x),
        maximum=lambda a, b: _wrap(SymArr.__array_ufunc__(s_asarray(a), np.maximum, "__call__", a, b)) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else _max2(a, b),
        minimum=lambda a, b: _wrap(SymArr.__array_ufunc__(s_asarray(a), np.minimum, "__call__", a, b)) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else _min2(a, b),
        array_equal=lambda a, b, **k: bool(E.And(*[E._b(x) for x in np.asarray(s_asarray(a) == s_asarray(b)).flat])) if np.shape(a) == np.shape(b) else False,
    )
    for name in ("concatenate", "hstack", "vstack", "stack", "tril", "triu", "trace", "transpose", "multiply", "add",
                 "subtract", "divide", "true_divide", "negative", "kron", "flip", "cumsum", "prod", "mean", "ravel", "reshape",
                 "append", "tile", "repeat", "squeeze", "expand_dims", "broadcast_to", "column_stack", "fill_diagonal",
                 "diagonal", "tensordot", "power", "insert", "delete"):
        if hasattr(np, name):
            over[name] = _arith(name)
    linalg = types.ModuleType("numpy.linalg")
    linalg.__dict__.update({k: getattr(np.linalg, k) for k in dir(np.linalg) if not k.startswith("__")})
    linalg.norm, linalg.det, linalg.inv, linalg.solve = s_norm, s_det, s_inv, s_solve
    ops = {"add": lambda x, y: x + y, "subtract": lambda x, y: x - y, "multiply": lambda x, y: x * y, "divide": lambda x, y: x / y, "maximum": _max2, "minimum": _min2}
    for name, red in ops.items():
        over[name] = _UFunc(_where_arg(over[name]), red, getattr(np, name))
    over["fmax"], over["fmin"] = over["maximum"], over["minimum"]
    over["isclose"], over["select"] = s_isclose, s_select
    over["allclose"] = lambda a, b, **k: s_all(s_isclose(a, b, **k))
    over["log1p"] = _unary(lambda x: E.sym_log(x + 1), np.log1p)
    over["expm1"] = _unary(lambda x: E.sym_exp(x) - 1, np.expm1)
    over["hypot"] = lambda a, b: E.sym_sqrt(a * a + b * b) if not isinstance(a, np.ndarray) else _map(E.sym_sqrt, s_asarray(a) * a + s_asarray(b) * b)
    over["logaddexp"] = lambda a, b: E.sym_log(E.sym_exp(a) + E.sym_exp(b))
    over["broadcast_to"] = lambda a, shape, **k: _wrap(np.broadcast_to(np.asarray(s_asarray(a)), shape))
    over["linalg"] = linalg
    for t in (np.floating, np.number, np.inexact, np.generic):
        over[t.__name__] = _kind(t)
    over["fromiter"] = lambda it, dtype=None, count=-1: s_array(list(it) if count < 0 else [x for x, _ in zip(it, range(count))])
    over["copysign"] = lambda a, b: s_where(s_asarray(b) >= 0, abs(s_asarray(a)), -abs(s_asarray(a))) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else (abs(a) if b >= 0 else -abs(a))
    over["float_power"] = over["power"]
    over["finfo"] = lambda t=float: np.finfo(np.float32 if t is np.float32 else np.float64)
    over["signbit"] = lambda a: s_asarray(a) < 0 if isinstance(a, np.ndarray) else a < 0
    over["heaviside"] = lambda a, h: s_where(s_asarray(a) > 0, 1.0, s_where(s_asarray(a) < 0, 0.0, h))
    linalg.cholesky = s_cholesky
    S.install(m, over)
    part = lambda nm: lambda x: getattr(x, nm) if hasattr(x, nm) else getattr(np, nm)(x)  # noqa: E731
    over["real"], over["imag"] = part("real"), part("imag")
    over["conj"] = over["conjugate"] = lambda x: x.conj() if hasattr(x, "conj") else np.conj(x)
    m.__dict__.update(over)

    def fallback(name):
        return getattr(np, name)
    m.__getattr__ = fallback
    m.__file__ = np.__file__
    return m
