#!/usr/bin/env python3-vt
"""compares the numpy/math stand-ins with the real ones on a list of expressions (run by hand after editing symx/shim_np.py)"""
import functools
import itertools
import math
import operator
import os
import statistics
import sys
from fractions import Fraction

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import engine as E, loader  # noqa: E402
from symx.engine import SymReal  # noqa: E402

X = """np.clip(x, -1.0, 1.0)|np.clip(x[0], -1, 1)|x.clip(-1.0, 1.0)|np.isclose(x, y)|np.allclose(x, y)|np.isclose(x[0], y[0])|np.linalg.norm(x)|np.linalg.norm(x, 2)|np.linalg.norm(x, np.inf)|np.linalg.norm(x, 1)|np.sum(x)|x.sum()|np.cumsum(x)
np.argmax(x)|np.nonzero(x)[0]|np.flatnonzero(x > 0)|np.trim_zeros(x)|np.trim_zeros(x, "b")|np.logaddexp(x[0], x[1])|np.log1p(y[0])|np.expm1(x)|np.reciprocal(y)|np.fmax(x, y)|np.mean(x)|np.add.reduce(x)|np.multiply.reduce(x)
np.maximum.reduce(x)|x.mean()|x.prod()|np.prod(x)|np.tril(A)|np.triu(A)|np.tril_indices(3)[0]|A[np.diag_indices(3)]|np.diag(A)|A.diagonal()|np.trace(A)|A.trace()|A.T|A.T.dot(x)|A @ x|x @ A|x @ y|x @ A @ x|np.inner(x, y)
np.dot(A, A)|np.outer(x, y)|np.multiply.outer(x, y)|np.einsum("i,ij,j->", x, A, x)|np.einsum("ij,j->i", A, x)|np.einsum("ij,ij->", A, A)|np.tensordot(A, x, axes=1)|np.tensordot(A, x, 1)|np.vdot(x, y)|np.kron(x, y)|np.power(x, 2)|x ** 2|np.square(x)
np.sqrt(y)|np.abs(x)|np.fabs(x)|np.absolute(x)|np.sign(x)|np.where(x > 0, x, y)|np.where(x > 0)[0]|np.select([x > 0], [x], y)|np.minimum(x, y)|np.maximum(x, 0.0)|np.max(x)|x.max()|np.amax(x)|np.min(x)|x.min()|np.ptp(x)|np.sort(x)|np.argsort(x)
np.any(x > 0)|np.all(x > 0)|(x > 0).any()|(x > 0).all()|np.count_nonzero(x)|(x > 0).sum()|np.sum(x > 0)|np.array_equal(x, y)|np.array_equal(x, x)|np.isfinite(x)|np.isnan(x)|np.nan_to_num(x)|np.floor(y)|np.ceil(y)|np.rint(y)|np.round(y)|np.around(y)|np.trunc(y)|np.fix(y)
np.concatenate((x, y))|np.hstack((x, y))|np.vstack((x, y))|np.stack([x, y])|np.append(x, y)|np.append(x, 1.0)|np.insert(x, 0, 1.0)|np.r_[x, y]|np.c_[x, y]|np.flip(x)|x[::-1]|np.roll(x, 1)|np.delete(x, 0)|np.repeat(x, 2)|np.tile(x, 2)|np.reshape(A, 9)|A.reshape(-1)|A.ravel()|A.flatten()
np.copy(x)|x.copy()|np.array(x)|np.asarray(x)|np.array(x, copy=True)|np.array(x, dtype=float)|x.astype(float)|np.asarray(x, dtype=np.float64)|np.array([1, 2, 3]) * x|np.zeros_like(x)|np.ones_like(x)|np.full_like(x, 2.0)|np.zeros(3) + x|np.eye(3) + A|np.identity(3) * 2.0|np.full(3, 1.5)
np.diag(x)|np.diagflat(x)|np.ones((2, 2))|np.arange(3) * x|np.linspace(0, 1, 3) * x|np.convolve(x, y)|np.correlate(x, y)|np.correlate(x, x, "full")|np.negative(x)|np.subtract(x, y)|np.divide(x, y)|np.true_divide(x, y)|np.add(x, y)|x / y|1.0 / y|x // 1.0|x % 2.0|np.mod(x, 2.0)|np.float64(2.0) * x|np.hypot(x[0], x[1])
math.sqrt(y[0])|math.hypot(x[0], x[1])|math.fsum(x)|math.prod(x)|math.isclose(x[0], y[0])|math.copysign(x[0], -1.0)|math.fabs(x[0])|math.pow(x[0], 2)|math.floor(y[0])|math.ceil(y[0])|math.log1p(y[0])|math.expm1(x[0])|math.isfinite(x[0])|math.isnan(x[0])|math.log(y[0])|math.exp(x[0])|math.dist(x, y)|math.log(8.0, 2.0)|math.log2(8.0)
sum(x)|max(x)|min(x)|abs(x[0])|sum(a * b for a, b in zip(x, y))|round(y[0])|int(y[0])|float(x[0])|divmod(y[0], 1.0)[0]|sorted(x)|all(x > 0)|any(x > 0)|list(x)|x.tolist()|len(x)|x.size|x.shape[0]|x.ndim|bool(x[0])|pow(x[0], 2)|x[0] ** 0.5 if x[0] > 0 else y[0] ** 0.5|y[0] ** -1|y[0] ** 1.5|x[0].item()|x.item(0)|x[x > 0]|x[[0, 2]]
np.vectorize(lambda t: t * 2.0)(x)|np.apply_along_axis(lambda r: r.sum(), 1, A)|np.fromiter((t for t in x), float)|np.fromiter((t for t in x), dtype=float, count=3)|np.array([t for t in x])|np.array([[x[0], x[1]], [y[0], y[1]]])|np.block([[A, A]])|np.dot(x, y)|np.matmul(A, x)|np.linalg.multi_dot([A, A, x])|np.ix_([0, 1], [0, 1])[0].shape[0]|A[np.ix_([0, 1], [0, 1])]
A[:2, :2]|A[1, :]|A[-1]|A[0, 0]|A.sum(axis=0)|A.sum(axis=1)|np.sum(A, axis=0)|A.max()|np.max(A, axis=0)|np.linalg.det(A)|np.linalg.inv(A) @ A|np.linalg.solve(A, x)|np.ascontiguousarray(x)|np.atleast_1d(x)|np.squeeze(x)|np.expand_dims(x, 0)|x[None, :]|x[:, None] * y|np.broadcast_to(x, (2, 3))|np.swapaxes(A, 0, 1)|A.transpose()
(lambda z: (np.add(z, y, out=z), z)[1])(x.copy())|(lambda z: (np.copyto(z, y), z)[1])(x.copy())|(lambda z: (z.fill(2.0), z)[1])(x.copy())|(lambda z: (np.fill_diagonal(z, 0.0), z)[1])(A.copy())|(lambda z: (np.multiply(z, 2.0, out=z), z)[1])(x.copy())|(lambda z: (z.__setitem__(slice(None), y), z)[1])(x.copy())
np.isscalar(x[0])|np.ndim(x)|np.shape(x)[0]|np.size(x)|isinstance(x[0], float)|isinstance(x, np.ndarray)|np.iscomplexobj(x)|np.result_type(x).kind|x.dtype.kind|np.finfo(float).eps|np.inf|np.pi|-np.inf < x[0]|x[0] < float("inf")|max(x[0], float("-inf"))|np.seterr()["over"]|np.cross(x, y)|np.triu_indices(3)[0]|np.interp(0.5, [0, 1], [0, 1])|np.cos(0.5)|np.sin(0.5)
np.average(x)|np.median(x)|np.cumprod(x)|np.add.accumulate(x)|np.maximum.accumulate(x)|np.diff(x)|np.copysign(x, y)|np.copysign(x[0], -1.0)|np.logical_and(x > 0, y > 0)|np.logical_or(x > 0, y > 0)|np.logical_not(x > 0)|(x > 0) & (y > 0)|~(x > 0)|(x > 0) \u2223 (y > 0)|np.greater(x, y)|np.less_equal(x, 0.0)|np.float64(x[0])|np.divide(x, y, out=np.zeros(3), where=y != 0)
np.linalg.matrix_power(A, 2)|np.take(x, [0, 2])|x.take([0, 2])|np.compress([True, False, True], x)|np.triu(A, 1)|np.tril(A, -1) + np.eye(3)|np.unique(x)|np.argwhere(x > 0)|np.array(x.tolist())|np.array(tuple(x))|[v for _, v in np.ndenumerate(x)]|np.einsum("k,kij->ij", x, np.stack([A, A, A]))|np.sum([t * A for t in x], axis=0)|sum((t * A for t in x), np.zeros((3, 3)))|np.tensordot(x, np.stack([A, A, A]), axes=1)|np.linalg.cholesky(A)|np.subtract.outer(x, y)
functools.reduce(lambda a, b: a + b, x)|functools.reduce(lambda a, b: a + b, [t * A for t in x])|operator.mul(x[0], y[0])|list(itertools.accumulate(x))|math.sumprod(x, y)|math.trunc(y[0])|math.fmod(y[0], 2.0)|math.modf(y[0])[0]|math.exp2(2.0)|math.cbrt(8.0)|statistics.fmean([1.0, 2.0])|np.where(y == 0, 1.0, y)|np.max([x[0], y[0]])|np.max((x[0], 1.0))|max(0.0, x[0])|min(x[0], y[0], 0.0)|max(range(3), key=lambda i: x[i])|max(x, default=0.0)|max(zip(x, range(3)))[1]|min(enumerate(x), key=lambda p: p[1])[0]
next((i for i, t in enumerate(x) if t < 0), None)|any(t < 0 for t in x)|all(t > 0 for t in y)|[t for t in x if t > 0]|x.any()|x.all()|x[0] and 1|not x[0]|x[2] == 0|x[0] != y[0]|bool(x[2])|-x[0]|+x[0]|abs(x)|x[0] is not None|x.shape == (3,)|x.nonzero()[0]|x.argmax()|x.argmin()|x.round()|x.cumsum()|x.conj()|x.real|x.T|x.repeat(2)|x.dot(y)|x.sum(axis=0)|A.sum()|A.min(axis=1)|A.dot(A)|A.copy()|A.flat[0]|A.diagonal().sum()|A.swapaxes(0, 1)|x.ptp() if hasattr(x, "ptp") else 0|x.reshape(3, 1)|x.reshape((1, -1)) @ A|x[np.newaxis] @ A|x[:, np.newaxis] @ x[np.newaxis, :]|A * x|A * x[:, None]|A / y|A - np.outer(x, x)|A[:, 0]|A[1:, 0]|A[0, 1:] @ x[1:]|A[::-1]|A[[0, 1]]|A[x > 0]|isinstance(x[0], (int, float))|isinstance(x[0], np.floating)|type(x[0])(1.0)|int(3.0)|float("nan") != float("nan")|hash(2.0)|f"{x[0]!s}"[:0]|f"{x[0]:.3f}"[:0]|str(x)[:0]|np.ones((3, 1)) * x|np.concatenate((np.ones((3, 1)), A), axis=1)|np.hstack((np.ones((3, 1)), A)) @ np.append(x, 1.0)|np.cos(np.outer(np.arange(3), np.arange(2)))|2 * np.cos(np.linspace(0, np.pi, 4))|np.column_stack((x, y))|np.row_stack((x, y)) if hasattr(np, "row_stack") else 0|np.dstack((x, y))[0]|np.moveaxis(A, 0, 1)|np.rot90(A)|np.array_split(x, 2)[0]|np.split(x, 3)[0]|np.nansum(x)|np.nanmax(x)|np.heaviside(x, 0.5)|np.isin(0, [0, 1])|np.sum(x * y)|np.sum(x, keepdims=True)|np.linalg.norm(A, axis=1)|np.linalg.norm(x) ** 2|np.sqrt(x @ x)|np.sqrt(np.dot(x, x))|np.log(np.exp(x))|np.exp(np.log(y))|np.exp(x).sum()|np.log(y).sum()|np.log(np.maximum(np.rint(y), 1.0))|(lambda z: (z.__setitem__(0, 1.7), z)[1])(np.array([1, 2]))|(lambda z: (z.__setitem__(0, -1.7), z)[1])(np.array([1, 2]))|(lambda z: (z.__setitem__(slice(None), y), z)[1])(np.array([1, 2, 3]))|(lambda z: (z.__setitem__(0, 1.7), z)[1])(np.zeros(2, dtype=int))|(lambda z: (z.__setitem__(0, 1.7), z)[1])(np.full(2, 3))|(lambda z: (z.__setitem__(0, 1.7), z)[1])(np.array([1, 2]) * 2)|(lambda z: (z.__setitem__(0, 1.7), z)[1])(np.array([1, 2]) / 2)|(lambda z: (z.__setitem__(0, 1.7), z)[1])(np.array([1, 2]).copy())|(lambda z: (z.__setitem__(0, 1.7), z)[1])(np.array([1, 2], dtype=float))|(lambda z: (z.__setitem__(0, 1.7), z)[1])(np.asarray([1, 2], dtype=float))|(lambda z: (z.__setitem__(0, 1.7), z)[1])(np.zeros_like(np.array([1, 2])))|(lambda z: (z.__setitem__((0, 0), 1.7), z)[1])(np.diag([1, 2]))|(lambda z: (z.__setitem__((0, 0), 1.7), z)[1])(np.diag([1.0, 2]))|(lambda z: (z.__setitem__((0, 0), 1.7), z)[1])(np.eye(2))|(lambda z: (z.__setitem__(0, 1.7), z)[1])(np.array([1, 2])[::-1])|(lambda z: (z.__setitem__(0, 1.7), z)[1])(np.array([1, 2]).astype(float))|(lambda z: (z.__setitem__(0, 1.7), z)[1])(np.array([1, 2]) @ np.array([[1, 2], [3, 4]]))|np.float_power(y, 2.0)|y ** 0.5|np.power(y, 0.5)|2.0 ** 3"""


def conv(v):
    if isinstance(v, E.SymBool):
        raise TypeError("undecided bool")
    if isinstance(v, SymReal):
        c = v.num.const()
        if c is None:
            return E.approx(v) if hasattr(E, "approx") else "sym"
        return float(c)
    if isinstance(v, (list, tuple)):
        return [conv(t) for t in v]
    if isinstance(v, np.ndarray):
        return [conv(t) for t in v.tolist()] if v.ndim else conv(v.item())
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.number)):
        return float(v)
    return v


def same(a, b):
    if a == "sym":
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) < 1e-9 * (1 + abs(a))
    return a == b


bad = 0


def run(ex, x, y, A, ctx, w):
    import ast
    code = compile(ast.fix_missing_locations(loader._Lits().visit(ast.parse(ex, mode="eval"))), "e", "eval")
    return conv(eval(code, dict(np=w.np, math=w.math, functools=functools, operator=operator, itertools=itertools, statistics=statistics, x=x, y=y, A=A, __builtins__=w.builtins)))


def symbolic(w, ctx, a, name):
    """the same array with every entry a variable that is constrained to its value"""
    out = w.np.array(a)
    for k in np.ndindex(a.shape):
        v = ctx.real(name + "".join(map(str, k)))
        ctx.assume(ctx.eq(v, ctx.const(str(Fraction(float(a[k]))))))
        out[k] = v
    return out


for ex in X.replace("\n", "|").split("|"):
    ex = ex.replace("\u2223", "|")
    rx, ry, rA = np.array([0.5, -2.25, 0.0]), np.array([1.5, 0.25, 3.0]), np.array([[4.0, 1.0, -2.0], [1.0, 3.0, 0.5], [-2.0, 0.5, 6.0]])
    try:
        want = conv(eval(ex, dict(np=np, math=math, functools=functools, operator=operator, itertools=itertools, statistics=statistics, x=rx, y=ry, A=rA)))
    except Exception as e:
        want = "EXC " + type(e).__name__
    for mode in ("constants", "variables"):
        ctx = E.SymCtx({"deadline": 1e18}, [], E.Stats())
        w = loader.World()
        ctx.np, ctx.math, ctx.mod = w.np, w.math, w.load
        try:
            if mode == "constants":
                got = run(ex, w.np.array(rx), w.np.array(ry), w.np.array(rA), ctx, w)
            else:
                got = run(ex, *(symbolic(w, ctx, a, n) for a, n in ((rx, "x"), (ry, "y"), (rA, "a"))), ctx, w)
        except BaseException as e:
            got = "EXC " + type(e).__name__ + " " + str(e)[:90]
        if mode == "variables" and not (isinstance(got, str) and got.startswith("EXC")):
            continue
        if not same(got, want) and not (isinstance(want, str) and isinstance(got, str) and want[:8] == got[:8]):
            bad += 1
            print(f"{ex}  [{mode}]\n      want {want}\n      got  {got}")
print("differences:", bad)
