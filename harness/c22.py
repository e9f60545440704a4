"""C22 conjugate_gradient: what it returns solves the system to the tolerance (for any square matrix); for a positive-definite
matrix it does return within n iterations; otherwise ValueError; its arguments are not modified."""
from . import lib, mats

ASSUMPTIONS = ["exact arithmetic; tol > 0"]


def solve(c, A, b, x0, n, max_iter, ints=False):
    tol = c.real("tol", pos=True)
    mk = c.iarr if ints else c.arr
    Aa, ba = mk([list(r) for r in A]), mk(list(b))
    xa = mk(list(x0)) if x0 is not None else None
    fn = c.mod("ellalgo.conjugate_gradient").conjugate_gradient
    try:
        x = fn(Aa, ba, xa, tol, max_iter)
    except ValueError:
        x = None
    c.prove(c.And(*[c.eq(Aa[i, j], A[i][j]) for i in range(n) for j in range(n)], *[c.eq(ba[i], b[i]) for i in range(n)],
                  *[c.eq(xa[i], x0[i]) for i in range(n) if x0 is not None]), "matrix, right-hand side and initial guess are not modified")
    if x is None:
        return None, None
    x = lib.lst(x)
    c.prove(len(x) == n, "the solution has one entry per equation")
    res = [b[i] - sum((A[i][j] * x[j] for j in range(n)), 0) for i in range(n)]
    c.prove(c.lt(c.sqrt(sum((r * r for r in res), 0)), tol), "the residual of the result is below the tolerance")
    return x, res


def start(c, n, guess, A):
    """right-hand side and initial guess; with a guess, b is given by the initial residual: b = r + A x0"""
    r = [c.real(f"b{i}") for i in range(n)]
    if not guess:
        return r, None
    x0 = [c.real(f"x{i}") for i in range(n)]
    return [r[i] + sum((A[i][j] * x0[j] for j in range(n)), 0) for i in range(n)], x0


def anym(c, n, guess, max_iter, symmetric=True):
    A = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            A[i][j] = A[j][i] if symmetric and j < i else c.real(f"a{i}{j}")
    b, x0 = start(c, n, guess, A)
    x, _ = solve(c, A, b, x0, n, max_iter)
    c.reach("returned" if x is not None else "raised")


def spd(c, n, guess, max_iter, form="ldl"):
    if form == "ldl":
        A, _ = mats.classed(c, n, n)
    else:
        A = [[c.real(f"d{i}", pos=True) if i == j else c.num(0) for j in range(n)] for i in range(n)]
    b, x0 = start(c, n, guess, A)
    x, _ = solve(c, A, b, x0, n, max_iter)
    c.prove(x is not None, "a positive-definite system is solved within n iterations")
    c.reach("returned")


def whole(c, n, guess, max_iter):
    """matrix, right-hand side and guess given as arrays of integers"""
    A = [[c.integer(f"d{i}", 1, 9) if i == j else 0 for j in range(n)] for i in range(n)]
    b = [c.integer(f"b{i}", -9, 9) for i in range(n)]
    x0 = [c.integer(f"x{i}", -9, 9) for i in range(n)] if guess else None
    try:
        x, _ = solve(c, A, b, x0, n, max_iter, ints=True)
    except TypeError:
        c.fail("a system of integers is solved")
        return
    c.prove(x is not None, "a positive-definite system is solved within n iterations")
    c.reach("returned")


def banded(c, n, guess):
    """a fixed positive-definite tridiagonal matrix, right-hand side (and guess) with a symbolic size; the documented defaults"""
    A = [[c.num(4 + i % 3 if i == j else (1 if abs(i - j) == 1 else 0)) for j in range(n)] for i in range(n)]
    s = c.real("s")
    x0 = [s * (i % 4) for i in range(n)] if guess else None
    b = [s * ((i * 3) % 5 - 1) for i in range(n)]
    x, _ = solve(c, A, b, x0, n, n)
    c.prove(x is not None, "a positive-definite system is solved within n iterations")
    c.reach("returned")


def defaults(c, n):
    """default tolerance 1e-5 and limit 1000; earlier results stay as they are"""
    fn = c.mod("ellalgo.conjugate_gradient").conjugate_gradient
    keep = lib.Keep(c)
    d = [c.real(f"d{i}", pos=True) for i in range(n)]
    b = [c.real(f"b{i}") for i in range(n)]
    A = c.arr([[d[i] if i == j else c.num(0) for j in range(n)] for i in range(n)])
    keep.add(fn(c.arr([[c.num(2), c.num(1)], [c.num(1), c.num(3)]]), c.arr([1, 2])))
    x = fn(A, c.arr(b))
    keep.check()
    res = [b[i] - d[i] * x[i] for i in range(n)]
    c.prove(c.lt(sum((r * r for r in res), 0) * c.const("10000000000"), 1), "default tolerance 1e-5")
    big = c.gt(sum((r * r for r in b), 0) * c.const("10000000000"), 1)
    c.prove(c.Or(c.Not(big), c.Or(*[c.ne(x[i], 0) for i in range(n)])), "the default tolerance is not looser")
    c.reach("returned")


TASKS = []
for n in (4, 6, 10, 20, 40):
    for guess in (False, True):
        TASKS.append(dict(name=f"banded{n}_{'guess' if guess else 'zero'}", fn=banded, params=dict(n=n, guess=guess), require=["returned"], bounds=f"a fixed tridiagonal {n}x{n} matrix, right-hand side and guess of any size, any tolerance", tier="quick" if n <= 20 else "thorough"))
for n in (1, 2):
    TASKS.append(dict(name=f"defaults{n}", fn=defaults, params=dict(n=n), require=["returned"], bounds=f"positive diagonal {n}x{n} systems, default tolerance and limit"))
for n in (1, 2):
    for guess in (False, True):
        TASKS.append(dict(name=f"int{n}_{'guess' if guess else 'zero'}", fn=whole, params=dict(n=n, guess=guess, max_iter=n), require=["returned"], bounds=f"positive diagonal {n}x{n} systems of integers"))
for n, ks in ((1, (0, 1, 2)), (2, (0, 1, 2, 3))):
    for k in ks:
        for guess in (False, True):
            TASKS.append(dict(name=f"any{n}_k{k}_{'guess' if guess else 'zero'}", fn=anym, params=dict(n=n, guess=guess, max_iter=k), require=["returned", "raised"], bounds=f"every symmetric {n}x{n} system, {k} iterations allowed"))
TASKS.append(dict(name="anysquare2_k1", fn=anym, params=dict(n=2, guess=False, max_iter=1, symmetric=False), require=["returned", "raised"], bounds="every 2x2 system, 1 iteration allowed"))
TASKS.append(dict(name="any3_k1", fn=anym, params=dict(n=3, guess=False, max_iter=1), require=["returned", "raised"], bounds="every symmetric 3x3 system, 1 iteration allowed"))
for n in (1, 2):
    for guess in (False, True):
        for k in (n, n + 1):
            TASKS.append(dict(name=f"spd{n}_k{k}_{'guess' if guess else 'zero'}", fn=spd, params=dict(n=n, guess=guess, max_iter=k), require=["returned"], bounds=f"every positive-definite {n}x{n} system, {k} iterations allowed"))
TASKS.append(dict(name="diag3", fn=spd, params=dict(n=3, guess=False, max_iter=3, form="diag"), require=["returned"], bounds="every positive diagonal 3x3 system"))
TASKS.append(dict(name="diag3_k4_guess", fn=spd, params=dict(n=3, guess=True, max_iter=4, form="diag"), require=["returned"], bounds="every positive diagonal 3x3 system, any initial guess"))
task = lib.names(TASKS)
