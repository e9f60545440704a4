"""C13 LDLTMgr: factor/factorize say True exactly on positive-definite matrices, whatever was factorised before; sqrt gives the
upper-triangular R with R'R = A and refuses otherwise; witness refuses on a positive-definite matrix."""
from . import lib, mats

ASSUMPTIONS = ["symmetric input"]


def raises(f):
    try:
        f()
    except AssertionError:
        return True
    return False


def sparse(c, n, k, factor=False):
    """a large symmetric matrix with k positive leading pivots, given by a sparse factor"""
    m = min(k + 1, n)
    L = [[1 if i == j else 0 for j in range(m)] for i in range(m)]
    nz = {(i, i) for i in range(m)}
    for q, (i, j) in enumerate(((m - 1, 0), (m - 1, m // 2), (m // 2, 1), (m // 2, m // 2 - 1), (m - 1, m - 2), (m - 2, 2))):
        if i > j:
            L[i][j] = c.real(f"l{q}")
            nz.add((i, j))
    d = [c.real(f"d{i}", pos=True) if i % 5 == 0 or i == m - 2 else c.num(1 + i % 3) for i in range(min(k, n))]
    if k < n:
        d.append(c.real(f"d{k}"))
        c.assume(c.le(d[k], 0))
    A = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            if i < m:
                v = sum((L[i][p] * d[p] * L[j][p] for p in range(j + 1) if (i, p) in nz and (j, p) in nz), 0)
            else:
                v = (i * 7 + j * 3) % 5 - 2
            A[i][j] = A[j][i] = v + c.num(0)
    return (A, d, L) if factor else (A, d)


def run(c, n, k, how, before=(), other=False, inplace=False, big=False):
    A, d = sparse(c, n, k) if big else mats.classed(c, n, k)
    keep = lib.Keep(c)
    q = mats.manager(c, n, before, keep)
    if inplace:                              # one array (one function) whose contents change between the factorisations
        a = mats.mat(c, [[c.num(x) for x in r] for r in mats.earlier(n)[inplace - 1]])
        get = lambda i, j: a[i, j]                                                        # noqa: E731
        for w in range(2):
            r = q.factorize(a) if how == "array" else q.factor(get)
            if not w:
                for i in range(n):
                    for j in range(n):
                        a[i, j] = A[i][j]
    elif how == "array":
        a = mats.mat(c, A)
        r = q.factorize(a)
        c.prove(c.And(*[c.eq(a[i, j], A[i][j]) for i in range(n) for j in range(n)]), "the matrix is not modified")
    else:
        r = q.factor(lambda i, j: A[i][j])
    if other:
        mats.foreign(c, n)
    keep.check()
    c.prove(bool(r) == (k == n), "True exactly if positive definite")
    c.prove(bool(q.is_spd()) == (k == n), "is_spd agrees with the factorisation")
    if k < n:
        c.reach("not positive definite")
        c.prove(raises(q.sqrt), "sqrt refuses a matrix that is not positive definite")
        c.prove(bool(q.is_spd()) is False, "still not positive definite after the refusal")
        return
    c.reach("positive definite")
    c.prove(raises(q.witness), "no witness for a positive-definite matrix")
    R = q.sqrt()
    c.prove(c.And(*[c.eq(R[i, j], 0) for i in range(n) for j in range(i)]), "R is upper triangular")
    c.prove(c.And(*[c.ge(R[i, i], 0) for i in range(n)]), "R has a non-negative diagonal")
    for i in range(n):
        for j in range(i + 1):
            c.prove(c.eq(sum((R[p, i] * R[p, j] for p in range(n)), 0), A[i][j]), "R'R = A")
    if n <= 3:
        mine = R.copy()
        R[0, 0], R[0, n - 1] = c.num(-1), c.num(77)          # the caller may do what it likes with its copy
        R2, R = q.sqrt(), mine
    else:
        R2 = q.sqrt()
    c.prove(c.And(*[c.eq(R[i, j], R2[i, j]) for i in range(n) for j in range(n)]), "sqrt can be asked again")


TASKS = []
for n in (1, 2, 3, 4, 5, 6, 7, 8):
    for k in range(n + 1):
        for how in ("array", "lambda"):
            TASKS.append(dict(name=f"n{n}_class{k}_{how}", fn=run, params=dict(n=n, k=k, how=how), require=["positive definite" if k == n else "not positive definite"],
                              bounds=f"every symmetric {n}x{n} matrix with {k} positive leading pivots"))
for n in (2, 3):
    for k in range(n + 1):
        for w in range(n + 1):
            TASKS.append(dict(name=f"n{n}_class{k}_after{w}", fn=run, params=dict(n=n, k=k, how="lambda" if w % 2 else "array", before=(w,)),
                              require=["positive definite" if k == n else "not positive definite"], bounds=f"the same, on a manager already used on another matrix"))
        for w in [f"s{i}" for i in range(1, n + 1)]:
            TASKS.append(dict(name=f"n{n}_class{k}_after_{w}", fn=run, params=dict(n=n, k=k, how="lambda" if w == "s1" else "array", before=(w,)),
                              require=["positive definite" if k == n else "not positive definite"], bounds="the same, on a manager whose semidefinite variant was used on another matrix"))
    for k in range(n + 1):
        TASKS.append(dict(name=f"n{n}_class{k}_after_all", fn=run, params=dict(n=n, k=k, how="array", before=tuple(range(n, -1, -1))),
                          require=["positive definite" if k == n else "not positive definite"], bounds=f"the same, on a manager used on several matrices"))
for n in (2, 3):
    for k in range(n + 1):
        for how in ("array", "lambda"):
            R = ["positive definite" if k == n else "not positive definite"]
            TASKS.append(dict(name=f"n{n}_class{k}_{how}_other", fn=run, params=dict(n=n, k=k, how=how, other=True), require=R, bounds="the same, with other managers used in between"))
            for w in (1, 2, n + 1):
                TASKS.append(dict(name=f"n{n}_class{k}_{how}_inplace{w}", fn=run, params=dict(n=n, k=k, how=how, inplace=w), require=R, bounds="the same array refilled after an earlier factorisation"))
for n in (12, 20, 40, 100):
    for k in (n, n - 1, n // 2):
        TASKS.append(dict(name=f"n{n}_class{k}_sparse", fn=run, params=dict(n=n, k=k, how="array", big=True), require=["positive definite" if k == n else "not positive definite"], bounds=f"{n}x{n}, {k} positive leading pivots, sparse factor with 6 symbolic entries, about a fifth of the pivots symbolic"))
task = lib.names(TASKS)
