"""Symmetric matrices by class: every symmetric n x n matrix is in exactly one class k in 0..n, where k is the number of
leading LDL' pivots that are positive before the first one that is not.  Class n: positive definite (A = L D L', D > 0).
Class k < n: the leading (k+1)-block is L D L' with d_0..d_{k-1} > 0 >= d_k, and every other entry is arbitrary; then
v = L^-T e_k has v'Av = d_k <= 0, so the matrix is not positive definite."""


def classed(c, n, k, name="a", strict=False):
    m = min(k + 1, n)
    L = [[1 if i == j else 0 for j in range(m)] for i in range(m)]
    for i in range(m):
        for j in range(i):
            L[i][j] = c.real(f"{name}l{i}{j}")
    d = [c.real(f"{name}d{i}", pos=True) for i in range(min(k, n))]
    if k < n:
        dk = c.real(f"{name}d{k}")
        c.assume(c.lt(dk, 0) if strict else c.le(dk, 0))
        d.append(dk)
    A = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            if i < m:
                v = sum((L[i][p] * d[p] * L[j][p] for p in range(j + 1)), 0)
            else:
                v = c.real(f"{name}e{i}{j}")
            A[i][j] = A[j][i] = v + c.num(0)
    return A, d


def mat(c, rows):
    return c.arr([list(r) for r in rows])


def quad(A, v):
    n = len(v)
    return sum((v[i] * A[i][j] * v[j] for i in range(n) for j in range(n)), 0)


# matrices factorised beforehand on the same manager: positive definite, failing at row 1 / 2 / last
def earlier(n):
    pd = [[(2 * n if i == j else 1) for j in range(n)] for i in range(n)]
    out = [pd]
    for f in range(n):
        a = [r[:] for r in pd]
        a[f][f] = -3
        out.append(a)
    return out


def foreign(c, n):
    """other managers, of the same and of other sizes, come and go"""
    for k, w in ((n, 0), (n + 2, 1), (n, 1), (n + 1, n + 1)):
        manager(c, k, (w,))


def manager(c, n, before=(), keep=None):
    """an LDLTMgr that may have been used on other matrices before"""
    q = c.mod("ellalgo.oracles.ldlt_mgr").LDLTMgr(n)
    for w in before:
        if isinstance(w, str):               # "s<k>": the semidefinite variant, zero pivot in row 0, then failing in row k (k = n: accepted)
            a = earlier(n)[0]
            for i in range(n):
                a[0][i] = a[i][0] = 0
            k = int(w[1:])
            if k < n:
                a[k][k] = -3
            if not q.factor_with_allow_semidefinite(lambda i, j: c.num(a[i][j])):
                q.witness()
                q.sym_quad(mat(c, [[c.num(x) for x in r] for r in a]))
            continue
        a = mat(c, [[c.num(x) for x in r] for r in earlier(n)[w]])
        if not q.factorize(a):
            q.witness()
            q.sym_quad(a)
        elif keep is not None:
            keep.add(q.sqrt())
    return q
