"""C14 the certificate of a failed factorisation: v != 0, v'Av = -ep <= 0, and sym_quad(M) = v'Mv for every M."""
from . import c13, lib, mats

ASSUMPTIONS = ["symmetric input"]


def certificate(c, q, A, n, ep):
    """the vector the manager shows, over all of its entries"""
    c.prove(len(q.wit) == n, "one entry per row")
    v = lib.lst(q.wit)
    c.prove(c.Or(*[c.ne(x, 0) for x in v]), "the certificate is not zero")
    c.prove(c.eq(mats.quad(A, v), -ep), "v'Av = -ep")
    return v


def run(c, n, k, how="array", before=(), again=False, other=False, big=False):
    A, d = c13.sparse(c, n, k) if big else mats.classed(c, n, k)
    q = mats.manager(c, n, before)
    a = mats.mat(c, A)
    r = q.factorize(a) if how == "array" else q.factor(lambda i, j: A[i][j])
    if bool(r):
        c.fail("a matrix that is not positive definite was accepted")
        return
    if other:
        mats.foreign(c, n)
    ep = q.witness()
    if other:
        mats.foreign(c, n)
    if again:
        ep2 = q.witness()
        c.prove(c.eq(ep, ep2), "witness can be asked again")
    c.reach("witness")
    c.prove(c.ge(ep, 0), "ep >= 0")
    v = certificate(c, q, A, n, ep)
    c.prove(c.eq(q.sym_quad(a), -ep), "sym_quad(A) = -ep")
    for rep in range(2):
        M = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n if rep else i + 1):
                M[i][j] = c.real(f"m{rep}{i}{j}") if not big or (i * 3 + j * 5) % 11 == 0 else c.num((i + j) % 3 - 1)
                if not rep:
                    M[j][i] = M[i][j]                # the second matrix need not be symmetric
        c.prove(c.eq(q.sym_quad(mats.mat(c, M)), mats.quad(M, v)), "sym_quad(M) = v'Mv")
        if n > 3:
            break


def semidefinite(c, n, k, before):
    """the same for a refusal of the variant that tolerates zero pivots, after a zero pivot at row k"""
    A = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            A[i][j] = A[j][i] = c.num(0) if i == k and j == k else (c.num(int(i == j)) if i <= k else c.real(f"e{i}{j}"))
    q = mats.manager(c, n, before)
    if bool(q.factor_with_allow_semidefinite(lambda i, j: A[i][j])):
        c.reach("accepted")
        return
    ep = q.witness()
    c.reach("witness")
    c.prove(c.gt(ep, 0), "ep > 0")
    v = certificate(c, q, A, n, ep)
    M = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            M[i][j] = M[j][i] = c.real(f"m{i}{j}")
    c.prove(c.eq(q.sym_quad(mats.mat(c, M)), mats.quad(M, v)), "sym_quad(M) = v'Mv")


TASKS = []
for n in (2, 3, 4):
    for k in range(n - 1):
        for w in list(range(n + 1)) + [f"_s{i}" for i in range(1, n + 1)]:
            TASKS.append(dict(name=f"semi{n}_zero{k}_after{w}", fn=semidefinite, params=dict(n=n, k=k, before=(w if isinstance(w, int) else w[1:],)), require=["witness"], bounds="refusals of the semidefinite variant after a zero pivot, on a used manager"))
for n in (1, 2, 3, 4, 5, 6, 7, 8):
    for k in range(n):
        for how in ("array", "lambda"):
            TASKS.append(dict(name=f"n{n}_class{k}_{how}", fn=run, params=dict(n=n, k=k, how=how, again=how == "lambda"), require=["witness"], bounds=f"every symmetric {n}x{n} matrix with {k} positive leading pivots and a non-positive next one",
                              ))
for n in (2, 3):
    for k in range(n):
        for w in list(range(n + 1)) + [f"_s{i}" for i in range(1, n + 1)]:
            TASKS.append(dict(name=f"n{n}_class{k}_after{w}", fn=run, params=dict(n=n, k=k, before=(w if isinstance(w, int) else w[1:],)), require=["witness"], bounds="the same, on a manager already used on another matrix"))
for n in (2, 3):
    for k in range(n):
        for how in ("array", "lambda"):
            TASKS.append(dict(name=f"n{n}_class{k}_{how}_other", fn=run, params=dict(n=n, k=k, how=how, other=True), require=["witness"], bounds="the same, with other managers used in between"))
for n in (12, 20, 40, 100):
    for k in (n - 1, n // 2):
        TASKS.append(dict(name=f"n{n}_class{k}_sparse", fn=run, params=dict(n=n, k=k, big=True), require=["witness"], bounds=f"{n}x{n}, {k} positive leading pivots, sparse factor with 6 symbolic entries, about a fifth of the pivots symbolic"))
task = lib.names(TASKS)
