"""C25 factor_with_allow_semidefinite: every positive-semidefinite matrix is accepted; a refusal comes with a strict certificate;
with no exactly zero pivot it decides positive definiteness; after a zero pivot the rest of the matrix still has to pass."""
from . import c13, lib, mats

ASSUMPTIONS = ["symmetric input"]


def certificate(c, q, A, n):
    ep = q.witness()
    v = lib.lst(q.wit)
    c.prove(len(v) == n, "one entry per row")
    c.prove(c.gt(ep, 0), "a refusal has ep > 0")
    c.prove(c.eq(mats.quad(A, v), -ep), "v'Av = -ep")
    c.prove(c.eq(q.sym_quad(mats.mat(c, A)), -ep), "sym_quad(A) = -ep")


def run(c, n, k, before=(), other=False, big=False):
    A, d = c13.sparse(c, n, k) if big else mats.classed(c, n, k, strict=True)
    if big and k < n:
        c.assume(c.lt(d[k], 0))
    q = mats.manager(c, n, before)
    r = q.factor_with_allow_semidefinite(lambda i, j: A[i][j])
    if other:
        mats.foreign(c, n)
    c.prove(bool(r) == (k == n), "without a zero pivot: True exactly if positive definite")
    c.prove(bool(q.is_spd()) == (k == n), "is_spd agrees")
    if k == n:
        c.reach("accepted")
        return
    c.reach("refused")
    certificate(c, q, A, n)


def zero(c, n, k, before=()):
    """first non-positive pivot exactly zero, the rest arbitrary"""
    L = [[1 if i == j else 0 for j in range(k + 1)] for i in range(k + 1)]
    for i in range(k + 1):
        for j in range(i):
            L[i][j] = c.real(f"l{i}{j}")
    d = [c.real(f"d{i}", pos=True) for i in range(k)] + [0]
    A = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            v = sum((L[i][p] * d[p] * L[j][p] for p in range(j + 1)), 0) + c.num(0) if i <= k else c.real(f"e{i}{j}")
            A[i][j] = A[j][i] = v
    q = mats.manager(c, n, before)
    r = q.factor_with_allow_semidefinite(lambda i, j: A[i][j])
    if bool(r):
        c.reach("accepted")
        if k < n - 1:
            t = mats.manager(c, n - k - 1)
            c.prove(bool(t.factor_with_allow_semidefinite(lambda i, j: A[i + k + 1][j + k + 1])), "the block after a zero pivot has to pass on its own")
    else:
        c.reach("refused")
        certificate(c, q, A, n)


def psd(c, n, zeros, sparse=False):
    """A = L D L', D >= 0 with the given zeros"""
    L = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i):
            if j not in zeros:
                L[i][j] = c.real(f"l{i}{j}")
    d = [c.num(0) if i in zeros else c.real(f"d{i}", pos=True) for i in range(n)]
    A = [[sum((L[i][p] * d[p] * L[j][p] for p in range(min(i, j) + 1)), 0) + c.num(0) for j in range(n)] for i in range(n)]
    q = mats.manager(c, n)
    r = q.factor_with_allow_semidefinite(lambda i, j: A[i][j])
    c.prove(bool(r), "a positive-semidefinite matrix is accepted")
    c.prove(bool(q.is_spd()), "is_spd agrees")
    c.reach("accepted")


def psdbig(c, n, zeros):
    L = {(i, i): 1 for i in range(n)}
    for q, (i, j) in enumerate(((n - 1, 0), (n - 1, n // 2), (n // 2, 1), (n // 2, n // 2 - 1), (n - 1, n - 2), (n - 2, 2))):
        if j not in zeros:
            L[i, j] = c.real(f"l{q}")
    d = [c.num(0) if i in zeros else (c.real(f"d{i}", pos=True) if i % 5 == 0 else c.num(1 + i % 3)) for i in range(n)]
    A = [[sum((L[i, p] * d[p] * L[j, p] for p in range(min(i, j) + 1) if (i, p) in L and (j, p) in L), 0) + c.num(0) for j in range(n)] for i in range(n)]
    q = mats.manager(c, n)
    c.prove(bool(q.factor_with_allow_semidefinite(lambda i, j: A[i][j])), "a positive-semidefinite matrix is accepted")
    c.prove(bool(q.is_spd()), "is_spd agrees")
    c.reach("accepted")


def wrong(c):
    """known finding KF2: an indefinite matrix whose first pivot is zero"""
    a, b, e = c.real("a"), c.real("b"), c.real("e", pos=True)
    c.assume(c.ne(b, 0))
    A = [[c.num(0), b], [b, e]]
    q = mats.manager(c, 2)
    c.prove(not bool(q.factor_with_allow_semidefinite(lambda i, j: A[i][j])), "[[0, b], [b, e]] with b != 0 is not positive semidefinite")


TASKS = []
for n in (1, 2, 3, 4, 5):
    for k in range(n + 1):
        TASKS.append(dict(name=f"n{n}_class{k}", fn=run, params=dict(n=n, k=k), require=["accepted" if k == n else "refused"], bounds=f"every symmetric {n}x{n} matrix with {k} positive leading pivots and then a negative one"))
    for k in range(n):
        if n <= 4:
            TASKS.append(dict(name=f"n{n}_zero{k}", fn=zero, params=dict(n=n, k=k), require=["accepted"], bounds=f"every symmetric {n}x{n} matrix with {k} positive leading pivots and then a zero one"))
for k in range(3):
    for w in (0, 1, 2, "_s1", "_s2"):
        TASKS.append(dict(name=f"n2_class{k}_after{w}", fn=run, params=dict(n=2, k=k, before=(w if isinstance(w, int) else w[1:],)), require=["accepted" if k == 2 else "refused"], bounds="the same, on a manager already used"))
for n in (2, 3):
    for k in range(n):
        for w in list(range(n + 1)) + [f"_s{i}" for i in range(1, n + 1)]:
            TASKS.append(dict(name=f"n{n}_zero{k}_after{w}", fn=zero, params=dict(n=n, k=k, before=(w if isinstance(w, int) else w[1:],)), require=["accepted"], bounds="zero pivot, on a manager already used"))
for n in (1, 2, 3, 4):
    for z in range(1 << n):
        zs = tuple(i for i in range(n) if z >> i & 1)
        TASKS.append(dict(name=f"psd{n}_zeros{'_'.join(map(str, zs)) or 'none'}", fn=psd, params=dict(n=n, zeros=zs), require=["accepted"], bounds=f"every positive-semidefinite {n}x{n} matrix with these zero pivots"))
for n in (2, 3):
    for k in range(n + 1):
        TASKS.append(dict(name=f"n{n}_class{k}_other", fn=run, params=dict(n=n, k=k, other=True), require=["accepted" if k == n else "refused"], bounds="the same, with other managers used in between"))
for n in (12, 20, 40, 100):
    for k in (n, n - 1, n // 2):
        TASKS.append(dict(name=f"n{n}_class{k}_sparse", fn=run, params=dict(n=n, k=k, big=True), require=["accepted" if k == n else "refused"], bounds=f"{n}x{n}, {k} positive leading pivots, then a negative one, sparse factor"))
    for zs in ((n // 2,), (0, n - 1), (1, n // 2, n // 2 + 1)):
        TASKS.append(dict(name=f"psd{n}_sparse_zeros{'_'.join(map(str, zs))}", fn=psdbig, params=dict(n=n, zeros=zs), require=["accepted"], bounds=f"positive-semidefinite {n}x{n}, these zero pivots, sparse factor"))
TASKS.append(dict(name="indefinite_zero_pivot", fn=wrong, params={}, bounds="known finding", finding="KF2"))
task = lib.names(TASKS)
