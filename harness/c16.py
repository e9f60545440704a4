"""C16 the LMI oracles agree: the lazy and the explicit oracle give the same answer, and the homogeneous oracle answers like the
general one with B = 0 and negated matrices."""
from . import lib, mats, c13, c15

ASSUMPTIONS = ["symmetric coefficient matrices"]


def same(c, r, w, m):
    c.prove((r is None) == (w is None), "same verdict")
    if r is None or w is None:
        c.reach("accepted")
        return
    c.reach("cut")
    c.prove(c.And(c.eq(r[1], w[1]), *[c.eq(r[0][q], w[0][q]) for q in range(m)]), "same cut")


def run(c, n, m, k, zero, calls=1):
    A, d, v = c15.classed(c, n, k)
    F = [c15.sym(c, n, f"f{q}_") for q in range(m)]
    x = [c.real(f"x{q}") for q in range(m)]
    if zero:
        c.assume(c.ne(x[0], 0))
        F[0] = c15.lin(n, lambda i, j: (A[i][j] - sum((F[q][i][j] * x[q] for q in range(1, m)), 0)) / x[0])
        a = c15.oracle(c, "LMI0Oracle", [mats.mat(c, f) for f in F], None)
        neg = [c15.lin(n, lambda i, j, f=f: -f[i][j]) for f in F]
        B = c15.lin(n, lambda i, j: c.num(0))
        b = c15.oracle(c, zero, [mats.mat(c, f) for f in neg], mats.mat(c, B))
    else:
        B = c15.lin(n, lambda i, j: A[i][j] + sum((F[q][i][j] * x[q] for q in range(m)), 0))
        a = c15.oracle(c, "LMIOracle", [mats.mat(c, f) for f in F], mats.mat(c, B))
        b = c15.oracle(c, "LMIOldOracle", [mats.mat(c, f) for f in F], mats.mat(c, B))
    for _ in range(calls):
        same(c, a.assess_feas(c.arr(x)), b.assess_feas(c.arr(x)), m)


def walk(c, which, n):
    """two queries at arbitrary points, fixed matrices"""
    FF, BB = (c15.HF, c15.HB) if n == 2 else (c15.HF3, c15.HB3)
    nm = lambda M, s=1: mats.mat(c, [[c.num(s * t) for t in r] for r in M])              # noqa: E731
    if which == "LMI0Oracle":
        a = c15.oracle(c, which, [nm(f) for f in FF], None)
        b = c15.oracle(c, "LMIOracle", [nm(f, -1) for f in FF], nm(BB, 0))
    else:
        a, b = c15.oracle(c, "LMIOracle", [nm(f) for f in FF], nm(BB)), c15.oracle(c, "LMIOldOracle", [nm(f) for f in FF], nm(BB))
    for s in range(2):
        x = [c.real(f"x{s}0"), c.real(f"x{s}1")]
        same(c, a.assess_feas(c.arr(x)), b.assess_feas(c.arr(x)), 2)


def whole(c, n, m):
    """matrices of integers"""
    def sym(name):
        M = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                M[i][j] = M[j][i] = c.integer(f"{name}{i}{j}", -9, 9)
        return M
    F, B = [sym(f"f{q}_") for q in range(m)], sym("b")
    x = [c.real(f"x{q}") for q in range(m)]
    mk = lambda M: c.iarr([list(r) for r in M])                                           # noqa: E731
    neg = [[[-t for t in r] for r in f] for f in F]
    zb = [[0] * n for _ in range(n)]
    try:
        r = [c15.oracle(c, k, [mk(f) for f in F], mk(B)).assess_feas(c.arr(x)) for k in ("LMIOracle", "LMIOldOracle")]
        z = [c15.oracle(c, k, [mk(f) for f in (F if k == "LMI0Oracle" else neg)], mk(zb)).assess_feas(c.arr(x)) for k in ("LMIOracle", "LMIOldOracle", "LMI0Oracle")]
    except TypeError:
        c.fail("all oracles answer")
        return
    same(c, r[0], r[1], m)
    same(c, z[0], z[1], m)
    same(c, z[0], z[2], m)


def large(c, which, n, m, k):
    """many rows and variables: sparse coefficient matrices"""
    A, d = c13.sparse(c, n, k)
    F = [c15.lin(n, lambda i, j, q=q: c.num((q + 1) * ((i * j + q) % 5 - 2) if (i + j) % (q + 2) == 0 else 0)) for q in range(m)]
    x = [c.real(f"x{q}") if q in (0, 1, m - 1) else c.num(q % 3 - 1) for q in range(m)]
    if which == "LMI0Oracle":
        c.assume(c.ne(x[0], 0))
        F[0] = c15.lin(n, lambda i, j: (A[i][j] - sum((F[q][i][j] * x[q] for q in range(1, m)), 0)) / x[0])
        neg = [c15.lin(n, lambda i, j, f=f: -f[i][j]) for f in F]
        a = c15.oracle(c, which, [mats.mat(c, f) for f in F], None)
        b = c15.oracle(c, "LMIOracle", [mats.mat(c, f) for f in neg], mats.mat(c, c15.lin(n, lambda i, j: c.num(0))))
    else:
        B = c15.lin(n, lambda i, j: A[i][j] + sum((F[q][i][j] * x[q] for q in range(m)), 0))
        a, b = [c15.oracle(c, w, [mats.mat(c, f) for f in F], mats.mat(c, B)) for w in ("LMIOracle", "LMIOldOracle")]
    same(c, a.assess_feas(c.arr(x)), b.assess_feas(c.arr(x)), m)


TASKS = []
for n, m in ((1, 1), (1, 2), (2, 1)):
    TASKS.append(dict(name=f"whole_n{n}m{m}", fn=whole, params=dict(n=n, m=m), require=["accepted", "cut"], bounds=f"{m} symmetric {n}x{n} matrices of integers in [-9, 9]"))
for zero in (None, "LMIOracle", "LMIOldOracle"):
    for n, m in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 2), (5, 2)):
        for k in range(n + 1):
            TASKS.append(dict(name=f"{'zero_' + zero if zero else 'lazy_explicit'}_n{n}m{m}_class{k}", fn=run, params=dict(n=n, m=m, k=k, zero=zero, calls=2 if n <= 3 else 1), require=["accepted" if k == n else "cut"],
                              bounds=f"every {m} symmetric {n}x{n} matrices", tier="quick" if n <= 4 else "thorough"))
for n, m in ((2, 9), (6, 3), (12, 4)):
    for k in sorted({n, n - 1, n // 2}):
        for which in ("LMIOracle", "LMI0Oracle"):
            TASKS.append(dict(name=f"large_{which}_n{n}m{m}_class{k}", fn=large, params=dict(which=which, n=n, m=m, k=k), require=["accepted" if k == n else "cut"], bounds=f"{m} sparse {n}x{n} matrices, sparse factor, three coordinates of the point symbolic"))
for which in ("LMIOracle", "LMI0Oracle"):
    for n in (2, 3):
        TASKS.append(dict(name=f"walk_{which}_n{n}", fn=walk, params=dict(which=which, n=n), require=["cut"], bounds="fixed integer matrices, two arbitrary points in a row", tier="quick" if n == 2 else "thorough", budget_s=300))
task = lib.names(TASKS)
