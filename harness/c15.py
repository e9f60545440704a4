"""C15 LMI oracles: None exactly when the constraint matrix at x is positive definite; otherwise a cut (g, ep) with ep >= 0 that
every feasible point satisfies, strictly if it is strictly feasible; inputs untouched.

The matrix at xc is any symmetric matrix (by class, see mats); the feasible point y is any point whose matrix is S = R'R
(R upper triangular: every positive-semidefinite S; positive diagonal: every positive-definite S).  The coefficient matrices
are arbitrary; one (or two, for the homogeneous form) of them is solved for from the two values."""
from . import c13, lib, mats

ASSUMPTIONS = ["symmetric coefficient matrices"]


def sym(c, n, name):
    M = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            M[i][j] = M[j][i] = c.real(f"{name}{i}{j}")
    return M


def lin(n, f):
    return [[f(i, j) for j in range(n)] for i in range(n)]


def gram(c, n, pd, name="r"):
    R = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            R[i][j] = c.real(f"{name}{i}{j}", pos=(pd and i == j)) if pd and i == j else c.real(f"{name}{i}{j}")
    return lin(n, lambda i, j: sum((R[p][i] * R[p][j] for p in range(min(i, j) + 1)), 0)), R




def classed(c, n, k):
    L = {}
    real = c.real

    def rec(name, **kw):
        r = real(name, **kw)
        L[name] = r
        return r
    c.real = rec
    try:
        A, d = mats.classed(c, n, k)
    finally:
        c.real = real
    if k == n:
        return A, d, None
    v = [0] * n
    v[k] = 1
    for i in range(k - 1, -1, -1):
        v[i] = -sum((L[f"al{p}{i}"] * v[p] for p in range(i + 1, k + 1)), 0)
    return A, d, v


def problem(c, which, n, m, k, p, pd):
    """(oracle inputs F, B), xc, y with matrix A (class k) at xc and S at y"""
    A, d, v = classed(c, n, k)
    S, R = gram(c, n, pd)
    F = [sym(c, n, f"f{q}_") for q in range(m)]
    if which != "LMI0Oracle":
        x = [c.real(f"x{q}") for q in range(m)]
        dl = [c.real(f"dl{q}") for q in range(m)]
        c.assume(c.ne(dl[p], 0))
        y = [a + b for a, b in zip(x, dl)]
        F[p] = lin(n, lambda i, j: (A[i][j] - S[i][j] - sum((F[q][i][j] * dl[q] for q in range(m) if q != p), 0)) / dl[p])
        B = lin(n, lambda i, j: A[i][j] + sum((F[q][i][j] * x[q] for q in range(m)), 0))
        return F, B, x, y, dl, R, v, d
    x = [c.real(f"x{q}") for q in range(m)]
    y = [c.real(f"y{q}") for q in range(m)]
    if m == 1:
        raise NotImplementedError
    q1, q2 = p, (p + 1) % m
    det = x[q1] * y[q2] - x[q2] * y[q1]
    c.assume(c.ne(det, 0))
    rest = [q for q in range(m) if q not in (q1, q2)]
    a = lin(n, lambda i, j: A[i][j] - sum((F[q][i][j] * x[q] for q in rest), 0))
    s = lin(n, lambda i, j: S[i][j] - sum((F[q][i][j] * y[q] for q in rest), 0))
    F[q1] = lin(n, lambda i, j: (a[i][j] * y[q2] - s[i][j] * x[q2]) / det)
    F[q2] = lin(n, lambda i, j: (s[i][j] * x[q1] - a[i][j] * y[q1]) / det)
    return F, None, x, y, [b - a_ for a_, b in zip(x, y)], R, v, d


MODS = {"LMIOracle": "lmi_oracle", "LMIOldOracle": "lmi_old_oracle", "LMI0Oracle": "lmi0_oracle"}


def oracle(c, which, F, B):
    cls = getattr(c.mod("ellalgo.oracles." + MODS[which]), which)
    return cls(F) if which == "LMI0Oracle" else cls(F, B)


def run(c, which, n, m, k, p=0, pd=False):
    F, B, x, y, dl, R, v, d = problem(c, which, n, m, k, p, pd)
    fa = [mats.mat(c, f) for f in F]
    ba = mats.mat(c, B) if B else None
    xa = c.arr(x)
    r = oracle(c, which, fa, ba).assess_feas(xa)
    c.prove(c.And(*[c.eq(fa[q][i, j], F[q][i][j]) for q in range(m) for i in range(n) for j in range(n)]), "the coefficient matrices are not modified")
    if B:
        c.prove(c.And(*[c.eq(ba[i, j], B[i][j]) for i in range(n) for j in range(n)]), "the constant matrix is not modified")
    c.prove(c.And(*[c.eq(xa[q], x[q]) for q in range(m)]), "the point is not modified")
    if k == n:
        c.prove(r is None, "a strictly feasible point is accepted")
        c.reach("accepted")
        return
    if r is None:
        c.fail("accepted although the matrix is not positive definite")
        return
    c.reach("cut")
    g, ep = r
    c.prove(len(g) == m, "one gradient entry per variable")
    c.prove(c.ge(ep, 0), "ep >= 0")
    c.prove(c.Implies(c.lt(d[k], 0), c.gt(ep, 0)), "a point violating the constraint strictly is cut off strictly")
    Rv = [sum((R[i][j] * v[j] for j in range(i, n)), 0) for i in range(n)]
    sq = sum((t * t for t in Rv), 0)
    if pd:                       # R is invertible and v is not zero
        c.axiom(c.gt(sq, 0))
    else:
        c.axiom(c.ge(sq, 0))
    val = sum((g[q] * dl[q] for q in range(m)), 0) + ep
    if pd:
        c.prove(c.lt(val, 0), "a strictly feasible point satisfies the cut strictly")
    else:
        c.prove(c.Or(c.eq(val, -sq), c.le(val, 0)), "a feasible point satisfies the cut")


def large(c, which, n, m, k):
    """many rows and variables: sparse coefficient matrices"""
    A, d, L = c13.sparse(c, n, k, factor=True)
    F = [lin(n, lambda i, j, q=q: c.num((q + 1) * ((i * j + q) % 5 - 2) if (i + j) % (q + 2) == 0 else 0)) for q in range(m)]
    x = [c.real(f"x{q}") if q in (0, 1, m - 1) else c.num(q % 3 - 1) for q in range(m)]
    y = [c.real(f"y{q}") if q in (0, 1, m - 1) else c.num(q % 4 - 2) for q in range(m)]
    if which == "LMI0Oracle":
        c.assume(c.ne(x[0], 0))
        F[0] = lin(n, lambda i, j: (A[i][j] - sum((F[q][i][j] * x[q] for q in range(1, m)), 0)) / x[0])
        B, sg = None, 1
    else:
        B, sg = lin(n, lambda i, j: A[i][j] + sum((F[q][i][j] * x[q] for q in range(m)), 0)), -1
    r = oracle(c, which, [mats.mat(c, f) for f in F], mats.mat(c, B) if B else None).assess_feas(c.arr(x))
    if k == n:
        c.prove(r is None, "a strictly feasible point is accepted")
        c.reach("accepted")
        return
    if r is None:
        c.fail("accepted although the matrix is not positive definite")
        return
    c.reach("cut")
    g, ep = r
    c.prove(len(g) == m, "one gradient entry per variable")
    c.prove(c.Implies(c.lt(d[k], 0), c.gt(ep, 0)), "a point violating the constraint strictly is cut off strictly")
    v = [0] * n
    v[k] = 1
    for i in range(k - 1, -1, -1):
        v[i] = -sum((L[p][i] * v[p] for p in range(i + 1, k + 1)), 0)
    nz = [i for i in range(n) if not (isinstance(v[i], int) and v[i] == 0)]
    S = {(i, j): A[i][j] + sg * sum((F[q][i][j] * (y[q] - x[q]) for q in range(m)), 0) for i in nz for j in nz}
    sq = sum((v[i] * S[i, j] * v[j] for i in nz for j in nz), 0)
    c.assume(c.ge(sq, 0))                    # necessary for feasibility of y
    val = sum((g[q] * (y[q] - x[q]) for q in range(m)), 0) + ep
    c.prove(c.Or(c.eq(val, -sq), c.le(val, 0)), "a feasible point satisfies the cut")


def origin(c, n, m):
    """the homogeneous form at x = 0"""
    F = [sym(c, n, f"f{q}_") for q in range(m)]
    r = oracle(c, "LMI0Oracle", [mats.mat(c, f) for f in F], None).assess_feas(c.arr([c.num(0)] * m))
    c.prove(r is not None, "the zero matrix is not accepted")
    c.reach("cut")
    c.prove(c.ge(r[1], 0), "ep >= 0")
    y = [c.real(f"y{q}") for q in range(m)]
    s00 = sum((F[q][0][0] * y[q] for q in range(m)), 0)
    c.prove(c.eq(r[1], 0), "ep = 0 at the apex of the cone")
    c.reach("apex")


def ray(c, n, k, pd):
    """the homogeneous form with one variable: y = s x, feasible"""
    A, d, v = classed(c, n, k)
    x, s = c.real("x"), c.real("s")
    c.assume(c.ne(x, 0))
    F = lin(n, lambda i, j: A[i][j] / x)
    r = oracle(c, "LMI0Oracle", [mats.mat(c, F)], None).assess_feas(c.arr([x]))
    if k == n:
        c.prove(r is None, "a strictly feasible point is accepted")
        c.reach("accepted")
        return
    if r is None:
        c.fail("accepted although the matrix is not positive definite")
        return
    g, ep = r
    c.reach("cut")
    # s A is positive semidefinite: then s d_k >= 0 (v'(sA)v), necessary
    c.assume(c.ge(s * d[k], 0))
    c.assume(c.And(*[c.ge(s * A[i][i], 0) for i in range(n)]))
    c.prove(c.ge(ep, 0), "ep >= 0")
    if k == 0:
        c.prove(c.le(g[0] * (s * x - x) + ep, 0), "a feasible point satisfies the cut")
    else:                        # a positive and a non-positive pivot: only s = 0 (or s > 0 if d_k = 0) is feasible
        c.prove(c.Implies(c.Or(c.eq(s, 0), c.And(c.eq(d[k], 0), c.gt(s, 0))), c.le(g[0] * (s * x - x) + ep, 0)), "a feasible point satisfies the cut")


HF = [[[1, 2], [2, -1]], [[0, 1], [1, 3]]]
HB = [[4, 1], [1, 5]]
HX = [[0, 0], [5, 0], [0, 3], [1, 1], [-9, 7]]
HF3 = [[[1, 2, 0], [2, -1, 1], [0, 1, 2]], [[0, 1, 1], [1, 3, 0], [1, 0, -1]]]
HB3 = [[4, 1, 0], [1, 5, 1], [0, 1, 6]]


def history(c, which, n, seq, inplace=False, other=False):
    """the answer does not depend on what was asked before"""
    FF, BB = (HF, HB) if n == 2 else (HF3, HB3)
    nm = lambda M: mats.mat(c, [[c.num(t) for t in r] for r in M])                    # noqa: E731
    F = [nm(f) for f in FF]
    B = nm(BB)
    o, fresh = oracle(c, which, F, B), oracle(c, which, F, B)
    xa = c.arr([c.num(0), c.num(0)])
    keep = lib.Keep(c)
    for s in seq:
        p = xa if inplace else c.arr([c.num(0), c.num(0)])
        p[0], p[1] = c.num(HX[s][0]), c.num(HX[s][1])
        r = o.assess_feas(p)
        if r is not None:
            keep.add(r[0])
    if other:                                # another oracle, larger, is used in between
        oracle(c, which, [nm(f) for f in HF3], nm(HB3)).assess_feas(c.arr([c.num(2), c.num(1)]))
        oracle(c, which, [nm(HB)] * 2, nm(HF[0])).assess_feas(c.arr([c.num(0), c.num(1)]))
    x = [c.real("x0"), c.real("x1")]
    xa[0], xa[1] = x                         # with inplace: the array asked about before, now with other contents
    r, w = o.assess_feas(xa), fresh.assess_feas(c.arr(x))
    keep.check()
    c.prove((r is None) == (w is None), "same verdict as a fresh oracle")
    if r is None or w is None:
        c.reach("accepted")
        return
    c.reach("cut")
    c.prove(c.And(c.eq(r[1], w[1]), c.eq(r[0][0], w[0][0]), c.eq(r[0][1], w[0][1])), "same cut as a fresh oracle")


TASKS = []
for which in MODS:
    for n, m in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2)):
        if which == "LMI0Oracle" and m == 1:
            continue
        for k in range(n + 1):
            for p in (range(m) if (k < n and n <= 3) else (0,)):
                for pd in ((False, True) if k < n else (False,)):
                    TASKS.append(dict(name=f"{which}_n{n}m{m}_class{k}_p{p}{'_strict' if pd else ''}", fn=run, params=dict(which=which, n=n, m=m, k=k, p=p, pd=pd),
                                      require=["accepted" if k == n else "cut"], bounds=f"every {m} symmetric {n}x{n} coefficient matrices, point with {k} positive leading pivots, every feasible point",
                                      tier="quick" if (n <= 2 or m == 2) and n <= 3 else "thorough", weight=n * m))
for n in (1, 2, 3):
    TASKS.append(dict(name=f"LMI0Oracle_origin_n{n}", fn=origin, params=dict(n=n, m=2), require=["cut"], bounds="x = 0"))
    for k in range(n + 1):
        TASKS.append(dict(name=f"LMI0Oracle_ray_n{n}_class{k}", fn=ray, params=dict(n=n, k=k, pd=False), require=["accepted" if k == n else "cut"], bounds="one variable"))
for which in MODS:
    for n in (2, 3):
        for i, seq in enumerate(((0,), (1,), (2,), (3, 1), (4, 0, 2), (2, 1, 0, 4))):
            TASKS.append(dict(name=f"{which}_history_n{n}_{i}", fn=history, params=dict(which=which, n=n, seq=seq), require=["cut"] + (["accepted"] if which != "LMI0Oracle" else []), bounds="fixed integer matrices, any point, earlier queries at fixed points",
                              tier="quick" if n == 2 or i > 2 else "thorough"))
        for i, seq in enumerate(((0,), (1,), (4, 2))):
            TASKS.append(dict(name=f"{which}_inplace_n{n}_{i}", fn=history, params=dict(which=which, n=n, seq=seq, inplace=True, other=i == 2), require=["cut"], bounds="fixed integer matrices, any point, the same array held other points before",
                              tier="quick" if n == 2 else "thorough"))
    for n, m in ((2, 9), (6, 3), (12, 4), (24, 6)):
        for k in sorted({n, n - 1, n // 2}):
            TASKS.append(dict(name=f"{which}_large_n{n}m{m}_class{k}", fn=large, params=dict(which=which, n=n, m=m, k=k), require=["accepted" if k == n else "cut"], bounds=f"{m} sparse {n}x{n} matrices, sparse factor, three coordinates of the point symbolic"))
task = lib.names(TASKS)
