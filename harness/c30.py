"""C30 the choice of coordinates does not matter: the same cut in other units (gradient and offset multiplied by a positive number), of an
ellipsoid of another size, moved elsewhere, with its axes scaled, reflected or reordered, has the same effect in the new coordinates."""
from . import lib

ASSUMPTIONS = ["update_bias_cut offsets >= 0"]

HOW = ("units", "size", "shift", "axes", "order")


def factors(c, n, P):
    """unit lower L and d > 0 with P = L^-T diag(d) L^-1 (n = 2)"""
    d1 = P[1][1]
    k = P[1][0] / d1
    one, nil = c.num(1), c.num(0)
    return [[one, nil], [-k, one]], [P[0][0] - P[1][0] * P[1][0] / d1, d1]


def image(c, s, how):
    """the same state and gradient in other coordinates x -> T x + w: (state, T as permutation and factors, w, units of the cut)"""
    n = s.n
    perm, a, w, lam = list(range(n)), [c.num(1)] * n, [c.num(0)] * n, c.num(1)
    if how == "units":
        lam = c.real("lam", pos=True)
    elif how == "size":
        a = [c.real("a", pos=True)] * n
    elif how == "shift":
        w = [c.real(f"w{i}") for i in range(n)]
    elif how == "axes":
        a = [c.real(f"a{i}", pos=True) if i % 2 == 0 else -c.real(f"a{i}", pos=True) for i in range(n)]
    elif how == "order":
        perm = perm[::-1]
    r = lib.Pre()
    r.n, r.kind, r.api_only, r.rebuild = n, s.kind, s.api_only, s.rebuild
    r.P = [[a[i] * a[j] * s.P[perm[i]][perm[j]] for j in range(n)] for i in range(n)]
    r.g = [lam * s.g[perm[i]] / a[i] for i in range(n)]
    r.xc = [a[i] * s.xc[perm[i]] + w[i] for i in range(n)]
    r.T = s.T * lam * lam
    if not s.api_only:
        # P = kappa M; the factors of M in the new coordinates
        r.kappa = s.kappa
        r.M = [[a[i] * a[j] * s.M[perm[i]][perm[j]] for j in range(n)] for i in range(n)]
        if how == "order":
            r.L, r.d = factors(c, n, r.M) if n == 2 else (None, None)
        else:
            r.L = [[s.L[i][j] * a[j] / a[i] for j in range(n)] for i in range(n)]
            r.d = [a[i] * a[i] * s.d[i] for i in range(n)]
    r.sp = lib.build(c, r)
    return r, perm, a, w, lam


def times(c, lam, b):
    return tuple(lam * x for x in b) if isinstance(b, tuple) else lam * b


def compare(c, n, s, r, perm, a, w, lam, tag):
    x, y = lib.lst(s.xc()), lib.lst(r.xc())
    for i in range(n):
        c.prove(c.eq(y[i], a[i] * x[perm[i]] + w[i]), f"{tag}: the centre is the same point [{i}]")
    c.prove(c.eq(r.tsq(), lam * lam * s.tsq()), f"{tag}: the stopping measure is the same in the units of the cut")
    P, Q = lib.observe_P(c, s, n), lib.observe_P(c, r, n)
    for i in range(n):
        for j in range(i + 1):
            c.prove(c.eq(Q[i][j], a[i] * a[j] * P[perm[i]][perm[j]]), f"{tag}: the shape is the same [{i}{j}]")


def step(c, kind, n, op, pair, how, mode="any", before=False):
    s = lib.pre_state(c, kind, n) if mode == "any" else lib.state(c, kind, n, mode)
    r, perm, a, w, lam = image(c, s, how)
    if before:
        # an earlier cut along the same direction, in the same coordinates
        for q, u in ((s, c.num(1)), (r, lam)):
            q.sp.update_central_cut((c.arr([u * x if u is not lam else x for x in q.g]), c.num(0)))
    b0 = c.real("b0", nonneg=op == "bias")
    b = (b0, c.real("b1")) if pair else b0
    t = s.t * c.const(f"{n}/{n + 1}") if before else s.t
    if op != "central":
        c.assume(c.ne(b0, t))
    if pair:
        c.assume(c.ne(b0, b[1]))
    st = lib.update(s.sp, op)((c.arr(s.g), b))
    su = lib.update(r.sp, op)((c.arr(r.g), times(c, lam, b)))
    c.reach(st.name)
    c.prove(st.name == su.name, "same status")
    compare(c, n, s.sp, r.sp, perm, a, w, lam, "after the cut")


def calc(c, op, pair):
    """the calculator depends only on the offsets relative to the half-width; the step is in the units of the cut"""
    n = c.integer("n", 2)
    t, lam = c.real("t", pos=True), c.real("lam", pos=True)
    b0 = c.real("b0", nonneg=op == "bias")
    b = (b0, c.real("b1")) if pair else b0
    out = []
    for u in (c.num(1), lam):
        k = lib.calculator(c, n)
        f = {"bias": k.calc_single_or_parallel, "central": k.calc_single_or_parallel_central_cut, "q": k.calc_single_or_parallel_q}[op]
        out.append(f(times(c, u, b), t * t * u * u))
    (s1, r1), (s2, r2) = out
    c.reach(s1.name)
    c.prove(s1 == s2, "same status")
    if s1 != lib.status(c).Success or s1 != s2:
        return
    c.prove(c.eq(r2[0], lam * r1[0]), "the step is the same in the units of the cut")
    c.prove(c.And(c.eq(r2[1], r1[1]), c.eq(r2[2], r1[2])), "the change of shape is the same")


TASKS = []


def add(name, fn, bounds, **params):
    TASKS.append(dict(name=name, fn=fn, params=params, require=["Success"], bounds=bounds))


EVERY = "every ellipsoid, gradient, offset and change of coordinates"
for op in ("bias", "central", "q"):
    for pair in (False, True):
        p = "pair" if pair else "single"
        add(f"calc_{op}_{p}", calc, "every n >= 2, half-width, offsets and unit", op=op, pair=pair)
        for kind in ("Ell", "EllStable"):
            same = dict(kind=kind, op=op, pair=pair)
            hard = pair and kind == "EllStable"
            for how in HOW:
                add(f"{how}_{op}_{p}_{kind}_n2", step, f"n=2, {EVERY}", n=2, how=how, **same)
                if how == "axes" or how == "units" and not (hard and op == "q") or how == "order" and not hard:
                    add(f"{how}_{op}_{p}_{kind}_n2_before", step, f"n=2, {EVERY}; one central cut before", n=2, how=how, before=True, **same)
                if hard or how == "order" and kind == "EllStable":
                    continue
                if not (pair and how == "units"):
                    add(f"{how}_{op}_{p}_{kind}_n3", step, f"n=3, {EVERY}", n=3, how=how, **same)
                for n in (5,) if pair else (5, 12):
                    add(f"{how}_{op}_{p}_{kind}_n{n}", step, f"n={n}, a fixed shape of any size, gradient with two or three symbolic entries, every offset and change of coordinates", n=n, how=how, mode="spot", **same)
            if not (hard and op == "q"):
                for n, K in ((2, 24), (3, 12)):
                    add(f"units_{op}_{p}_{kind}_n{n}_dense{K}", step, f"n={n}, after {K} cuts in general position; any length, offset and unit", n=n, how="units", mode=f"dense{K}", **same)
task = lib.names(TASKS)
