"""C06 the stored ellipsoid stays a genuine ellipsoid (symmetric, positive definite) after every successful cut that leaves a
region with interior, and no_defer_trick only changes the representation."""
from . import lib

ASSUMPTIONS = ["positive definiteness is shown on the rank-one form P' = delta(P - sigma/T Pg Pg'): delta > 0 and delta(1-sigma) > 0",
               "update_bias_cut offsets >= 0"]


def pd(c, kind, n, op, pair, mode="any", defer=False):
    s = lib.state(c, kind, n, mode)
    if defer:
        s.sp.no_defer_trick = True
    b0 = c.real("b0", nonneg=op == "bias")
    if op != "central":
        c.assume(c.ne(b0, s.t))
    beta = b0
    if pair:
        b1 = c.real("b1")
        c.assume(c.lt(c.num(0) if op == "central" else b0, b1))
        beta = (b0, b1)
        if op == "q":
            c.assume(c.gt(b1, -s.t))
    if lib.update(s.sp, op)((s.gv, beta)) != lib.status(c).Success:
        c.reach("rejected")
        return
    c.reach("success")
    rho, delta, rest = lib.post_params(c, s)
    lib.form_claims(c, s, rho, delta, rest)
    c.prove(c.gt(delta, 0), "positive definite across the cut")
    c.prove(c.gt(rest, 0), "positive definite along the cut")
    P = lib.attr_P(c, s.sp, n)
    if P is not None and not s.api_only:
        c.prove(c.And(*[c.eq(P[i][j], P[j][i]) for i in range(n) for j in range(i)]), "shape matrix is symmetric")
        c.prove(c.gt(s.sp._kappa, 0), "scale factor is positive")


def algebra(c, kind, n, op, mode="any"):
    """no_defer_trick on/off agree, for arbitrary calculator output"""
    a = lib.state(c, kind, n, mode)
    b = lib.state(c, kind, n, mode)
    b.sp.no_defer_trick = True
    if not c.symbolic:
        for o, bt, _ in lib.sample_cuts(a.t):
            x, y = lib.fresh_copy(c, a), lib.fresh_copy(c, b)
            y.sp.no_defer_trick = True
            for k in range(2):
                sx, sy = lib.update(x.sp, o)((x.gv.copy(), bt)), lib.update(y.sp, o)((y.gv.copy(), bt))
                c.prove(sx == sy, "same status")
                compare(c, x.sp, y.sp, n)
                bt = 0.0
                o = "central"
        return
    for k in range(2):
        rho, sigma, delta = c.real(f"rho{k}"), c.real(f"sigma{k}"), c.real(f"delta{k}", pos=True)
        c.assume(c.And(c.gt(sigma, 0), c.lt(sigma, 1)))
        ts = []
        for s in (a, b):
            s.sp.helper = lib.StubCalc((lib.status(c).Success, (rho, sigma, delta)))
            lib.update(s.sp, op)((s.gv, c.real("b0")))
            if len(s.sp.helper.calls) != 1:
                raise c.unsupported("the calculator is not consulted through the expected methods")
            ts.append(s.sp.helper.calls[0][2])
        c.prove(c.eq(ts[0], ts[1]), f"same tsq for the calculator in step {k}")
        compare(c, a.sp, b.sp, n)
    c.reach("two steps")


def compare(c, x, y, n):
    c.prove(c.And(*[c.eq(x.xc()[i], y.xc()[i]) for i in range(n)]), "same centre with and without the deferral")
    c.prove(c.eq(x.tsq(), y.tsq()), "same tsq with and without the deferral")
    P, Q = lib.observe_P(c, x, n), lib.observe_P(c, y, n)
    for i in range(n):
        for j in range(i + 1):
            c.prove(c.eq(P[i][j], Q[i][j]), f"same shape with and without the deferral [{i}{j}]")


TASKS = []
for kind in ("Ell", "EllStable"):
    for op in ("bias", "central", "q"):
        for n in (2, 3):
            TASKS.append(dict(name=f"pd_{kind}_{op}_n{n}", fn=pd, params=dict(kind=kind, n=n, op=op, pair=0), require=["success"], bounds=f"n={n}; all reals otherwise"))
        TASKS.append(dict(name=f"pd_{kind}_{op}_n3_long130", fn=pd, params=dict(kind=kind, n=3, op=op, pair=0, mode="long130"), require=["success"], bounds="n=3; after 130 concrete cuts"))
        TASKS.append(dict(name=f"pd_{kind}_{op}_n20_spot", fn=pd, params=dict(kind=kind, n=20, op=op, pair=0, mode="spot2"), require=["success"], bounds="n=20; one fixed shape"))
        for n, k in ((3, 70), (2, 24), (4, 30)):
            TASKS.append(dict(name=f"{kind}_{op}_n{n}_dense{k}", fn=pd, params=dict(kind=kind, n=n, op=op, pair=0, mode=f"dense{k}"), require=["success"],
                              bounds=f"n={n}; after {k} concrete cuts in general position with rejected cuts in between; final cut along one such direction, any length and offset"))
        TASKS.append(dict(name=f"pd_{kind}_{op}_n2_long", fn=pd, params=dict(kind=kind, n=2, op=op, pair=0, mode="long24"), require=["success"], bounds="n=2; after 24 concrete cuts"))
        TASKS.append(dict(name=f"pd_{kind}_{op}_n2_nodefer", fn=pd, params=dict(kind=kind, n=2, op=op, pair=0, defer=True), require=["success"], bounds="n=2; no_defer_trick on"))
        if kind == "Ell":
            TASKS.append(dict(name=f"pd_slab_{kind}_{op}_n2", fn=pd, params=dict(kind=kind, n=2, op=op, pair=1), require=["success"], bounds="n=2; all reals otherwise"))
        TASKS.append(dict(name=f"defer_{kind}_{op}_n2", fn=algebra, params=dict(kind=kind, n=2, op=op), require=["two steps"], bounds="n=2; two consecutive cuts, arbitrary calculator output"))
    TASKS.append(dict(name=f"defer_{kind}_bias_n4_spot", fn=algebra, params=dict(kind=kind, n=4, op="bias", mode="spot2"), require=["two steps"], bounds="n=4 fixed shape; two consecutive cuts along one direction, arbitrary calculator output"))
task = lib.names(TASKS)
