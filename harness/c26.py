"""C26 tsq() after an update is the squared half-width of the pre-update ellipsoid along the gradient (the stopping measure)."""
from . import lib

ASSUMPTIONS = []


def tsq(c, kind, n, op, pair, mode="any"):
    s = lib.state(c, kind, n, mode)
    b0 = c.real("b0", nonneg=op == "bias")
    beta = (b0, c.real("b1")) if pair else b0
    st = lib.update(s.sp, op)((s.gv, beta))
    c.reach(st.name)
    c.prove(c.eq(s.sp.tsq(), s.T), f"tsq = g'Pg of the ellipsoid before the cut ({st.name})")
    # every point of that ellipsoid satisfies (g'(x-xc))^2 <= tsq: with u = P^-1/2 (x-xc) this is Cauchy-Schwarz
    before = s.sp.tsq()
    s.sp.xc()
    c.prove(c.eq(s.sp.tsq(), before), "reading the state does not change tsq")


def fresh(c, kind, n):
    sp = lib.module_cls(c, kind)(c.real("r", pos=True), c.arr([c.real(f"x{i}") for i in range(n)]))
    c.reach("fresh")
    c.prove(c.eq(sp.tsq(), 0), "tsq is 0 before the first cut")


def flat(c, kind, n, op, how):
    sp, xc, w = lib.flat_state(c, kind, n, how)
    g = [c.real(f"g{i}") for i in range(n)]
    c.assume(c.Or(*[c.ne(x, 0) for x in g]))
    st = lib.update(sp, op)((c.arr(g), c.real("b0", nonneg=op == "bias")))
    c.reach(st.name)
    c.prove(c.eq(sp.tsq(), sum((g[i] * g[i] * w[i] for i in range(n)), c.num(0))), f"tsq = g'Pg of the flat ellipsoid before the cut ({st.name})")


TASKS = []
for kind in ("Ell", "EllStable"):
    for op in ("bias", "central", "q"):
        for pair in (0, 1):
            for n in (2, 3):
                TASKS.append(dict(name=f"{kind}_{op}{'_slab' if pair else ''}_n{n}", fn=tsq, params=dict(kind=kind, n=n, op=op, pair=pair),
                                  require=["Success"], bounds=f"n={n}; all reals otherwise"))
        for how in ("point", "flat"):
            TASKS.append(dict(name=f"{kind}_{op}_n2_{how}", fn=flat, params=dict(kind=kind, n=2, op=op, how=how), require=["Success"] if op != "q" or how == "flat" else ["NoEffect"],
                              bounds=f"n=2; any axis-aligned ellipse that an earlier cut has left {'a point of' if how == 'point' else 'flat'}, any gradient and offset"))
        for n in (5, 12, 20, 48):
            TASKS.append(dict(name=f"{kind}_{op}_n{n}_spot", fn=tsq, params=dict(kind=kind, n=n, op=op, pair=0, mode="spot2"), require=["Success"], bounds=f"n={n}; fixed shape"))
        TASKS.append(dict(name=f"{kind}_{op}_n3_long130", fn=tsq, params=dict(kind=kind, n=3, op=op, pair=1, mode="long130"), require=["Success"], bounds="n=3; after 130 concrete cuts"))
        for n, k in ((3, 70), (4, 30)):
            TASKS.append(dict(name=f"{kind}_{op}_n{n}_dense{k}", fn=tsq, params=dict(kind=kind, n=n, op=op, pair=1, mode=f"dense{k}"), require=["Success"],
                              bounds=f"n={n}; after {k} concrete cuts in general position with rejected cuts in between; final cut along one such direction, any length and offset"))
        TASKS.append(dict(name=f"{kind}_{op}_n2_long", fn=tsq, params=dict(kind=kind, n=2, op=op, pair=1, mode="long24"), require=["Success"], bounds="n=2; after 24 concrete cuts"))
        TASKS.append(dict(name=f"{kind}_{op}_n2_repeat", fn=tsq, params=dict(kind=kind, n=2, op=op, pair=0, mode="repeat"), require=["Success"], bounds="n=2; second cut along the same direction"))
    TASKS.append(dict(name=f"{kind}_fresh", fn=fresh, params=dict(kind=kind, n=2), require=["fresh"], bounds="n=2"))
task = lib.names(TASKS)
