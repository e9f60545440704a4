"""C05 Ell and EllStable are interchangeable: from the same ellipsoid the same cut gives the same status, centre, shape and tsq."""
from . import lib

ASSUMPTIONS = ["update_bias_cut offsets >= 0"]


def same(c, a, b, n, tag):
    xa, xb = lib.lst(a.xc()), lib.lst(b.xc())
    for i in range(n):
        c.prove(c.eq(xa[i], xb[i]), f"{tag}: same centre [{i}]")
    ta, tb = a.tsq(), b.tsq()
    c.prove(c.eq(ta, tb), f"{tag}: same tsq")
    Pa, Pb = lib.observe_P(c, a, n), lib.observe_P(c, b, n)
    for i in range(n):
        for j in range(i + 1):
            c.prove(c.eq(Pa[i][j], Pb[i][j]), f"{tag}: same shape [{i}{j}]")


def step(c, n, op, pair, mode="any", regime="open", defer=False):
    a = lib.state(c, "Ell", n, mode, both=True)
    b = lib.state(c, "EllStable", n, mode, both=True)
    if defer:
        a.sp.no_defer_trick = b.sp.no_defer_trick = True
    if regime == "tangent":
        b0 = a.t
    else:
        b0 = c.real("b0", nonneg=op == "bias")
        if not pair and op != "central":
            c.assume(c.ne(b0, a.t))
    beta = (b0, c.real("b1")) if pair else b0
    if pair:
        c.assume(c.And(c.ne(b0, beta[1]), c.ne(b0, a.t)))
    sa = lib.update(a.sp, op)((a.gv, beta))
    sb = lib.update(b.sp, op)((b.gv, beta))
    c.reach(sa.name)
    c.prove(sa.name == sb.name, "same status")
    same(c, a.sp, b.sp, n, "after the cut")


def algebra(c, n, op, mode="any"):
    """the same, for arbitrary calculator output"""
    a = lib.state(c, "Ell", n, mode, both=True)
    b = lib.state(c, "EllStable", n, mode, both=True)
    beta = c.real("b0")
    if not c.symbolic:
        for o, bt, _ in lib.sample_cuts(a.t):
            x, y = lib.fresh_copy(c, a), lib.fresh_copy(c, b)
            sx, sy = lib.update(x.sp, o)((x.gv.copy(), bt)), lib.update(y.sp, o)((y.gv.copy(), bt))
            c.prove(sx.name == sy.name, "same status")
            same(c, x.sp, y.sp, n, f"after {o} {bt}")
        return
    rho, sigma, delta = c.real("rho"), c.real("sigma"), c.real("delta", pos=True)
    c.assume(c.And(c.gt(sigma, 0), c.lt(sigma, 1)))
    calls = []
    for s in (a, b):
        s.sp.helper = lib.StubCalc((lib.status(c).Success, (rho, sigma, delta)))
        lib.update(s.sp, op)((s.gv, beta))
        if len(s.sp.helper.calls) != 1:
            raise c.unsupported("the calculator is not consulted through the expected methods")
        calls.append(s.sp.helper.calls[0])
    c.reach("Success")
    c.prove(calls[0][0] == calls[1][0], "same kind of cut")
    c.prove(c.And(c.eq(calls[0][1], calls[1][1]), c.eq(calls[0][2], calls[1][2])), "same question to the calculator")
    same(c, a.sp, b.sp, n, "after the cut")


def construct(c, n, how):
    """the constructors: a scalar is the squared radius, a vector the squared semi-axes"""
    x = [c.real(f"x{i}") for i in range(n)]
    if how == "vector":
        d = [c.real(f"d{i}", pos=True) for i in range(n)]
        arg = [c.arr(d), c.arr(d)]
    elif how == "list":
        d = [c.real(f"d{i}", pos=True) for i in range(n)]
        arg = [list(d), list(d)]
    elif how in ("intarray", "intlist"):
        d = [c.integer(f"d{i}", 1, 50) for i in range(n)]
        arg = [c.iarr(d), c.iarr(d)] if how == "intarray" else [list(d), list(d)]
    elif how == "int":
        d = [c.num(3)] * n
        arg = [3, 3]
    else:
        r = c.real("r", pos=True)
        d = [r] * n
        arg = [r, r]
    if how == "intcentre":
        x = [c.integer(f"z{i}", -20, 20) for i in range(n)]
    mk = c.iarr if how == "intcentre" else c.arr
    if how == "shared":                 # both are built from the very same arrays
        d = [c.real(f"e{i}", pos=True) for i in range(n)]
        arg = [c.arr(d)] * 2
        xs = c.arr(x)
        mk = lambda _: xs                                                                  # noqa: E731
    sps = [lib.module_cls(c, k)(v, mk(x)) for k, v in zip(("Ell", "EllStable"), arg)]
    c.reach("built")
    for sp in sps:
        k = type(sp).__name__
        c.prove(c.And(*[c.eq(sp.xc()[i], x[i]) for i in range(n)]), f"{k}: centre as given")
        P = lib.probe_P(c, sp, n)
        for i in range(n):
            for j in range(i + 1):
                c.prove(c.eq(P[i][j], d[i] if i == j else 0), f"{k}: shape as given [{i}{j}]")
    for sp in sps:
        k = type(sp).__name__
        try:
            st = sp.update_central_cut((c.arr(lib.basis(n, 0)), c.num(0)))
        except TypeError:
            c.fail(f"{k}: a first cut works")
            continue
        c.prove(st == lib.status(c).Success, f"{k}: a first cut succeeds")
        x1, P = lib.lst(sp.xc()), lib.probe_P(c, sp, n)
        c.prove(c.eq((x[0] - x1[0]) * (x[0] - x1[0]) * (n + 1) ** 2, d[0]), f"{k}: centre moves by tau/(n+1)")
        c.prove(c.And(*[c.eq(x1[i], x[i]) for i in range(1, n)]), f"{k}: and only along the gradient")
        dl = c.const(f"{n * n}/{n * n - 1}")
        for i in range(n):
            for j in range(i + 1):
                c.prove(c.eq(P[i][j], (dl * d[i] * (c.const(f"{n - 1}/{n + 1}") if i == 0 else 1)) if i == j else 0), f"{k}: shape after a first cut [{i}{j}]")
    if how == "shared":
        c.prove(c.And(*[c.eq(xs[i], x[i]) for i in range(n)], *[c.eq(arg[0][i], d[i]) for i in range(n)]), "the arrays the spaces were built from are not modified")
    y = [c.real(f"y{i}") for i in range(n)]
    ya = c.arr(y)
    for sp in sps:
        sp.set_xc(ya if how == "shared" else c.arr(y))
        c.prove(c.And(*[c.eq(sp.xc()[i], y[i]) for i in range(n)]), f"{type(sp).__name__}: set_xc moves the centre")
    if how == "shared":
        for sp in sps:
            c.prove(sp.update_central_cut((c.arr(lib.basis(n, 1)), c.num(0))) == lib.status(c).Success, "a further cut succeeds")
            c.prove(c.And(*[c.eq(ya[i], y[i]) for i in range(n)]), "the array given to set_xc is not modified")


TASKS = []
for op in ("bias", "central", "q"):
    for n in (2, 3):
        TASKS.append(dict(name=f"single_{op}_n{n}", fn=step, params=dict(n=n, op=op, pair=0), require=["Success"], bounds=f"n={n}; all reals otherwise"))
        TASKS.append(dict(name=f"algebra_{op}_n{n}", fn=algebra, params=dict(n=n, op=op), require=["Success"], bounds=f"n={n}; arbitrary calculator output"))
    for n in (5, 12, 20):
        TASKS.append(dict(name=f"algebra_{op}_n{n}_spot", fn=algebra, params=dict(n=n, op=op, mode="spot2"), require=["Success"], bounds=f"n={n}, fixed shape; arbitrary calculator output"))
        TASKS.append(dict(name=f"single_{op}_n{n}_spot", fn=step, params=dict(n=n, op=op, pair=0, mode="spot2"), require=["Success"], bounds=f"n={n}, fixed shape"))
    if op != "central":
        TASKS.append(dict(name=f"tangent_{op}_n2", fn=step, params=dict(n=2, op=op, pair=0, regime="tangent"), require=["Success"], bounds="n=2; tangent cut"))
    TASKS.append(dict(name=f"single_{op}_n3_long130", fn=step, params=dict(n=3, op=op, pair=0, mode="long130"), require=["Success"], bounds="n=3; after 130 concrete cuts"))
    for n, k in ((3, 70), (2, 24), (4, 30)):
        TASKS.append(dict(name=f"{op}_n{n}_dense{k}", fn=step, params=dict(n=n, op=op, pair=0, mode=f"dense{k}"), require=["Success"],
                              bounds=f"n={n}; after {k} concrete cuts in general position with rejected cuts in between; final cut along one such direction, any length and offset"))
    TASKS.append(dict(name=f"slab_{op}_n2_long", fn=step, params=dict(n=2, op=op, pair=1, mode="long24"), require=["Success"], bounds="n=2; after 24 concrete cuts"))
    TASKS.append(dict(name=f"single_{op}_n2_repeat", fn=step, params=dict(n=2, op=op, pair=0, mode="repeat"), require=["Success"], bounds="n=2; second cut along the same direction"))
    TASKS.append(dict(name=f"single_{op}_n2_nodefer", fn=step, params=dict(n=2, op=op, pair=0, defer=True), require=["Success"], bounds="n=2; no_defer_trick on"))
    TASKS.append(dict(name=f"slab_{op}_n2", fn=step, params=dict(n=2, op=op, pair=1), require=["Success"], bounds="n=2; all reals otherwise"))
    for n in (2, 3):
        TASKS.append(dict(name=f"single_{op}_n{n}_int", fn=step, params=dict(n=n, op=op, pair=0, mode="int"), require=["Success"], bounds=f"n={n}, fixed shape; gradient an array of integers"))
for how in ("scalar", "int", "vector", "list", "intarray", "intlist", "intcentre", "shared"):
    TASKS.append(dict(name=f"construct_{how}", fn=construct, params=dict(n=3, how=how), require=["built"], bounds="n=3; any value, any centre"))
task = lib.names(TASKS)
