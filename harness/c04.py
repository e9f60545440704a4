"""C04 truthful status: NoSoln exactly when the retained region is empty, NoEffect exactly when the cut cannot shrink the
ellipsoid, Success otherwise; a rejected cut leaves centre and shape untouched; the cut itself is never modified."""
from . import lib

ASSUMPTIONS = ["tau > 0 except for the tasks point and flat", "update_bias_cut offsets are >= 0 (documented precondition)"]


def expected(c, n, t, T, op, b0, b1):
    """the status the geometry dictates: 'Success' | 'NoSoln' | 'NoEffect'"""
    if b1 is not None and op != "central" and c.is_true(c.lt(b1, b0)):
        return "NoSoln"                                   # empty slab
    if op == "central":
        return "NoSoln" if b1 is not None and c.is_true(c.lt(b1, 0)) else "Success"
    if b1 is None or c.is_true(c.ge(b1, t)):              # far side outside the ellipsoid: one-sided cut
        if c.is_true(c.gt(b0, t)):
            return "NoSoln"
        return "NoEffect" if op == "q" and c.is_true(c.le(t + n * b0, 0)) else "Success"
    if c.is_true(c.lt(b1, -t)):
        return "NoSoln"                                   # slab beyond the ellipsoid
    return "NoEffect" if op == "q" and c.is_true(c.le(T + n * b0 * b1, 0)) else "Success"


def ell(c, kind, n, op, pair, mode="any", form="tuple"):
    s = lib.state(c, kind, n, mode)
    b0 = c.real("b0", nonneg=op == "bias")
    b1 = c.real("b1") if pair else None
    beta = lib.beta_form(c, form, b0, b1) if pair else b0
    want = expected(c, n, s.t, s.T, op, b0, b1)
    st = lib.update(s.sp, op)((s.gv, beta))
    c.reach(want)
    c.prove(st.name == want, f"status is {want}")
    if st.name != "Success":
        lib.unchanged(c, s, "rejected cut")
    c.prove(c.And(*[c.eq(s.gv[i], s.g[i]) for i in range(n)]), "gradient of the cut is not modified")
    if pair:
        c.prove(c.And(c.eq(beta[0], b0), c.eq(beta[1], b1)), "offsets of the cut are not modified")


def calc(c, op, pair):
    n = c.integer("n", 2)
    t = c.real("t", pos=True)
    b0 = c.real("b0", nonneg=op == "bias")
    b1 = c.real("b1") if pair else None
    want = expected(c, n, t, t * t, op, b0, b1)
    k = lib.calculator(c, n)
    f = {"bias": k.calc_single_or_parallel, "central": k.calc_single_or_parallel_central_cut, "q": k.calc_single_or_parallel_q}[op]
    st, res = f((b0, b1) if pair else b0, t * t)
    c.reach(want)
    c.prove(st.name == want, f"status is {want}")
    c.prove((res is not None) == (want == "Success"), "parameters are returned exactly on Success")


def zero_gradient(c, kind, n):
    s = lib.pre_state(c, kind, n)
    op = ("bias", "central", "q")[c.choice("op", 3)]
    try:
        lib.update(s.sp, op)((c.arr([0] * n), c.real("b0", nonneg=True)))
        c.fail("a zero gradient is rejected with ValueError")
    except ValueError:
        c.reach("refused")
    lib.unchanged(c, s, "zero gradient")


def flat(c, kind, n, op, how, pair):
    """no width left along the gradient: a cut either leaves everything in place or is refused as NoSoln"""
    sp, xc, w = lib.flat_state(c, kind, n, how)
    g = [c.real(f"g{i}") for i in range(n)] if how == "point" else [c.real("g0")] + [c.num(0)] * (n - 1)
    c.assume(c.Or(*[c.ne(x, 0) for x in g]))
    b0 = c.real("b0", nonneg=op == "bias")
    b1 = c.real("b1") if pair else None
    st = lib.update(sp, op)((c.arr(g), (b0, b1) if pair else b0))
    lo = c.num(0) if op == "central" else b0
    empty = c.gt(lo, 0) if b1 is None else c.Or(c.gt(lo, 0), c.lt(b1, 0), c.lt(b1, lo))
    c.reach("refused" if c.is_true(empty) else "kept")
    c.prove((st.name == "NoSoln") == c.is_true(empty), "NoSoln exactly if nothing is left")
    c.prove(st.name in (("NoSoln", "Success", "NoEffect") if op == "q" else ("NoSoln", "Success")), "otherwise the cut succeeds (offset form: or has no effect)")
    c.prove(c.eq(sp.tsq(), 0), "the stopping measure is zero")
    c.prove(c.And(*[c.eq(a, b) for a, b in zip(lib.lst(sp.xc()), xc)]), "the centre stays")
    P = lib.observe_P(c, sp, n)
    c.prove(c.And(*[c.eq(P[i][j], w[i] if i == j else 0) for i in range(n) for j in range(i + 1)]), "the shape stays")


TASKS = []
REQ = {("bias", 0): ["Success", "NoSoln"], ("bias", 1): ["Success", "NoSoln"], ("central", 0): ["Success"], ("central", 1): ["Success", "NoSoln"],
       ("q", 0): ["Success", "NoSoln", "NoEffect"], ("q", 1): ["Success", "NoSoln", "NoEffect"]}
for kind in ("Ell", "EllStable"):
    for op in ("bias", "central", "q"):
        for pair in (0, 1):
            for n in (2, 3):
                TASKS.append(dict(name=f"{kind}_{op}{'_slab' if pair else ''}_n{n}", fn=ell, params=dict(kind=kind, n=n, op=op, pair=pair),
                                  require=REQ[op, pair], bounds=f"n={n}; all reals otherwise"))
            TASKS.append(dict(name=f"{kind}_{op}{'_slab' if pair else ''}_n2_long", fn=ell, params=dict(kind=kind, n=2, op=op, pair=pair, mode="long24"),
                              require=REQ[op, pair], bounds="n=2; after 24 concrete cuts; axis-aligned final cut"))
        for pair in (0, 1):
            for n in (5,) if pair and kind == "EllStable" else (5, 20):
                TASKS.append(dict(name=f"{kind}_{op}{'_slab' if pair else ''}_n{n}_spot", fn=ell, params=dict(kind=kind, n=n, op=op, pair=pair, mode="spot2"),
                                  require=REQ[op, pair], bounds=f"n={n}; one fixed shape, gradient symbolic in 2 coordinates"))
            TASKS.append(dict(name=f"{kind}_{op}{'_slab' if pair else ''}_n3_long130", fn=ell, params=dict(kind=kind, n=3, op=op, pair=pair, mode="long130"),
                              require=REQ[op, pair], bounds="n=3; after 130 concrete cuts; axis-aligned final cut"))
        for n, k in ((3, 70), (2, 24)):
            TASKS.append(dict(name=f"{kind}_{op}_n{n}_dense{k}", fn=ell, params=dict(kind=kind, n=n, op=op, pair=0, mode=f"dense{k}"), require=REQ[op, 0],
                              bounds=f"n={n}; after {k} concrete cuts in general position with rejected cuts in between; final cut along one such direction, any length and offset"))
        TASKS.append(dict(name=f"{kind}_{op}_slab_n2_list", fn=ell, params=dict(kind=kind, n=2, op=op, pair=1, form="list"),
                          require=REQ[op, 1], bounds="n=2; offsets as list"))
    for how in ("point", "flat"):
        for op in ("bias", "central", "q"):
            for pair in (0, 1):
                for n in (2, 3):
                    TASKS.append(dict(name=f"{kind}_{op}{'_slab' if pair else ''}_n{n}_{how}", fn=flat, params=dict(kind=kind, n=n, op=op, how=how, pair=pair), require=["kept"] if op == "central" and not pair else ["kept", "refused"],
                                      bounds=f"n={n}; any axis-aligned ellipsoid that an earlier cut has left {'a point of' if how == 'point' else 'flat'}; {'any gradient' if how == 'point' else 'gradient along the flat axis'}, any offset"))
    TASKS.append(dict(name=f"{kind}_zero_gradient", fn=zero_gradient, params=dict(kind=kind, n=2), require=["refused"], bounds="n=2; any state"))
for op in ("bias", "central", "q"):
    for pair in (0, 1):
        TASKS.append(dict(name=f"calc_{op}{'_slab' if pair else ''}_anyn", fn=calc, params=dict(op=op, pair=pair), require=REQ[op, pair],
                          bounds="every n >= 2, every tau > 0"))
task = lib.names(TASKS)
