"""C01 containment, single cuts: an update that reports Success never discards a point of the old ellipsoid that satisfies the cut."""
from . import lib

ASSUMPTIONS = [
    "pre-state: any positive-definite shape (L, d parametrisation), any kappa > 0, any centre, any non-zero gradient",
    "containment is reduced to the cut direction: rank-one form is established first as an identity, then the scalar containment inequality",
]


def single(c, kind, n, op, regime="open", mode="any", form="scalar"):
    s = lib.state(c, kind, n, mode)
    St = lib.status(c)
    if op == "central":
        b = c.num(0)
        st = s.sp.update_central_cut((s.gv, lib.single_form(c, s, form, c.real("b"))))
    else:
        if regime == "tangent":
            b = s.t
        else:
            b = c.real("b", nonneg=op == "bias")
            c.assume(c.ne(b, s.t))
        st = (s.sp.update_bias_cut if op == "bias" else s.sp.update_q)((s.gv, lib.single_form(c, s, form, b)))
    if st != St.Success:
        c.reach("rejected")
        return
    c.reach("success")
    if op == "q" and c.is_true(c.lt(b, -s.t)):
        b = -s.t                      # the whole ellipsoid satisfies the cut
    ylo, yhi = -s.t, -b
    if not c.symbolic:
        lib.concrete_contains(c, s, ylo, yhi, "retained region stays inside")
        return
    rho, delta, rest = lib.post_params(c, s)
    lib.form_claims(c, s, rho, delta, rest)
    lib.scalar_containment(c, s.T, rho, delta, rest, ylo, yhi, "containment")


def calc(c, op, regime):
    """the calculator alone, for a symbolic dimension n >= 2"""
    n = c.integer("n", 2)
    calc = lib.calculator(c, n)
    t = c.real("t", pos=True)
    b = t if regime == "tangent" else c.real("b", nonneg=op == "bias")
    if regime != "tangent":
        c.assume(c.ne(b, t))
    f = {"bias": calc.calc_single_or_parallel, "central": calc.calc_single_or_parallel_central_cut, "q": calc.calc_single_or_parallel_q}[op]
    st, res = f(b, t * t)
    if st != lib.status(c).Success:
        c.reach("rejected")
        return
    c.reach("success")
    rho, sigma, delta = res
    if op == "central":
        b = c.num(0)
    if op == "q" and c.is_true(c.lt(b, -t)):
        b = -t
    lib.scalar_containment(c, t * t, rho, delta, delta * (1 - sigma), -t, -b, "containment")


def flat(c, kind, op):
    """a segment (an ellipse flattened by an earlier equality cut): its part that satisfies the cut is kept"""
    sp, xc, w = lib.flat_state(c, kind, 2, "flat")
    g = [c.real("g0"), c.real("g1")]
    c.assume(c.ne(g[1], 0))
    a = c.real("a", pos=True)                      # half-length of the segment
    c.assume(c.eq(a * a, w[1]))
    b = c.real("b", nonneg=op == "bias")
    st = lib.update(sp, op)((c.arr(g), b))
    if op == "central":
        b = c.num(0)
    y = c.real("y")                                # the point xc + (0, y)
    c.assume(c.And(c.le(y, a), c.le(-a, y), c.le(g[1] * y + b, 0)))
    if st != lib.status(c).Success:
        c.reach("rejected")
        return
    c.reach("success")
    x1, P = lib.lst(sp.xc()), lib.observe_P(c, sp, 2)
    c.prove(c.And(c.eq(x1[0], xc[0]), c.eq(P[0][0], 0), c.eq(P[1][0], 0)), "the segment stays in its line")
    z = xc[1] + y - x1[1]
    c.prove(c.le(z * z, P[1][1]), "retained part of the segment stays inside")


TASKS = []
for kind in ("Ell", "EllStable"):
    for n in (2, 3):
        for op, reg in (("bias", "open"), ("bias", "tangent"), ("central", ""), ("q", "open"), ("q", "tangent")):
            TASKS.append(dict(name=f"{kind}_{op}_n{n}_{reg}", fn=single, params=dict(kind=kind, n=n, op=op, regime=reg),
                              require=["success"], bounds=f"n={n}; all reals otherwise", tier="quick"))
    for op in ("bias", "central", "q"):
        TASKS.append(dict(name=f"{kind}_{op}_n2_flat", fn=flat, params=dict(kind=kind, op=op), require=["success"], bounds="n=2; any axis-aligned ellipse flattened to a segment by an earlier equality cut; any gradient across it"))
        TASKS.append(dict(name=f"{kind}_{op}_n3_lastaxis", fn=single, params=dict(kind=kind, n=3, op=op, regime="open", mode="lastaxis"),
                          require=["success"], bounds="n=3; step along the last axis (left out by the n=3 tasks)"))
        TASKS.append(dict(name=f"{kind}_{op}_n3_int", fn=single, params=dict(kind=kind, n=3, op=op, regime="open", mode="int"),
                          require=["success"], bounds="n=3; one fixed shape, gradient an array of integers"))
        TASKS.append(dict(name=f"{kind}_{op}_n2_other", fn=single, params=dict(kind=kind, n=2, op=op, regime="open", mode="other"),
                          require=["success"], bounds="n=2; other spaces of other dimensions are built and cut in between"))
        for n in (2,):
            TASKS.append(dict(name=f"{kind}_{op}_n{n}_repeat", fn=single, params=dict(kind=kind, n=n, op=op, regime="open", mode="repeat"),
                              require=["success"], bounds=f"n={n}; a central cut along the same direction happened before"))
        TASKS.append(dict(name=f"{kind}_{op}_n3_long130", fn=single, params=dict(kind=kind, n=3, op=op, regime="open", mode="long130"),
                          require=["success"], bounds="n=3; after 130 concrete axis cuts with rejected cuts in between; axis-aligned final cut"))
        for n, k in ((3, 70), (2, 24), (4, 30)):
            TASKS.append(dict(name=f"{kind}_{op}_n{n}_dense{k}", fn=single, params=dict(kind=kind, n=n, op=op, regime="open", mode=f"dense{k}"), require=["success"],
                              bounds=f"n={n}; after {k} concrete cuts in general position with rejected cuts in between; final cut along one such direction, any length and offset"))
        TASKS.append(dict(name=f"{kind}_{op}_n2_long", fn=single, params=dict(kind=kind, n=2, op=op, regime="open", mode="long24"),
                          require=["success"], bounds="n=2; after 24 concrete axis cuts with rejected cuts in between; axis-aligned final cut"))
        for n in (4, 5, 8, 12, 20, 48):
            TASKS.append(dict(name=f"{kind}_{op}_n{n}_spot", fn=single, params=dict(kind=kind, n=n, op=op, regime="open", mode="spot"),
                              require=["success"], bounds=f"n={n}; one fixed shape, gradient symbolic in 2-3 coordinates, any kappa, centre, offset",
                              tier="quick"))
    for form in ("list1", "tuple1", "array1", "single_of_pair", "npfloat"):
        for op in ("bias", "central", "q"):
            TASKS.append(dict(name=f"{kind}_{op}_n2_{form}", fn=single, params=dict(kind=kind, n=2, op=op, regime="open", form=form),
                              require=["success"], bounds=f"n=2; offset passed as {form}"))
for op, reg in (("bias", "open"), ("bias", "tangent"), ("central", ""), ("q", "open"), ("q", "tangent")):
    TASKS.append(dict(name=f"calc_{op}_anyn_{reg}", fn=calc, params=dict(op=op, regime=reg), require=["success"],
                      bounds="calculator only; every dimension n >= 2, every tau > 0, every offset"))


task = lib.names(TASKS)
