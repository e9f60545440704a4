"""C02 containment, parallel cuts: a Success update keeps every point of the old ellipsoid that lies in the slab."""
from . import lib

ASSUMPTIONS = [
    "pre-state: any positive-definite shape (L, d parametrisation), any kappa > 0, any centre, any non-zero gradient",
    "update_bias_cut: beta0 >= 0 (the cut does not keep the centre's far side; the calculator's documented precondition)",
]


def parallel(c, kind, n, op, regime="open", form="tuple", mode="any", flat=True):
    s = lib.state(c, kind, n, mode)
    St = lib.status(c)
    if regime == "tangent":
        b0 = s.t
        b1 = s.t + c.real("w", nonneg=True)
    elif regime == "equal":
        b0 = b1 = c.real("b0", nonneg=op == "bias")
        if op != "central":
            c.assume(c.ne(b0 * b0, s.T))
    elif regime == "equal_tangent":
        b0 = b1 = s.t if c.choice("side", 2) == 0 or op == "bias" else -s.t
    else:
        b0 = c.real("b0", nonneg=op == "bias")
        b1 = c.real("b1")
        if op != "central":
            c.assume(c.ne(b0, b1))
            c.assume(c.ne(b0, s.t))
    if op == "central" and regime == "zero":
        b1 = c.num(0)
    elif op == "central":
        c.assume(c.ne(b1, 0))
    beta = lib.beta_form(c, form, b0, b1)
    st = {"bias": s.sp.update_bias_cut, "central": s.sp.update_central_cut, "q": s.sp.update_q}[op]((s.gv, beta))
    if st != St.Success:
        c.reach("rejected")
        return
    c.reach("success")
    lo = c.num(0) if op == "central" else b0
    if op == "q" and c.is_true(c.lt(lo, -s.t)):
        lo = -s.t
    ylo, yhi = lib.window(c, s.T, s.t, lo, b1)
    if c.is_true(c.gt(ylo, yhi)):
        c.reach("empty slab")
        return                         # nothing to retain (C04 decides the status)
    if not c.symbolic:
        lib.concrete_contains(c, s, ylo, yhi, "retained region stays inside")
        return
    rho, delta, rest = lib.post_params(c, s)
    lib.form_claims(c, s, rho, delta, rest)
    lib.scalar_containment(c, s.T, rho, delta, rest, ylo, yhi, "containment", flat=flat)


def calc(c, op, regime, nmax=None, flat=True):
    """the calculator alone, for a symbolic dimension n >= 2"""
    n = c.integer("n", 2, nmax)
    calc = lib.calculator(c, n)
    t = c.real("t", pos=True)
    b0 = c.num(0) if op == "central" else c.real("b0", nonneg=op == "bias")
    b1 = b0 if regime == "equal" else c.real("b1")
    if regime == "far":
        c.assume(c.ge(b1, t))
    elif regime != "equal":
        c.assume(c.lt(b1, t))
    if op != "central":
        c.assume(c.ne(b0, t))
    f = {"bias": calc.calc_single_or_parallel, "central": calc.calc_single_or_parallel_central_cut, "q": calc.calc_single_or_parallel_q}[op]
    st, res = f((b0, b1), t * t)
    if st != lib.status(c).Success:
        c.reach("rejected")
        return
    c.reach("success")
    rho, sigma, delta = res
    lo = b0
    if op == "q" and c.is_true(c.lt(lo, -t)):
        lo = -t
    ylo, yhi = lib.window(c, t * t, t, lo, b1)
    if c.is_true(c.gt(ylo, yhi)):
        return
    lib.scalar_containment(c, t * t, rho, delta, delta * (1 - sigma), ylo, yhi, "containment", flat=flat)


TASKS = []
for n in (2, 3):
    for op, regs in (("bias", ("open", "tangent", "equal", "equal_tangent")), ("central", ("open", "zero")),
                     ("q", ("open", "tangent", "equal", "equal_tangent"))):
        for reg in regs:
            TASKS.append(dict(name=f"Ell_{op}_n{n}_{reg}", fn=parallel, params=dict(kind="Ell", n=n, op=op, regime=reg),
                              require=["success"], bounds=f"n={n}; all reals otherwise"))
# (the open deep and q slabs of EllStable are covered by the algebra tasks together with the calculator tasks)
for op, regs in (("bias", ("tangent", "equal", "equal_tangent")), ("central", ("open", "zero")), ("q", ("tangent", "equal", "equal_tangent"))):
    for reg in regs:
        TASKS.append(dict(name=f"EllStable_{op}_n2_{reg}", fn=parallel, params=dict(kind="EllStable", n=2, op=op, regime=reg),
                          require=["success"], bounds="n=2; all reals otherwise"))
for op in ("bias", "central", "q"):
    for n in (2, 3):
        TASKS.append(dict(name=f"EllStable_algebra_{op}_n{n}", fn=lib.stub_update, params=dict(kind="EllStable", n=n, op=op),
                          require=["success"], bounds=f"n={n}; arbitrary rho, 0<sigma<1, delta>0 from the calculator"))
    for kind in ("Ell", "EllStable"):
        for n in (5, 12, 20, 48):
            if n < 48 or op == "bias":
                TASKS.append(dict(name=f"{kind}_algebra_{op}_spot{n}", fn=lib.stub_update, params=dict(kind=kind, n=n, op=op, mode="spot"),
                                  require=["success"], bounds=f"n={n}; one fixed shape, gradient symbolic in 2-3 coordinates; arbitrary rho, sigma, delta"))
        TASKS.append(dict(name=f"{kind}_algebra_{op}_n3_long130", fn=lib.stub_update, params=dict(kind=kind, n=3, op=op, mode="long130"),
                          require=["success"], bounds="n=3; after 130 concrete axis cuts with rejected cuts in between; axis-aligned final cut"))
        for n, k in ((3, 70), (2, 24), (4, 30)):
            TASKS.append(dict(name=f"{kind}_{op}_n{n}_dense{k}", fn=lib.stub_update, params=dict(kind=kind, n=n, op=op, mode=f"dense{k}"), require=["success"],
                              bounds=f"n={n}; after {k} concrete cuts in general position with rejected cuts in between; final cut along one such direction, any length and offset"))
        TASKS.append(dict(name=f"{kind}_{op}_n2_long", fn=parallel, params=dict(kind=kind, n=2, op=op, mode="long24", flat=op != "q"),
                          require=["success"], bounds="n=2; after 24 concrete axis cuts with rejected cuts in between; axis-aligned final cut"))
    for form in ("list", "array"):
        TASKS.append(dict(name=f"Ell_{op}_n2_{form}", fn=parallel, params=dict(kind="Ell", n=2, op=op, form=form),
                          require=["success"], bounds=f"n=2; offsets passed as {form}"))
    for reg in ("open", "far", "equal"):
        if op != "central" or reg != "equal":
            TASKS.append(dict(name=f"calc_{op}_anyn_{reg}", fn=calc, params=dict(op=op, regime=reg, flat=op != "q"), require=["success"],
                              bounds="calculator only; every dimension n >= 2, every tau > 0, every offset pair"))
task = lib.names(TASKS)
