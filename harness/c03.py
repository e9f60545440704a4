"""C03 minimum volume: a Success update gives the smallest ellipsoid around the retained region, so the volume shrinks.

Single cut (offset b > -tau/n): the Loewner-John ellipsoid has
    rho = (tau+n b)/(n+1), sigma = 2 rho/(tau+b), delta = n^2/(n^2-1) (1-b^2/tau^2).
Slab b0 <= b1 inside the ellipsoid: the optimum lies in the pencil  E(x)-1 + m (y+b0)(y+b1) <= 0  with the one m > 0 at which
the volume is stationary (the stationarity condition is a quadratic with exactly one positive root)."""
from . import lib

ASSUMPTIONS = ["the Loewner-John characterisation (unique minimum-volume ellipsoid, its pencil form) is mathematics, not checked here",
               "update_bias_cut: beta0 >= 0"]


def single_optimum(c, n, t, b, rho, delta, rest, tag):
    e_rho = (t + n * b) / (n + 1)
    e_delta = n * n * (t - b) * (t + b) / ((n * n - 1) * t * t)
    c.prove(c.eq(rho, e_rho), tag + ": centre of the minimum-volume ellipsoid")
    c.prove(c.eq(delta, e_delta), tag + ": size of the minimum-volume ellipsoid")
    c.prove(c.eq(rest * (n + 1) * (n + 1) * t * t, n * n * (t - b) * (t - b)), tag + ": width of the minimum-volume ellipsoid")


def slab_optimum(c, n, T, b0, b1, rho, delta, rest, tag):
    """pencil form + stationarity, multiplied out with sigma = 1 - rest/delta, m = sigma/(1-sigma) = (delta-rest)/rest"""
    bs = b0 + b1
    c.prove(c.And(c.gt(rest, 0), c.gt(delta, rest)), tag + ": 0 < sigma < 1")
    m = (delta - rest) / rest
    c.prove(c.eq(2 * rho * delta, (delta - rest) * bs), tag + ": centre on the pencil")
    # delta T = T + m^2/(1+m) bavg^2 - m b0 b1,   1+m = delta/rest
    c.prove(c.eq(4 * delta * T * delta, 4 * T * delta + m * m * rest * bs * bs - 4 * delta * m * b0 * b1), tag + ": shape on the pencil")
    bb = bs * bs / 4
    q = (n - 1) * (bb - b0 * b1) * m * m + (2 * n * bb - 2 * n * b0 * b1 - T + b0 * b1) * m - (T + n * b0 * b1)
    c.prove(c.eq(q, 0), tag + ": volume is stationary")


def run_slab(c, n, T, t, b0, b1, rho, delta, rest):
    """dispatch on the geometry: the far side may lie outside, or the cut may be redundant"""
    if c.is_true(c.ge(b1, t)):
        c.reach("far side outside")
        single_optimum(c, n, t, b0, rho, delta, rest, "single")
    elif c.is_true(c.eq(b0, b1)):
        c.reach("degenerate")
        c.prove(c.eq(rest, 0), "equality cut: flat")
        c.prove(c.eq(rho, b0), "equality cut: centre on the plane")
        c.prove(c.eq(delta * T * (n - 1), n * (T - b0 * b0)), "equality cut: section circumscribed")
    else:
        c.reach("slab")
        slab_optimum(c, n, T, b0, b1, rho, delta, rest, "slab")


def ell_single(c, kind, n, op, mode="any", tangent=False):
    s = lib.state(c, kind, n, mode)
    if op == "central":
        b = c.num(0)
        st = s.sp.update_central_cut((s.gv, c.real("b")))
    else:
        b = s.t if tangent else c.real("b", nonneg=op == "bias")
        if not tangent:
            c.assume(c.ne(b, s.t))
        st = lib.update(s.sp, op)((s.gv, b))
    if st != lib.status(c).Success:
        c.reach("rejected")
        return
    c.reach("success")
    rho, delta, rest = lib.post_params(c, s)
    lib.form_claims(c, s, rho, delta, rest)
    single_optimum(c, n, s.t, b, rho, delta, rest, "single")
    if op != "q":
        v = rest
        for _ in range(n - 1):
            v = v * delta
        c.prove(c.lt(v, 1), "volume shrinks")


def ell_slab(c, kind, n, op):
    s = lib.state(c, kind, n, "any")
    b0 = c.num(0) if op == "central" else c.real("b0", nonneg=op == "bias")
    b1 = c.real("b1")
    if op != "central":
        c.assume(c.ne(b0, s.t))
    c.assume(c.lt(b0, b1))
    if op == "q":
        c.assume(c.gt(b0, -s.t))
    st = lib.update(s.sp, op)((s.gv, (b0, b1)))
    if st != lib.status(c).Success:
        c.reach("rejected")
        return
    rho, delta, rest = lib.post_params(c, s)
    lib.form_claims(c, s, rho, delta, rest)
    run_slab(c, n, s.T, s.t, b0, b1, rho, delta, rest)


def calc(c, op, pair, n=None):
    n = c.integer("n", 2) if n is None else n
    calc = lib.calculator(c, n)
    t = c.real("t", pos=True)
    f = {"bias": calc.calc_single_or_parallel, "central": calc.calc_single_or_parallel_central_cut, "q": calc.calc_single_or_parallel_q}[op]
    b0 = c.num(0) if op == "central" else c.real("b0", nonneg=op == "bias")
    if pair:
        b1 = c.real("b1")
        c.assume(c.le(b0, b1) if pair == "equal" else c.lt(b0, b1))
        if pair == "equal":
            b1 = b0
        c.assume(c.lt(b0, t))
        if op == "q":
            c.assume(c.gt(b0, -t))
    st, res = f((b0, b1) if pair else b0, t * t)
    if st != lib.status(c).Success:
        c.reach("rejected")
        return
    c.reach("success")
    rho, sigma, delta = res
    rest = delta * (1 - sigma)
    if pair:
        run_slab(c, n, t * t, t, b0, b1, rho, delta, rest)
    else:
        single_optimum(c, n, t, b0, rho, delta, rest, "single")


TASKS = []
for kind in ("Ell", "EllStable"):
    for op in ("bias", "central", "q"):
        for n in (2, 3):
            TASKS.append(dict(name=f"{kind}_{op}_n{n}", fn=ell_single, params=dict(kind=kind, n=n, op=op), require=["success"],
                              bounds=f"n={n}; all reals otherwise"))
        if op != "central":
            TASKS.append(dict(name=f"{kind}_{op}_n2_tangent", fn=ell_single, params=dict(kind=kind, n=2, op=op, tangent=True), require=["success"],
                              bounds="n=2; cut tangent to the ellipsoid"))
        for n, k in ((3, 70), (2, 24)):
            TASKS.append(dict(name=f"{kind}_{op}_n{n}_dense{k}", fn=ell_single, params=dict(kind=kind, n=n, op=op, mode=f"dense{k}"), require=["success"],
                              bounds=f"n={n}; after {k} concrete cuts in general position with rejected cuts in between; final cut along one such direction, any length and offset"))
        TASKS.append(dict(name=f"{kind}_{op}_n2_long", fn=ell_single, params=dict(kind=kind, n=2, op=op, mode="long24"), require=["success"],
                          bounds="n=2 after 24 concrete cuts; axis-aligned final cut"))
        TASKS.append(dict(name=f"{kind}_{op}_n3_long130", fn=ell_single, params=dict(kind=kind, n=3, op=op, mode="long130"), require=["success"],
                          bounds="n=3 after 130 concrete cuts; axis-aligned final cut"))
        for n in (5, 12, 20):
            TASKS.append(dict(name=f"{kind}_{op}_n{n}_spot", fn=ell_single, params=dict(kind=kind, n=n, op=op, mode="spot"), require=["success"],
                              bounds=f"n={n}, one fixed shape, gradient symbolic in 2-3 coordinates"))
for op in ("bias", "central", "q"):
    TASKS.append(dict(name=f"Ell_slab_{op}_n2", fn=ell_slab, params=dict(kind="Ell", n=2, op=op), require=["slab", "far side outside"],
                      bounds="n=2; all reals otherwise"))
    TASKS.append(dict(name=f"EllStable_algebra_{op}_n2", fn=lib.stub_update, params=dict(kind="EllStable", n=2, op=op), require=["success"],
                      bounds="n=2; arbitrary calculator output"))
    TASKS.append(dict(name=f"calc_{op}_anyn", fn=calc, params=dict(op=op, pair=""), require=["success"], bounds="every n >= 2"))
    TASKS.append(dict(name=f"calc_slab_{op}_anyn", fn=calc, params=dict(op=op, pair="open"), require=["slab", "far side outside"],
                      bounds="every n >= 2, every tau, every offset pair with b0 < b1"))
    if op != "central":
        TASKS.append(dict(name=f"calc_equal_{op}_anyn", fn=calc, params=dict(op=op, pair="equal"), require=["degenerate"],
                          bounds="every n >= 2, b0 == b1"))
task = lib.names(TASKS)
