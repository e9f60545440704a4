"""C07 the ways of stating the same cut agree: update_q with non-negative offsets = update_bias_cut, central = offset 0,
central slab = slab from 0, far side outside the ellipsoid = one-sided cut, one-element / switched-off slab = one-sided cut."""
from . import lib

ASSUMPTIONS = ["non-negative near offset"]

PAIRS = {
    "q_is_bias": lambda c, t: (("q", "s"), ("bias", "s")),
    "q_is_bias_slab": lambda c, t: (("q", "p"), ("bias", "p")),
    "central_is_zero": lambda c, t: (("central", "s"), ("bias", "0")),
    "central_slab_is_zero_slab": lambda c, t: (("central", "p"), ("bias", "0p")),
    "far_slab_is_single": lambda c, t: (("bias", "p"), ("bias", "s")),
    "far_slab_is_single_q": lambda c, t: (("q", "p"), ("q", "s")),
    "far_slab_is_single_central": lambda c, t: (("central", "p"), ("central", "s")),
    "switched_off": lambda c, t: (("bias", "off"), ("bias", "s")),
    "switched_off_q": lambda c, t: (("q", "off"), ("q", "s")),
    "switched_off_central": lambda c, t: (("central", "off"), ("central", "s")),
    "one_element": lambda c, t: (("bias", "1"), ("bias", "s")),
    "one_element_q": lambda c, t: (("q", "1"), ("q", "s")),
}


def beta(c, spec, b0, b1):
    return {"s": lambda: b0, "0": lambda: c.num(0), "p": lambda: (b0, b1), "0p": lambda: (c.num(0), b1), "off": lambda: (b0, b1), "1": lambda: [b0]}[spec]()


def offsets(c, which, t):
    b0 = c.real("b0", nonneg=not which.endswith("_q"))
    b1 = c.real("b1")
    if which.startswith("far"):
        c.assume(c.ge(b1, t))
        c.assume(c.le(b0, b1))
    return b0, b1


def calc(c, which):
    n = c.integer("n", 2)
    t = c.real("t", pos=True)
    b0, b1 = offsets(c, which, t)
    out = []
    for op, spec in PAIRS[which](c, t):
        k = lib.calculator(c, n)
        if spec == "off":
            k.use_parallel_cut = False
        f = {"bias": k.calc_single_or_parallel, "central": k.calc_single_or_parallel_central_cut, "q": k.calc_single_or_parallel_q}[op]
        out.append(f(beta(c, spec, b0, b1), t * t))
    (s1, r1), (s2, r2) = out
    c.reach(s1.name)
    c.prove(s1 == s2, "same status")
    if r1 is None or r2 is None:
        return
    for a, b, nm in zip(r1, r2, ("rho", "sigma", "delta")):
        c.prove(c.eq(a, b), f"same {nm}")


def ell(c, kind, n, which, mode="any"):
    out = []
    for op, spec in PAIRS[which](c, None):
        s = lib.state(c, kind, n, mode)
        b0, b1 = offsets(c, which, s.t)
        c.assume(c.ne(b0, s.t))
        c.assume(c.ne(b0, b1))
        if spec == "off":
            s.sp.helper.use_parallel_cut = False
        st = lib.update(s.sp, op)((s.gv, beta(c, spec, b0, b1)))
        out.append((st, s.sp))
    (s1, x), (s2, y) = out
    c.reach(s1.name)
    c.prove(s1 == s2, "same status")
    c.prove(c.And(*[c.eq(x.xc()[i], y.xc()[i]) for i in range(n)]), "same centre")
    c.prove(c.eq(x.tsq(), y.tsq()), "same tsq")
    P, Q = lib.observe_P(c, x, n), lib.observe_P(c, y, n)
    for i in range(n):
        for j in range(i + 1):
            c.prove(c.eq(P[i][j], Q[i][j]), f"same shape [{i}{j}]")


TASKS = []
for w in PAIRS:
    TASKS.append(dict(name=f"calc_{w}", fn=calc, params=dict(which=w), require=["Success"], bounds="every n >= 2, every tau > 0, all offsets"))
    for kind in ("Ell", "EllStable"):
        if w == "central_slab_is_zero_slab" and kind == "EllStable":
            continue
        if not (w == "q_is_bias_slab" and kind == "EllStable"):
            TASKS.append(dict(name=f"{kind}_{w}_n12", fn=ell, params=dict(kind=kind, n=12, which=w, mode="spot2"), require=["Success"], bounds="n=12; one fixed shape"))
        TASKS.append(dict(name=f"{kind}_{w}", fn=ell, params=dict(kind=kind, n=2, which=w), require=["Success"], bounds="n=2; all reals otherwise"))
task = lib.names(TASKS)
