"""C19 ProfitQOracle: the candidate is the rounded (integer, >= 1) point; the level is its true profit; its cuts keep every feasible
point; a retry uses the candidate already offered and asks for no more."""
from . import lib, profit
from .profit import dot


ASSUMPTIONS = profit.ASSUMPTIONS + ["known finding KF1: the offset of a cut at the rounded point is accepted either if the cut is valid or if it is exactly the mirrored value of the finding"]


def nearest(c, u, y):
    """u is a positive integer nearest to y (1 when y rounds to 0)"""
    return c.And(c.eq(c.rint(u), u), c.ge(u, 1), c.Or(c.And(c.le(u - y, 0.5), c.le(y - u, 0.5)), c.And(c.eq(u, 1), c.le(y, 0.5))))


def after(c, m, o, kind, mk, keep):
    """an earlier query; returns the candidate it left behind"""
    w = profit.point(c, m, "w")
    feas = c.And(c.le(w.x[0], m.lk), c.le(w.lQ, m.lp + dot(m.a, w.x)))
    c.assume(feas if kind == "rounded" else c.Not(feas))
    (g, _), xq, _, _ = o.assess_optim_q(mk(w.x), w.gamma, False)
    keep.add(g)
    if kind == "rounded":                # otherwise it is the very array asked about
        keep.add(xq)
    return lib.lst(xq) if kind == "rounded" else [c.num(0), c.num(0)]


def run(c, before, retry, inplace=False):
    m = profit.setup(c)
    o = c.mod("ellalgo.oracles.profit_oracle").ProfitQOracle(profit.params(m), m.ea, m.va)
    one = c.arr([0, 0])
    keep = lib.Keep(c)
    if before == "other":
        profit.foreign(c, "ProfitQOracle")
        before = None
    xd = after(c, m, o, before, (lambda x: profit.refill(one, x)) if inplace else c.arr, keep) if before else [c.num(0), c.num(0)]
    q = profit.point(c, m)
    xa = profit.refill(one, q.x) if inplace else c.arr(q.x)
    lC = m.lp + dot(m.a, q.x)
    profit.monotone(c, [(q.lQ, q.Q), (lC, c.exp(lC))])
    feas = c.And(c.le(q.x[0], m.lk), c.le(q.lQ, lC))
    (g, b), xq, g1, more = o.assess_optim_q(xa, q.gamma, retry)
    keep.check()
    g, xq = lib.lst(g), lib.lst(xq)
    profit.untouched(c, m, xa, q.x)
    if not retry and c.settle(c.Not(feas)):
        c.reach("infeasible")
        c.prove(g1 is None, "a point that violates a constraint reports no level")
        c.prove(bool(more) is True, "another candidate may follow")
        c.prove(c.And(*[c.eq(xq[i], q.x[i]) for i in range(2)]), "the point of the cut is the one asked about")
        c.prove(c.gt(b, 0), "a violated constraint gives a positive offset")
        profit.valid_cut(c, m, q.x, q.y, q.Q, q.lQ, q.gamma, g, b, "the cut keeps every feasible point")
        return
    c.prove(bool(more) is (not retry), "another candidate may follow exactly if this was the first")
    if retry:
        c.prove(c.And(*[c.eq(xq[i], xd[i]) for i in range(2)]), "a retry keeps the candidate already offered")
    u = [c.exp(t) for t in xq]
    if not retry:
        c.prove(c.And(*[nearest(c, u[i], q.y[i]) for i in range(2)]), "the candidate is the nearest positive integer point")
    vu = dot(m.v, u)
    Q, lC = q.gamma + vu, m.lp + dot(m.a, xq)
    lQ, C = c.log(Q), c.exp(lC)
    profit.monotone(c, [(lQ, Q), (lC, C)])
    bad1, bad2 = c.gt(xq[0], m.lk), c.gt(lQ, lC)
    shift = dot(g, [xq[i] - q.x[i] for i in range(2)])
    kf = c.listed("KF1")

    def mirrored(gs, beta):
        return c.And(*[c.eq(g[i], gs[i]) for i in range(2)], c.eq(b, beta + shift)) if kf else None
    if g1 is None:
        c.reach("candidate cut")
        c.prove(c.Or(bad1, bad2), "a candidate that satisfies both constraints is accepted")
        also = c.Or(mirrored([1, 0], xq[0] - m.lk), mirrored([m.v[i] * u[i] / Q - m.a[i] for i in range(2)], lQ - lC)) if kf else None
        profit.valid_cut(c, m, xq, u, Q, lQ, q.gamma, g, b + shift, "the cut keeps every feasible point", also=also)
        return
    c.reach("candidate accepted")
    c.prove(c.And(c.Not(bad1), c.Not(bad2)), "an accepted candidate satisfies both constraints")
    c.prove(c.eq(g1, C - vu), "the new level is the profit of the candidate")
    c.prove(c.ge(g1, q.gamma), "the level does not fall")
    profit.valid_cut(c, m, xq, u, C, lC, g1, g, b + shift, "the optimality cut keeps every point that is at least as good",
                     also=mirrored([m.v[i] * u[i] / C - m.a[i] for i in range(2)], 0))


def wrong(c):
    """known finding KF1: the cut at the rounded point excludes the feasible point it was asked about"""
    m = profit.setup(c)
    o = c.mod("ellalgo.oracles.profit_oracle").ProfitQOracle(profit.params(m), m.ea, m.va)
    q = profit.point(c, m)
    c.assume(c.And(c.le(q.x[0], m.lk), c.le(q.lQ, m.lp + dot(m.a, q.x))))
    c.assume(c.And(c.ge(q.y[0], 1.55), c.le(q.y[0], 1.7), c.ge(m.K, 1.75), c.le(m.K, 1.9)))     # rounds up to 2, beyond the limit
    fixed = [(m.lp, 3), (m.lA, 0), (m.lk, 0.6), (m.a[0], 0.125), (m.a[1], 0.375), (m.v[0], 1), (m.v[1], 1), (q.x[0], 0.5), (q.x[1], 0.5), (q.lQ, 1.5)]
    c.assume(c.And(*[c.eq(s, t) for s, t in fixed]))
    (g, b), xq, g1, _ = o.assess_optim_q(c.arr(q.x), q.gamma, False)
    lC = m.lp + dot(m.a, q.x)
    profit.monotone(c, [(q.lQ, q.Q), (lC, c.exp(lC)), (q.x[0], q.y[0]), (m.lk, m.K)])
    xq = lib.lst(xq)
    c.assume(c.gt(xq[0], m.lk))
    c.prove(c.le(b, 0), "the cut keeps the feasible point it was asked about")


TASKS = []
for w in (None, "rounded", "cut"):
    for r in (False, True):
        TASKS.append(dict(name=f"after_{w}_{'retry' if r else 'first'}", fn=run, params=dict(before=w, retry=r), require=["candidate cut", "candidate accepted"] + ([] if r else ["infeasible"]), bounds="every parameter set, point and level; earlier query: %s" % w, witnesses=4))
for w, r in (("rounded", True), ("cut", False), ("cut", True)):
    TASKS.append(dict(name=f"after_{w}_{'retry' if r else 'first'}_inplace", fn=run, params=dict(before=w, retry=r, inplace=True), require=["candidate cut", "candidate accepted"] + ([] if r else ["infeasible"]), bounds="the same; earlier query about the same array, refilled", witnesses=4))
TASKS.append(dict(name="after_other_first", fn=run, params=dict(before="other", retry=False), require=["candidate cut", "candidate accepted", "infeasible"], bounds="the same; another oracle used in between", witnesses=4))
TASKS.append(dict(name="cut_excludes_point", fn=wrong, params={}, bounds="known finding", finding="KF1"))
task = lib.names(TASKS)
