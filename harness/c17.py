"""C17 ProfitOracle: accepts exactly the points that satisfy both constraints; its cuts keep every such point; an accepted point
raises the level to its true profit and the optimality cut keeps every better point - whatever was asked before."""
from . import lib, profit
from .profit import dot


ASSUMPTIONS = profit.ASSUMPTIONS


def warm_up(c, m, o, warm, mk, keep):
    if warm == 0:
        return
    if warm == 4:
        profit.foreign(c, "ProfitOracle")
        return
    w = profit.point(c, m, "w")
    if warm == 1:                       # stops at the first constraint: the next query starts with the second
        c.assume(c.gt(w.x[0], m.lk))
        r = o.assess_feas(mk(w.x), w.gamma)
    elif warm == 2:                     # both constraints looked at, another point
        c.assume(c.And(c.le(w.x[0], m.lk), c.le(w.lQ, m.lp + dot(m.a, w.x))))
        r = o.assess_feas(mk(w.x), w.gamma)
    else:                               # an improvement, another point
        c.assume(c.And(c.le(w.x[0], m.lk), c.le(w.lQ, m.lp + dot(m.a, w.x))))
        r = o.assess_optim(mk(w.x), w.gamma)[0]
    if r is not None:
        keep.add(r[0])


def run(c, call, warm, inplace=False):
    m = profit.setup(c)
    o = c.mod("ellalgo.oracles.profit_oracle").ProfitOracle(profit.params(m), m.ea, m.va)
    one = c.arr([0, 0])                 # inplace: the caller asks about one array with changing contents
    keep = lib.Keep(c)
    warm_up(c, m, o, warm, (lambda x: profit.refill(one, x)) if inplace else c.arr, keep)
    q = profit.point(c, m)
    xa = profit.refill(one, q.x) if inplace else c.arr(q.x)
    lC = m.lp + dot(m.a, q.x)
    C = c.exp(lC)
    profit.monotone(c, [(q.lQ, q.Q), (lC, C)])
    bad1, bad2 = c.gt(q.x[0], m.lk), c.gt(q.lQ, lC)
    if call == "feas":
        r, g1 = o.assess_feas(xa, q.gamma), None
    else:
        r, g1 = o.assess_optim(xa, q.gamma)
    profit.untouched(c, m, xa, q.x)
    keep.check()
    if (r is None) if call == "feas" else (g1 is not None):
        c.reach("accepted")
        c.prove(c.And(c.Not(bad1), c.Not(bad2)), "an accepted point satisfies both constraints")
        if call == "feas":
            return
        c.prove(c.eq(g1, C - q.vy), "the new level is the profit of the point")
        c.prove(c.ge(g1, q.gamma), "the level does not fall")
        g, b = r
        c.prove(c.ge(b, 0), "offset >= 0")
        profit.valid_cut(c, m, q.x, q.y, C, lC, g1, lib.lst(g), b, "the optimality cut keeps every point that is at least as good")
        return
    c.reach("cut")
    c.prove(c.Or(bad1, bad2), "a point that satisfies both constraints is accepted")
    g, b = r
    c.prove(c.gt(b, 0), "a violated constraint gives a positive offset")
    profit.valid_cut(c, m, q.x, q.y, q.Q, q.lQ, q.gamma, lib.lst(g), b, "the cut keeps every feasible point")


TASKS = [dict(name=f"{call}_after{w}", fn=run, params=dict(call=call, warm=w), require=["accepted", "cut"], bounds="every parameter set, point and level; earlier query of kind %d" % w, witnesses=4)
         for call in ("feas", "optim") for w in range(4)]
TASKS += [dict(name=f"{call}_after{w}_inplace", fn=run, params=dict(call=call, warm=w, inplace=True), require=["accepted", "cut"], bounds="every parameter set, point and level; earlier query of kind %d about the same array, refilled" % w, witnesses=4)
          for call in ("feas", "optim") for w in (1, 2, 3)]
TASKS += [dict(name=f"{call}_other", fn=run, params=dict(call=call, warm=4), require=["accepted", "cut"], bounds="every parameter set, point and level; another oracle used in between", witnesses=4) for call in ("feas", "optim")]
task = lib.names(TASKS)
