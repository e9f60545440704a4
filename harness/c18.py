"""C18 ProfitRbOracle: accepts exactly the points that satisfy both constraints for every parameter set in the uncertainty box;
the level reported is guaranteed for every one of them; the cuts keep every robustly feasible point - whatever was asked before."""
from . import lib, profit
from .profit import dot


ASSUMPTIONS = profit.ASSUMPTIONS + ["uncertainties >= 0, smaller than the price, the limit"]


def worst(c, m, x):
    """worst-case log output: lp + sum a_i x_i - e_i |x_i|"""
    t = m.lp + dot(m.a, x)
    for i in range(2):
        t = t - m.e[i] * (x[i] if c.is_true(c.gt(x[i], 0)) else -x[i])
    return t


def run(c, warm, ints=False, inplace=False):
    m = profit.setup(c, ints)
    m.e = [c.real("e0"), c.real("e1")]
    e3, e4, e5 = c.real("e3"), c.real("e4"), c.real("e5")
    for t in m.e + [e3, e4, e5]:
        c.assume(c.ge(t, 0))
    nom = [m.v[0] - e5, m.v[1] - e5]                        # m.P, m.K, m.v are the worst-case price, limit and input prices
    for t in nom:
        c.assume(c.gt(t, 0))
    va = c.arr(nom)
    pars = (m.P / m.A + e3, m.A, m.K + e4)
    vpar = (m.e[0], m.e[1], e3, e4, e5)
    o = c.mod("ellalgo.oracles.profit_oracle").ProfitRbOracle(pars, m.ea, va, vpar)
    one = c.arr([0, 0])
    keep = lib.Keep(c)
    if warm == 3:
        profit.foreign(c, "ProfitRbOracle")
    elif warm:
        w = profit.point(c, m, "w")
        lw = worst(c, m, w.x)
        if warm == 1:
            c.assume(c.gt(w.x[0], m.lk))
        else:
            c.assume(c.And(c.le(w.x[0], m.lk), c.le(w.lQ, lw)))
        keep.add(o.assess_optim(profit.refill(one, w.x) if inplace else c.arr(w.x), w.gamma)[0][0])
    q = profit.point(c, m)
    xa = profit.refill(one, q.x) if inplace else c.arr(q.x)
    lC = worst(c, m, q.x)
    C = c.exp(lC)
    profit.monotone(c, [(q.lQ, q.Q), (lC, C)])
    bad1, bad2 = c.gt(q.x[0], m.lk), c.gt(q.lQ, lC)
    (g, b), g1 = o.assess_optim(xa, q.gamma)
    keep.check()
    c.prove(c.And(*[c.eq(m.ea[i], m.a[i]) for i in range(2)], *[c.eq(va[i], nom[i]) for i in range(2)], *[c.eq(xa[i], q.x[i]) for i in range(2)]),
            "elasticities, prices and the point are not modified")
    if g1 is not None:
        c.reach("accepted")
        c.prove(c.And(c.Not(bad1), c.Not(bad2)), "an accepted point satisfies both constraints in the worst case")
        c.prove(c.eq(g1, C - q.vy), "the new level is the worst-case profit of the point")
        c.prove(c.ge(g1, q.gamma), "the level does not fall")
        c.prove(c.ge(b, 0), "offset >= 0")
        if not warm:
            # any parameter set in the box: elasticities a + s, price worst + tp, input prices v - t
            s, t = [c.real("s0"), c.real("s1")], [c.real("t0"), c.real("t1")]
            tp = c.real("tp")
            for i in range(2):
                c.assume(c.And(c.le(s[i], m.e[i]), c.ge(s[i], -m.e[i]), c.ge(t[i], 0), c.le(t[i], 2 * e5)))
            c.assume(c.And(c.ge(tp, 0), c.le(tp, 2 * e3)))
            l2 = m.lp + (m.a[0] + s[0]) * q.x[0] + (m.a[1] + s[1]) * q.x[1]
            C2 = c.exp(l2)
            c.prove(c.ge(l2, lC), "output of any parameter set is at least the worst case")
            profit.monotone(c, [(lC, C), (l2, C2)])
            c.prove(c.ge(C2, C), "output of any parameter set is at least the worst case (value)")
            c.prove(c.ge((1 + tp * m.A / m.P) * C2 - (m.v[0] - t[0]) * q.y[0] - (m.v[1] - t[1]) * q.y[1], g1),
                    "the level is reached for every parameter set in the box")
        profit.valid_cut(c, m, q.x, q.y, C, lC, g1, lib.lst(g), b, "the optimality cut keeps every point that is at least as good in the worst case", e=m.e)
        return
    c.reach("cut")
    c.prove(c.Or(bad1, bad2), "a point that satisfies both constraints in the worst case is accepted")
    c.prove(c.gt(b, 0), "a violated constraint gives a positive offset")
    profit.valid_cut(c, m, q.x, q.y, q.Q, q.lQ, q.gamma, lib.lst(g), b, "the cut keeps every robustly feasible point", e=m.e)


TASKS = [dict(name=f"robust_after{w}", fn=run, params=dict(warm=w), require=["accepted", "cut"], bounds="every parameter set, box, point and level; earlier query of kind %d" % w, witnesses=4)
         for w in range(3)]
TASKS += [dict(name=f"robust_after{w}_inplace", fn=run, params=dict(warm=w, inplace=True), require=["accepted", "cut"], bounds="the same; the earlier query was about the same array, refilled", witnesses=4) for w in (1, 2)]
TASKS.append(dict(name="robust_other", fn=run, params=dict(warm=3), require=["accepted", "cut"], bounds="the same; another oracle used in between", witnesses=4))
TASKS.append(dict(name="robust_int", fn=run, params=dict(warm=0, ints=True), require=["accepted", "cut"], bounds="elasticities given as an array of integers; every box, point and level", witnesses=4))
task = lib.names(TASKS)
