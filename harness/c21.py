"""C21 LowpassOracle.assess_optim: judged against the level it is given (not an older one); the new level is the largest stopband
response of the point, never above the old one; its cut keeps every point that is at least as good."""
from . import lib, lowpass, profit

ASSUMPTIONS = lowpass.ASSUMPTIONS + ["level >= 0; at least one sampled stopband frequency"]


def run(c, ndim, wpass, wstop, warm, inplace=False, other=False, free=None):
    m = lowpass.setup(c, ndim, wpass, wstop)
    m.free = free
    one = c.arr([0] * ndim)
    keep = lib.Keep(c)
    if other:
        lowpass.foreign(c, ndim)
    gw = c.real("gw")
    c.assume(c.ge(gw, 0))
    w = lowpass.warm_up(c, m, warm, gw)
    if w is not None:
        keep.add(m.o.assess_optim(profit.refill(one, w) if inplace else c.arr(w), gw)[0][0])
    x = lowpass.point(c, m, "x")
    gamma = c.real("gamma")
    c.assume(c.ge(gamma, 0))
    xa = profit.refill(one, x) if inplace else c.arr(x)
    (g, b), g1 = m.o.assess_optim(xa, gamma)
    c.prove(c.And(*[c.eq(xa[j], x[j]) for j in range(ndim)]), "the point is not modified")
    keep.check()
    ok = lowpass.met(c, m, x, gamma)
    g = lib.lst(g)
    if g1 is None:
        c.reach("cut")
        c.prove(c.Not(ok), "a point that meets the specification at the given level is accepted")
        c.prove(c.gt(lowpass.near(b), 0), "the cut excludes the point it was asked about")
        lowpass.keeps(c, m, x, g, b, gamma, "the cut keeps every point that meets the specification at the given level")
        return
    c.reach("accepted")
    c.prove(ok, "an accepted point meets the specification at the given level")
    rs = [lowpass.resp(m, k, x) for k in m.stopb]
    c.prove(c.And(*[c.ge(g1, v) for v in rs]), "the new level bounds the stopband response of the point")
    c.prove(c.Or(*[c.eq(g1, v) for v in rs]), "the new level is attained in the stopband")
    c.prove(c.le(g1, gamma), "the level does not rise")
    c.prove(c.ge(lowpass.near(b), 0), "offset >= 0")
    lowpass.keeps(c, m, x, g, b, g1, "the optimality cut keeps every point that is at least as good")


def standard(c, ndim, free=None):
    """the case made by create_lowpass_case, at any level"""
    m = lowpass.setup(c, ndim, None, None, standard="sized")
    m.free = free
    eps = c.const(lowpass.EPS)
    x = lowpass.point(c, m, "x")
    gamma = c.real("gamma", nonneg=True)
    (g, b), g1 = m.o.assess_optim(c.arr(x), gamma)
    g = lib.lst(g)
    if g1 is None:
        c.reach("cut")
        c.prove(c.Not(lowpass.met(c, m, x, gamma, eps)), "a point that meets the standard specification at the given level is accepted")
        c.prove(c.gt(lowpass.near(b), 0), "the cut excludes the point it was asked about")
        lowpass.keeps(c, m, x, g, b, gamma, "the cut keeps every point that meets the standard specification at the given level", eps)
        return
    c.reach("accepted")
    c.prove(lowpass.met(c, m, x, gamma, -eps), "an accepted point meets the standard specification at the given level")
    rs = [lowpass.resp(m, k, x) for k in m.stopb]
    c.prove(c.And(*[c.ge(g1, v) for v in rs]), "the new level bounds the stopband response of the point")
    c.prove(c.Or(*[c.eq(g1, v) for v in rs]), "the new level is attained in the stopband")
    c.prove(c.And(c.le(g1, gamma), c.ge(lowpass.near(b), 0)), "the level does not rise, offset >= 0")
    lowpass.keeps(c, m, x, g, b, g1, "the optimality cut keeps every point that is at least as good", eps)


CASES = [
    (1, 0.5, 0.7, (0, 1), ()),
    (2, 0.12, 0.20, (0, 2, 3, 5), (1,)),
    (2, 0.35, 0.36, (0,), (1, 2, 3, 5)),
    (2, 0.12, 0.61, (0, 1), (2, 3, 5)),
    (2, 0.0, 0.97, (0, 1, 2, 5), ()),
    (3, 0.12, 0.94, (0, 1, 4, 6, 7), (2, 3, 5)),
    (3, 0.12, 0.20, (), (0, 1, 2, 3, 4, 5, 6, 7)),
    (4, 0.08, 0.95, (), (0, 1)),
]
WARM = [None, "ok", ("passb", 0, 1), ("passb", -1, -1), ("stopb", 0, -1), ("stopb", -1, 1), ("mid", 0, -1), ("mid", -1, -1)]
TASKS = []
for ci, (n, a, b, quick, thorough) in enumerate(CASES):
    for wi in quick + thorough:
        TASKS.append(dict(name=f"n{n}_{ci}_after{wi}", fn=run, params=dict(ndim=n, wpass=a, wstop=b, warm=WARM[wi]), require=["accepted", "cut"], max_paths=4000, witnesses=4,
                          tier="quick" if wi in quick else "thorough", bounds=f"{n} coefficients, bands ({a}, {b}); every coefficient vector, bounds and level; earlier query: {WARM[wi]}"))
for wi in (2, 3, 5):
    TASKS.append(dict(name=f"n2_inplace_after{wi}", fn=run, params=dict(ndim=2, wpass=0.12, wstop=0.20, warm=WARM[wi], inplace=True), require=["accepted", "cut"], max_paths=4000, witnesses=4,
                      bounds=f"2 coefficients, bands (0.12, 0.20); earlier query about the same array, refilled: {WARM[wi]}"))
TASKS.append(dict(name="n2_other", fn=run, params=dict(ndim=2, wpass=0.12, wstop=0.20, warm=None, other=True), require=["accepted", "cut"], max_paths=4000, witnesses=4, bounds="2 coefficients, bands (0.12, 0.20); another oracle used in between"))
for n, a, b, quick in ((6, 0.12, 0.20, (0,)), (12, 0.08, 0.61, (0, 1)), (32, 0.12, 0.20, ())):
    for free in ((0,), (1,), (n - 1,)):
        TASKS.append(dict(name=f"wide{n}_{free[0]}", fn=run, params=dict(ndim=n, wpass=a, wstop=b, warm=None, free=free), require=["cut"], max_paths=4000, witnesses=4, tier="quick" if free[0] in quick else "thorough",
                          bounds=f"{n} coefficients, bands ({a}, {b}), coefficient {free[0]} free, the others fixed; every bounds"))
for n in (20, 48):
    TASKS.append(dict(name=f"flat{n}", fn=run, params=dict(ndim=n, wpass=0.12, wstop=0.20, warm=None, free="flat"), require=["cut"], max_paths=4000, witnesses=4, bounds=f"{n} coefficients, bands (0.12, 0.20), first coefficient free, the others zero; every bounds"))
TASKS.append(dict(name="standard2", fn=standard, params=dict(ndim=2), require=["accepted", "cut"], max_paths=4000, witnesses=4, bounds="the standard case with 2 coefficients; every coefficient vector and level"))
TASKS.append(dict(name="standard9_0", fn=standard, params=dict(ndim=9, free=(0,)), require=["cut"], max_paths=4000, witnesses=4, bounds="the standard case with 9 coefficients, the first free, the others fixed; every level"))
TASKS.append(dict(name="standard24_flat", fn=standard, params=dict(ndim=24, free="flat"), require=["accepted", "cut"], max_paths=4000, witnesses=4, bounds="the standard case with 24 coefficients, the first free, the others zero; every level"))
task = lib.names(TASKS)
