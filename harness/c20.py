"""C20 LowpassOracle.assess_feas: accepts exactly the coefficient vectors that meet the filter specification at every sampled
frequency; every cut keeps all of them and excludes the point asked about - wherever the round-robin scan stands."""
from . import c21, lib, lowpass, profit

ASSUMPTIONS = lowpass.ASSUMPTIONS


def run(c, ndim, wpass, wstop, warm, inplace=False, other=False, free=None):
    m = lowpass.setup(c, ndim, wpass, wstop)
    m.free = free
    one = c.arr([0] * ndim)
    keep = lib.Keep(c)
    if other:
        lowpass.foreign(c, ndim)
    w = lowpass.warm_up(c, m, warm, m.sp)
    if w is not None:
        r = m.o.assess_feas(profit.refill(one, w) if inplace else c.arr(w))
        keep.add(r[0] if r is not None else None)
    x = lowpass.point(c, m, "x")
    xa = profit.refill(one, x) if inplace else c.arr(x)
    r = m.o.assess_feas(xa)
    c.prove(c.And(*[c.eq(xa[j], x[j]) for j in range(ndim)]), "the point is not modified")
    keep.check()
    ok = lowpass.met(c, m, x, m.sp)
    if r is None:
        c.reach("accepted")
        c.prove(ok, "an accepted point meets the whole specification")
        return
    c.reach("cut")
    c.prove(c.Not(ok), "a point that meets the specification is accepted")
    g, b = r
    c.prove(c.gt(lowpass.near(b), 0), "the cut excludes the point it was asked about")
    lowpass.keeps(c, m, x, lib.lst(g), b, m.sp, "the cut keeps every point that meets the specification")


def standard(c, ndim, free=None, default=False):
    """create_lowpass_case: passband 0..0.12 pi with |H| in [1/1.025, 1.025], stopband from 0.20 pi with |H| <= 0.125"""
    m = lowpass.setup(c, ndim, None, None, standard="default" if default else "sized")
    m.free = free
    eps = c.const(lowpass.EPS)
    x = lowpass.point(c, m, "x")
    r = m.o.assess_feas(c.arr(x))
    if r is None:
        c.reach("accepted")
        c.prove(lowpass.met(c, m, x, m.sp + eps, -eps), "an accepted point meets the standard specification")
        return
    c.reach("cut")
    c.prove(c.Not(lowpass.met(c, m, x, m.sp - eps, eps)), "a point that meets the standard specification is accepted")
    g, b = r
    c.prove(c.gt(lowpass.near(b), 0), "the cut excludes the point it was asked about")
    # no short filter meets the standard specification; that the cut keeps the ones at a higher level is in C21
    if isinstance(free, int):
        lowpass.keeps(c, m, x, lib.lst(g), b, m.sp - eps, "the cut keeps every point that meets the standard specification", eps)


# (coefficients, band edges, earlier queries in quick, in thorough)
CASES = [
    (1, 0.5, 0.7, (0, 1), ()),
    (2, 0.12, 0.20, (0, 1, 2, 3, 5), ()),
    (2, 0.35, 0.36, (0,), (1, 2, 3, 5)),
    (2, 0.12, 0.61, (0,), (1, 2, 3, 5)),
    (2, 0.0, 0.97, (0, 1, 2, 5), ()),
    (3, 0.12, 0.94, (0, 4, 6, 7), (1, 2, 3, 5)),
    (3, 0.12, 0.20, (), (0, 1, 2, 3, 4, 5, 6, 7)),
    (4, 0.08, 0.95, (), (0, 1)),
]
WARM = [None, "ok", ("passb", 0, 1), ("passb", -1, -1), ("stopb", 0, -1), ("stopb", -1, 1), ("mid", 0, -1), ("mid", -1, -1)]
TASKS = []
for ci, (n, a, b, quick, thorough) in enumerate(CASES):
    for wi in quick + thorough:
        TASKS.append(dict(name=f"n{n}_{ci}_after{wi}", fn=run, params=dict(ndim=n, wpass=a, wstop=b, warm=WARM[wi]), require=["accepted", "cut"], max_paths=4000, witnesses=4,
                          tier="quick" if wi in quick else "thorough", bounds=f"{n} coefficients, bands ({a}, {b}); every coefficient vector and bounds; earlier query: {WARM[wi]}"))
for wi in (2, 3, 5):
    TASKS.append(dict(name=f"n2_inplace_after{wi}", fn=run, params=dict(ndim=2, wpass=0.12, wstop=0.20, warm=WARM[wi], inplace=True), require=["accepted", "cut"], max_paths=4000, witnesses=4,
                      bounds=f"2 coefficients, bands (0.12, 0.20); earlier query about the same array, refilled: {WARM[wi]}"))
TASKS.append(dict(name="n2_other", fn=run, params=dict(ndim=2, wpass=0.12, wstop=0.20, warm=None, other=True), require=["accepted", "cut"], max_paths=4000, witnesses=4, bounds="2 coefficients, bands (0.12, 0.20); another oracle used in between"))
for n, a, b, quick in ((6, 0.12, 0.20, (0,)), (12, 0.08, 0.61, (0, 1)), (32, 0.12, 0.20, ())):
    for free in ((0,), (1,), (n - 1,)):
        TASKS.append(dict(name=f"wide{n}_{free[0]}", fn=run, params=dict(ndim=n, wpass=a, wstop=b, warm=None, free=free), require=["cut"], max_paths=4000, witnesses=4, tier="quick" if free[0] in quick else "thorough",
                          bounds=f"{n} coefficients, bands ({a}, {b}), coefficient {free[0]} free, the others fixed; every bounds"))
for n in (20, 48):
    TASKS.append(dict(name=f"flat{n}", fn=run, params=dict(ndim=n, wpass=0.12, wstop=0.20, warm=None, free="flat"), require=["cut"], max_paths=4000, witnesses=4, bounds=f"{n} coefficients, bands (0.12, 0.20), first coefficient free, the others zero; every bounds"))
for n in (2, 3):
    TASKS.append(dict(name=f"standard{n}", fn=standard, params=dict(ndim=n), require=["cut"], max_paths=4000, witnesses=4, bounds=f"the standard case with {n} coefficients; every coefficient vector"))
for n, default in ((16, False), (48, True)):
    TASKS.append(dict(name=f"standard{n}_flat", fn=standard, params=dict(ndim=n, free="flat", default=default), require=["cut"], max_paths=4000, witnesses=4, bounds=f"the standard case with {n} coefficients{' (default)' if default else ''}, first coefficient free, the others zero"))
for n, free, tier in ((48, -1, "quick"), (48, 0, "thorough"), (64, -1, "thorough")):
    TASKS.append(dict(name=f"design{n}_{free if free >= 0 else 'scaled'}", fn=standard, params=dict(ndim=n, free=free, default=n == 48), require=["accepted", "cut"], max_paths=4000, witnesses=4, tier=tier,
                      bounds=f"the standard case with {n} coefficients; a filter that meets it, with {'coefficient ' + str(free) + ' free up to 1/400' if free >= 0 else 'a free factor within 1/50 of 1'}"))
TASKS += [dict(name=t["name"].replace("standard", "standard_level"), fn=c21.standard, params=t["params"], require=t["require"], max_paths=4000, witnesses=4, bounds=t["bounds"]) for t in c21.TASKS if t["fn"] is c21.standard]
task = lib.names(TASKS)
