"""C12 BSearchAdaptor: each query works on a copy of the space; the oracle is set to the queried level first; the answer is True
exactly if a point was accepted, and then the centre is that point and the shape is untouched; a failed query changes nothing."""
from . import lib, proto

ASSUMPTIONS = ["space: Ell / EllStable with squared semi-axes (4, 9) and any centre; scripted oracle with axis cuts"]


class Oracle:
    def __init__(self, c, slab=False):
        self.slab = slab
        self.c, self.levels, self.asked, self.now = c, [], [], []

    def update(self, gamma):
        self.levels.append(gamma)
        self.now = []

    def assess_feas(self, x):
        c, q, k = self.c, len(self.levels), len(self.now)
        what = c.choice(f"answer{q}_{k}", 3) if k < 2 else c.choice(f"answer{q}_{k}", 2)
        self.now.append(what)
        self.asked.append((q, lib.lst(x.copy()), what))
        if what == 0:
            return None
        if what == 1:
            return c.arr([0, 1]), c.num(1000)                    # misses the ellipsoid
        if self.slab and k == 0:
            return c.arr([1, 0]), (c.num(1), c.const("3/2"))
        return (c.arr([1, 0]), c.num(1)) if k == 0 else (c.arr([0, -2]), c.num(3))     # offset tau/2: stays rational


def run(c, kind, queries, limit=False, used=False, slab=False):
    x0 = [c.real("x0"), c.real("x1")]
    given = c.arr(x0)
    sp = lib.module_cls(c, kind)(c.arr([4, 9]), given)
    o = Oracle(c, slab)
    t0 = c.num(0)
    if used:
        # an earlier cut without effect: the shape is as before, the stopping measure is not zero
        st = sp.update_q((c.arr([1, 0]), c.num(-2)))
        c.prove(st == lib.status(c).NoEffect, "a shallow cut has no effect")
        t0 = c.num(4)
    if slab:
        sp.helper.use_parallel_cut = False
        sp.no_defer_trick = True
    B = c.mod("ellalgo.cutting_plane").BSearchAdaptor
    if limit:
        opt = c.mod("ellalgo.ell_config").Options()
        opt.max_iters = c.choice("max_iters", 3)
        ad = B(o, sp, opt)
    else:
        opt = None
        ad = B(o, sp)
    cur = x0
    for q in range(queries):
        g = c.real(f"gamma{q}")
        mark = len(o.asked)
        r = ad.assess_bs(g)
        mine = o.asked[mark:]
        c.prove(len(o.levels) == q + 1 and c.eq(o.levels[q], g), "the oracle is set to the queried level once, before it is asked")
        c.prove(all(m[0] == q + 1 for m in mine), "the oracle is not asked before it is set")
        if mine:
            c.prove(proto.same_vec(c, mine[0][1], cur), "the query starts at the current centre")
        if opt is not None:
            c.prove(len(mine) <= opt.max_iters, "the options are honoured")
        found = bool(mine) and mine[-1][2] == 0
        c.prove(bool(r) == found, "True exactly if a point was accepted")
        c.reach("accepted" if found else "refused")
        if found:
            cur = mine[-1][1]
        c.prove(proto.same_vec(c, ad.x_best, cur), "x_best is the last accepted point")
        c.prove(proto.same_vec(c, sp.xc(), cur), "the centre of the caller's space follows the accepted point only")
        if q == 0:
            c.prove(c.eq(sp.tsq(), t0), "the stopping measure of the caller's space is untouched")
        P = lib.observe_P(c, sp, 2)
        c.prove(c.And(c.eq(P[0][0], 4), c.eq(P[1][1], 9), c.eq(P[1][0], 0)), "the shape of the caller's space is untouched")
        if slab and len(mine) > 1 and mine[0][2] == 2:
            # the far plane is ignored: one-sided cut at half the half-width 2
            c.prove(proto.same_vec(c, mine[1][1], [mine[0][1][0] - c.const("4/3"), mine[0][1][1]]), "the private copy keeps the settings of the space")
        if slab:
            sp.helper.use_parallel_cut = False
        if not any(m[2] == 0 for m in o.asked):
            c.prove(proto.same_vec(c, given, x0), "a refused query does not move the caller's centre array")


TASKS = []
for kind in ("Ell", "EllStable"):
    TASKS.append(dict(name=f"{kind}_two", fn=run, params=dict(kind=kind, queries=2), require=["accepted", "refused"], bounds="two queries of up to 3 assessments each, every schedule, any centre and level"))
    TASKS.append(dict(name=f"{kind}_limit", fn=run, params=dict(kind=kind, queries=2, limit=True), require=["accepted", "refused"], bounds="iteration limits 0..2"))
    TASKS.append(dict(name=f"{kind}_three", fn=run, params=dict(kind=kind, queries=3), require=["accepted", "refused"], bounds="three queries"))
    TASKS.append(dict(name=f"{kind}_used", fn=run, params=dict(kind=kind, queries=2, used=True), require=["accepted", "refused"], bounds="the space has seen an earlier cut"))
    TASKS.append(dict(name=f"{kind}_settings", fn=run, params=dict(kind=kind, queries=2, slab=True), require=["accepted", "refused"], bounds="parallel cuts switched off and deferral switched off on the space"))
task = lib.names(TASKS)
