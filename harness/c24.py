"""C24 the alternative formulations in EllCalcCore compute the same update parameters."""
from . import lib

ASSUMPTIONS = ["domain of the formulas: |offsets| < tau, offsets not summing to 0 where the formulation divides by that sum"]


def core(c, which):
    n = c.integer("n", 2)
    k = c.mod("ellalgo.ell_calc_core").EllCalcCore(n)
    t = c.real("t", pos=True)
    T = t * t
    b0, b1 = c.real("b0"), c.real("b1")

    def same(p, q, tag):
        c.reach(tag)
        for a, b, nm in zip(p, q, ("rho", "sigma", "delta")):
            c.prove(c.eq(a, b), f"{tag}: same {nm}")
    if which in ("central", "central_slab", "bias"):
        if which == "central":
            same(k.calc_central_cut(t), k.calc_bias_cut(c.num(0), t), "central cut = deep cut at 0")
        elif which == "bias":
            c.assume(c.And(c.lt(b0, t), c.gt(b0, -t)))
            same(k.calc_bias_cut(b0, t), k.calc_bias_cut_fast(b0, t, t + n * b0), "fast deep cut")
        else:
            c.assume(c.And(c.gt(b1, 0), c.lt(b1, t)))
            same(k.calc_parallel_central_cut(b1, T), k.calc_parallel_central_cut_old(b1, T), "central slab, old formulation")
            same(k.calc_parallel_central_cut(b1, T), k.calc_parallel_bias_cut(c.num(0), b1, T), "central slab = slab from 0")
        return
    c.assume(c.And(c.lt(b0, b1), c.lt(b1, t), c.gt(b0, -t)))
    c.assume(c.ne(b0 + b1, 0))
    eta = T + n * b0 * b1
    c.assume(c.gt(eta, 0))
    ref = k.calc_parallel_bias_cut(b0, b1, T)
    if which == "fast":
        same(ref, k.calc_parallel_bias_cut_fast(b0, b1, T, b0 * b1, eta), "fast slab")
    elif which == "fast2":
        same(ref, k.calc_parallel_bias_cut_fast2(b0, b1, T, b0 * b1, eta), "fast2 slab")
    elif which == "old":
        same(ref, k.calc_parallel_bias_cut_old(b0, b1, T), "old slab")
    elif which == "fast_old":
        same(ref, k.calc_parallel_bias_cut_fast_old(b0, b1, T, b0 * b1, eta), "fast_old slab")


TASKS = [dict(name=w, fn=core, params=dict(which=w), require=[], bounds="every n >= 2, every tau > 0, offsets within (-tau, tau)", budget_s=300)
         for w in ("central", "bias", "central_slab", "fast", "fast2", "old", "fast_old")]
task = lib.names(TASKS)
