"""C11 bsearch: for a monotone oracle the result is feasible and within the tolerance of the smallest feasible value; for any
oracle the result is the initial upper end or a value the oracle accepted; every probe lies inside the current interval."""
from . import lib, proto

ASSUMPTIONS = ["lower <= upper", "at most kmax bisection steps (bound)"]


class Oracle:
    def __init__(self, c, theta=None, quiet=0, zero=False):
        self.c, self.theta, self.asked, self.quiet, self.zero = c, theta, [], quiet, zero

    def assess_bs(self, gamma):
        c = self.c
        if self.theta is not None:
            r = c.is_true(c.ge(gamma, self.theta))
        elif len(self.asked) < self.quiet:
            r = self.zero or len(self.asked) % 3 == 0
        else:
            r = c.boolean(f"ok{len(self.asked)}")
        self.asked.append((gamma, r))
        return r


def options(c, kmax, tol=None, quiet=0):
    o = c.mod("ellalgo.ell_config").Options()
    o.max_iters = quiet + c.choice("max_iters", kmax + 1)
    o.tolerance = c.real("tol", pos=True) if tol is None else tol
    return o


def run(c, kmax, mono, kind="float", quiet=0, again=False, zero=False):
    f = c.mod("ellalgo.cutting_plane").bsearch
    if kind == "float":
        lo, up = c.num(0) if zero else c.real("lo"), c.real("up")
    else:
        lo, up = c.integer("lo"), c.integer("up")
    c.assume(c.le(lo, up))
    theta = None
    if mono:
        theta = c.real("theta")
        c.assume(c.And(c.lt(lo, theta), c.le(theta, up)))
    o = Oracle(c, theta, quiet, zero)
    opt = options(c, kmax, quiet=quiet)
    if quiet:
        c.assume(c.ge(up - lo, 2 ** quiet * opt.tolerance))
    frozen = proto.Frozen(c, opt, (lambda: f(Oracle(c, c.num(3), 0), (c.num(0), c.num(8)), opt)) if again else None)
    res, niter = f(o, (lo, up), opt)
    frozen.check()
    c.prove(niter == len(o.asked), "iterations = oracle calls")
    c.prove(niter <= opt.max_iters, "at most max_iters iterations")
    a, b = lo, up
    for g, ok in o.asked:
        if kind == "float":
            c.prove(c.eq(2 * g, a + b), "probes bisect the interval")
        else:
            # whole-number probes: a midpoint rounded to a whole number inside the interval
            c.prove(c.And(c.ge(g, a), c.le(g, b)), "probes stay inside the interval")
            c.prove(c.And(c.lt(2 * g - (a + b), 2), c.lt((a + b) - 2 * g, 2)), "probes are the rounded midpoint")
        c.prove(c.ge((b - a), 2 * opt.tolerance), "no probe once the interval is below the tolerance")
        if ok:
            b = g
        else:
            a = g
    c.prove(c.eq(res, b), "the result is the upper end of the final interval")
    acc = [g for g, ok in o.asked if ok]
    c.prove(c.eq(res, acc[-1] if acc else up), "the result is the last accepted value, or the initial upper end")
    if not c.is_true(c.lt(b - a, 2 * opt.tolerance)):
        c.reach("limit")
        c.prove(niter == opt.max_iters, "stops early only when the interval is below the tolerance")
    else:
        c.reach("converged")
        if mono:
            c.prove(c.And(c.ge(res, theta), c.lt(res - theta, 2 * opt.tolerance)), "result is feasible and within twice the tolerance of the threshold")
    if kind == "int":
        c.prove(is_int(c, res), "whole-number interval gives a whole-number result")


def is_int(c, v):
    import numbers
    return isinstance(v, numbers.Integral)


def default(c):
    f = c.mod("ellalgo.cutting_plane").bsearch
    o = Oracle(c, c.const("1/3") if c.symbolic else 1 / 3)
    calls = []

    class Never:
        def assess_bs(self, g):
            calls.append(g)
            return True
    res, k = f(Never(), (c.num(0), c.num(1)))
    calls.clear()
    res, k = f(Never(), (c.num(0), c.num(1)))
    c.reach("default")
    c.prove(k == len(calls) and c.ge(k, 60), "default tolerance")
    c.prove(c.lt(k, 2000), "default tolerance stops the search")
    c.prove(c.And(c.gt(res, 0), c.lt(res * c.const("10000000000000000000"), 1)), "converged to the lower end")


R = ["limit", "converged"]
TASKS = [dict(name="any", fn=run, params=dict(kmax=6, mono=False), require=R, bounds="up to 6 bisections, every answer sequence, every interval and tolerance"),
         dict(name="mono", fn=run, params=dict(kmax=6, mono=True), require=R, bounds="up to 6 bisections, every threshold"),
         dict(name="int_any", fn=run, params=dict(kmax=4, mono=False, kind="int"), require=R, bounds="up to 4 bisections of a whole-number interval"),
         dict(name="int_mono", fn=run, params=dict(kmax=4, mono=True, kind="int"), require=R, bounds="up to 4 bisections of a whole-number interval"),
         dict(name="long", fn=run, params=dict(kmax=3, mono=False, quiet=40), require=R, bounds="40 scripted bisections, then 3 with every answer"),
         dict(name="long_zero150", fn=run, params=dict(kmax=1, mono=False, quiet=150, zero=True), require=R, bounds="150 accepted bisections of an interval from 0, then 1 with every answer"),
         dict(name="long_zero400", fn=run, params=dict(kmax=0, mono=False, quiet=400, zero=True), require=["limit"], bounds="400 accepted bisections of an interval from 0"),
         dict(name="again", fn=run, params=dict(kmax=4, mono=True, again=True), require=R, bounds="up to 4 bisections, after another search with the same options"),
         dict(name="default", fn=default, params={}, require=["default"], bounds="default options on [0,1]"),
         dict(name="mono9", fn=run, params=dict(kmax=9, mono=True), require=R, bounds="up to 9 bisections", tier="thorough"),
         dict(name="int_mono6", fn=run, params=dict(kmax=6, mono=True, kind="int"), require=R, bounds="up to 6 bisections of a whole-number interval", tier="thorough")]
task = lib.names(TASKS)
