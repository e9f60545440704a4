"""C08 cutting_plane_feas: a returned point is one the oracle accepted; 'no point' is returned only when the space rejected a cut,
became smaller than the tolerance, or the iteration limit was reached; every cut goes to the space unchanged."""
from . import lib, proto

ASSUMPTIONS = ["oracle and space answer arbitrarily (symbolic schedule)"]


class Oracle:
    def __init__(self, c, quiet=0, mode="fresh"):
        self.c, self.asked, self.quiet, self.cuts = c, [], quiet, proto.Cuts(c, mode)

    def assess_feas(self, x):
        c, k = self.c, len(self.asked)
        cut = None if k >= self.quiet and c.boolean(f"feasible{k}") else self.cuts(k, k >= self.quiet)
        self.asked.append((lib.lst(x.copy()), proto.snapshot(cut)))
        return cut


class Before:
    """another search, over before this one starts"""

    def __init__(self, c):
        self.c, self.k = c, 0

    def assess_feas(self, x):
        self.k += 1
        return None if self.k > 2 else proto.mkcut(self.c, self.k, self.c.num(1))


def run(c, kmax, quiet=0, again=False, mode="fresh"):
    o, sp = Oracle(c, quiet, mode), proto.Space(c, quiet=quiet)
    f = c.mod("ellalgo.cutting_plane").cutting_plane_feas
    opt = proto.options(c, kmax, quiet)
    frozen = proto.Frozen(c, opt, lambda: f(Before(c), proto.Space(c, quiet=10 ** 6), opt) if again else None)
    x, niter = f(o, sp, opt)
    frozen.check()
    N, log, asked = frozen.N, sp.log, o.asked
    # the space is asked for exactly the cuts the oracle gave, as bias cuts, in order, each at the centre it was given for
    cuts = [a for a in asked if a[1] is not None]
    c.prove(len(cuts) == len(log), "one update per cut")
    for (at, cut), (kind, got, before, st, t) in zip(cuts, log):
        c.prove(kind == "bias", "deep-cut update")
        c.prove(proto.same_cut(c, got, cut), "the cut is passed on unchanged")
        c.prove(proto.same_vec(c, at, before), "the oracle judged the current centre")
    for rec in log[:-1]:
        c.prove(c.Not(proto.stop_reason(c, rec, opt.tolerance)), "no update after a reason to stop")
    c.prove(len(asked) <= N, "at most max_iters iterations")
    if asked and asked[-1][1] is None:
        c.reach("feasible")
        c.prove(x is not None, "an accepted centre is returned")
        c.prove(x is not None and proto.same_vec(c, x, asked[-1][0]), "the returned point is the accepted centre")
        c.prove(niter == len(log), "number of iterations = cuts made")
        c.prove(all(a[1] is not None for a in asked[:-1]), "the search ends at the first accepted centre")
    else:
        c.reach("not found")
        c.prove(x is None, "no point is returned unless the oracle accepted it")
        if len(asked) == N and (not log or not c.is_true(proto.stop_reason(c, log[-1], opt.tolerance))):
            c.reach("limit")
            c.prove(niter == N, "iteration limit is reported")
        else:
            c.prove(len(log) > 0 and proto.stop_reason(c, log[-1], opt.tolerance), "gives up only for a reason")
            c.prove(niter == len(log) - 1, "number of iterations = index of the last cut")


def default(c):
    """without options: an oracle that accepts after k cuts is found, one that never accepts stops after the default limit"""
    f = c.mod("ellalgo.cutting_plane").cutting_plane_feas
    never = c.boolean("never")

    class O:
        n = 0

        def assess_feas(self, x):
            self.n += 1
            return None if self.n > 3 and not never else proto.mkcut(c, self.n, c.num(0))

    def call():
        o, sp = O(), proto.Space(c, quiet=10 ** 6)
        x, k = f(o, sp)
        c.prove((x is None) == never, "default options are used")
        c.prove(k == (2000 if never else 3), "default iteration limit is used")
    proto.defaults(c, call)


R = ["feasible", "not found", "limit"]
TASKS = [dict(name="schedules", fn=run, params=dict(kmax=6), require=R, bounds="up to 6 iterations, every oracle/space schedule, every tolerance"),
         dict(name="long", fn=run, params=dict(kmax=2, quiet=150), require=R, bounds="150 uneventful iterations, then 2 with every schedule"),
         dict(name="again", fn=run, params=dict(kmax=4, again=True), require=R, bounds="up to 4 iterations, after another search with the same options"),
         dict(name="stored", fn=run, params=dict(kmax=5, mode="stored"), require=R, bounds="up to 5 iterations, the oracle gives the same cut object every time"),
         dict(name="refill", fn=run, params=dict(kmax=5, mode="refill"), require=R, bounds="up to 5 iterations, the oracle refills one gradient array"),
         dict(name="default", fn=default, params={}, require=["defaults"], bounds="default options"),
         dict(name="schedules9", fn=run, params=dict(kmax=9), require=R, bounds="up to 9 iterations, every oracle/space schedule, every tolerance", tier="thorough"),
         dict(name="verylong", fn=run, params=dict(kmax=1, quiet=400), require=[], bounds="400 uneventful iterations, then 1 with every schedule", tier="thorough")]
task = lib.names(TASKS)
