"""C09 cutting_plane_optim: the returned point and objective belong together and are the last improvement the oracle reported;
improvements use central cuts, everything else deep cuts; the search stops exactly for the documented reasons."""
from . import lib, proto

ASSUMPTIONS = ["oracle and space answer arbitrarily (symbolic schedule); the space moves its centre in place, as Ell and EllStable do"]


class Oracle:
    def __init__(self, c, quiet=0, mode="fresh"):
        self.c, self.asked, self.quiet, self.cuts = c, [], quiet, proto.Cuts(c, mode)

    def assess_optim(self, x, gamma):
        c, k = self.c, len(self.asked)
        if k < self.quiet:
            better = c.num(k) if k % 3 == 0 else None
        else:
            better = c.real(f"gamma{k}") if c.boolean(f"better{k}") else None
        cut = self.cuts(k, k >= self.quiet)
        self.asked.append((lib.lst(x.copy()), gamma, proto.snapshot(cut), better))
        return cut, better


class Before:
    """another search, over before this one starts"""

    def __init__(self, c):
        self.c, self.k = c, 0

    def assess_optim(self, x, gamma):
        self.k += 1
        return proto.mkcut(self.c, self.k, self.c.num(1)), self.c.num(self.k) if self.k % 2 else None


def run(c, kmax, quiet=0, again=False, mode="fresh"):
    o, sp = Oracle(c, quiet, mode), proto.Space(c, quiet=quiet)
    g0 = c.real("gamma")
    opt = proto.options(c, kmax, quiet)
    frozen = proto.Frozen(c, opt, lambda: c.mod("ellalgo.cutting_plane").cutting_plane_optim(Before(c), proto.Space(c, quiet=10 ** 6), c.num(7), opt) if again else None)
    x, gamma, niter = c.mod("ellalgo.cutting_plane").cutting_plane_optim(o, sp, g0, opt)
    frozen.check()
    N, log, asked = frozen.N, sp.log, o.asked
    c.prove(len(asked) == len(log), "one update per assessment")
    best_x, best_g = None, g0
    for (at, g, cut, better), (kind, got, before, st, t) in zip(asked, log):
        c.prove(c.eq(g, best_g), "the oracle is told the best objective so far")
        c.prove(proto.same_vec(c, at, before), "the oracle judged the current centre")
        c.prove(proto.same_cut(c, got, cut), "the cut is passed on unchanged")
        c.prove(kind == ("bias" if better is None else "central"), "central cut after an improvement, deep cut otherwise")
        if better is not None:
            best_x, best_g = at, better
    for rec in log[:-1]:
        c.prove(c.Not(proto.stop_reason(c, rec, opt.tolerance)), "no update after a reason to stop")
    c.reach("improved" if best_x is not None else "never improved")
    c.prove((x is None) == (best_x is None), "a point is returned exactly if an improvement was found")
    if best_x is not None and x is not None:
        c.prove(proto.same_vec(c, x, best_x), "the returned point is the centre of the last improvement")
    c.prove(c.eq(gamma, best_g), "the returned objective is that of the returned point")
    c.prove(len(asked) <= N, "at most max_iters iterations")
    if log and c.is_true(proto.stop_reason(c, log[-1], opt.tolerance)):
        c.reach("stopped")
        c.prove(niter == len(log) - 1, "number of iterations = index of the last cut")
    else:
        c.reach("limit")
        c.prove(len(log) == N and niter == N, "otherwise the limit was reached and is reported")


def default(c):
    f = c.mod("ellalgo.cutting_plane").cutting_plane_optim

    class O:
        n = 0

        def assess_optim(self, x, gamma):
            self.n += 1
            return proto.mkcut(c, self.n, c.num(0)), None

    def call():
        x, g, k = f(O(), proto.Space(c, quiet=10 ** 6), c.num(5))
        c.prove(x is None and c.eq(g, 5), "nothing found")
        c.prove(k == 2000, "default iteration limit is used")
    proto.defaults(c, call)


R = ["improved", "never improved", "stopped", "limit"]
TASKS = [dict(name="schedules", fn=run, params=dict(kmax=5), require=R, bounds="up to 5 iterations, every oracle/space schedule, every tolerance and objective value"),
         dict(name="long", fn=run, params=dict(kmax=2, quiet=100), require=["improved", "stopped", "limit"], bounds="100 uneventful iterations, then 2 with every schedule"),
         dict(name="again", fn=run, params=dict(kmax=3, again=True), require=R, bounds="up to 3 iterations, after another search with the same options"),
         dict(name="stored", fn=run, params=dict(kmax=4, mode="stored"), require=R, bounds="up to 4 iterations, the oracle gives the same cut object every time"),
         dict(name="refill", fn=run, params=dict(kmax=4, mode="refill"), require=R, bounds="up to 4 iterations, the oracle refills one gradient array"),
         dict(name="default", fn=default, params={}, require=["defaults"], bounds="default options"),
         dict(name="schedules7", fn=run, params=dict(kmax=7), require=R, bounds="up to 7 iterations", tier="thorough"),
         dict(name="verylong", fn=run, params=dict(kmax=1, quiet=400), require=[], bounds="400 uneventful iterations, then 1 with every schedule", tier="thorough")]
task = lib.names(TASKS)
