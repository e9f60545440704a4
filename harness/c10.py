"""C10 cutting_plane_optim_q: best point/objective pairing as in C09, with the retry protocol: an ineffective cut is retried only
while the oracle offers alternatives, and the retry flag is cleared by a successful cut."""
from . import lib, proto

ASSUMPTIONS = ["oracle and space answer arbitrarily (symbolic schedule) among Success, NoSoln, NoEffect; the oracle returns a fresh candidate array"]


class Oracle:
    def __init__(self, c, quiet=0, mode="fresh"):
        self.c, self.asked, self.quiet, self.cuts = c, [], quiet, proto.Cuts(c, mode)

    def assess_optim_q(self, x, gamma, retry):
        c, k = self.c, len(self.asked)
        if k < self.quiet:
            better = c.num(k) if k % 3 == 0 else None
            more, xq = True, [c.num(k), c.num(-k)]
        else:
            better = c.real(f"gamma{k}") if c.boolean(f"better{k}") else None
            more = c.boolean(f"more{k}")
            xq = [c.real(f"q{k}_{i}") for i in range(2)]
        cut = self.cuts(k, k >= self.quiet)
        self.asked.append((lib.lst(x.copy()), gamma, retry, proto.snapshot(cut), xq, better, more))
        return cut, c.arr(xq), better, more


class Before:
    """another search, over before this one starts"""

    def __init__(self, c):
        self.c, self.k = c, 0

    def assess_optim_q(self, x, gamma, retry):
        c = self.c
        self.k += 1
        return proto.mkcut(c, self.k, c.num(1)), c.arr([self.k, 3]), c.num(self.k) if self.k % 2 else None, True


def run(c, kmax, quiet=0, again=False, mode="fresh"):
    o, sp = Oracle(c, quiet, mode), proto.Space(c, statuses=("Success", "NoSoln", "NoEffect"), quiet=quiet)
    g0 = c.real("gamma")
    opt = proto.options(c, kmax, quiet)
    frozen = proto.Frozen(c, opt, lambda: c.mod("ellalgo.cutting_plane").cutting_plane_optim_q(Before(c), proto.Space(c, quiet=10 ** 6), c.num(7), opt) if again else None)
    x, gamma, niter = c.mod("ellalgo.cutting_plane").cutting_plane_optim_q(o, sp, g0, opt)
    frozen.check()
    N, log, asked = frozen.N, sp.log, o.asked
    c.prove(len(asked) == len(log), "one update per assessment")
    best_x, best_g, retry = None, g0, False
    stops = []
    for (at, g, rt, cut, xq, better, more), rec in zip(asked, log):
        kind, got, before, st, t = rec
        c.prove(c.eq(g, best_g), "the oracle is told the best objective so far")
        c.prove(proto.same_vec(c, at, before), "the oracle judged the current centre")
        c.prove(bool(rt) == retry, "retry flag: set by an ineffective cut with alternatives left, cleared by a successful one")
        c.prove(proto.same_cut(c, got, cut), "the cut is passed on unchanged")
        c.prove(kind == "q", "quantised update is used")
        if better is not None:
            best_x, best_g = xq, better
        retry = st == "NoEffect"
        stops.append(c.Or(st == "NoSoln", st == "NoEffect" and not more, c.lt(t, opt.tolerance)))
    for s in stops[:-1]:
        c.prove(c.Not(s), "no assessment after a reason to stop")
    c.reach("improved" if best_x is not None else "never improved")
    c.prove((x is None) == (best_x is None), "a point is returned exactly if an improvement was found")
    if best_x is not None and x is not None:
        c.prove(proto.same_vec(c, x, best_x), "the returned point is the candidate of the last improvement")
    c.prove(c.eq(gamma, best_g), "the returned objective is that of the returned point")
    c.prove(len(asked) <= N, "at most max_iters iterations")
    if any(a[2] for a in asked):
        c.reach("retried")
    if stops and c.is_true(stops[-1]):
        c.reach("stopped")
        c.prove(niter == len(log) - 1, "number of iterations = index of the last cut")
    else:
        c.reach("limit")
        c.prove(len(log) == N and niter == N, "otherwise the limit was reached and is reported")


def default(c):
    f = c.mod("ellalgo.cutting_plane").cutting_plane_optim_q

    class O:
        n = 0

        def assess_optim_q(self, x, gamma, retry):
            self.n += 1
            return proto.mkcut(c, self.n, c.num(0)), x, None, True

    def call():
        x, g, k = f(O(), proto.Space(c, quiet=10 ** 6), c.num(5))
        c.prove(x is None and c.eq(g, 5), "nothing found")
        c.prove(k == 2000, "default iteration limit is used")
    proto.defaults(c, call)


R = ["improved", "never improved", "stopped", "limit", "retried"]
TASKS = [dict(name="schedules", fn=run, params=dict(kmax=4), require=R, bounds="up to 4 iterations, every oracle/space schedule, every tolerance and objective value"),
         dict(name="long", fn=run, params=dict(kmax=2, quiet=100), require=["improved", "stopped", "limit", "retried"], bounds="100 uneventful iterations, then 2 with every schedule"),
         dict(name="again", fn=run, params=dict(kmax=3, again=True), require=R, bounds="up to 3 iterations, after another search with the same options"),
         dict(name="stored", fn=run, params=dict(kmax=3, mode="stored"), require=R, bounds="up to 3 iterations, the oracle gives the same cut object every time"),
         dict(name="refill", fn=run, params=dict(kmax=3, mode="refill"), require=R, bounds="up to 3 iterations, the oracle refills one gradient array"),
         dict(name="default", fn=default, params={}, require=["defaults"], bounds="default options"),
         dict(name="schedules5", fn=run, params=dict(kmax=5), require=R, bounds="up to 5 iterations", tier="thorough"),
         dict(name="verylong", fn=run, params=dict(kmax=1, quiet=400), require=[], bounds="400 uneventful iterations, then 1 with every schedule", tier="thorough")]
task = lib.names(TASKS)
