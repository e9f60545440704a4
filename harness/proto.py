"""Scripted oracle and search space with symbolic answers, for the cutting-plane drivers."""
from . import lib


class Space:
    """search space whose centre moves by arbitrary amounts in place (as Ell and EllStable do), with arbitrary status and tsq"""

    def __init__(self, c, n=2, statuses=("Success", "NoSoln", "NoEffect", "Unknown"), quiet=0):
        self.quiet = quiet     # that many first updates succeed with tsq = 1 (long runs)
        self.c, self.n, self.statuses = c, n, statuses
        self.x0 = [c.real(f"x{i}") for i in range(n)]
        self._xc = c.arr(self.x0)
        self.log = []          # (kind, cut, xc before, status name, tsq)
        self._t = c.num(0)

    def xc(self):
        return self._xc

    def set_xc(self, x):
        self._xc = x

    def tsq(self):
        return self._t

    def _upd(self, kind, cut):
        c, k = self.c, len(self.log)
        St = lib.status(c)
        before = lib.lst(self._xc.copy())
        if k < self.quiet:
            st = "Success"
            self._t = c.num(1)
            self._xc -= c.arr([c.num(k + i) for i in range(self.n)])
        else:
            st = self.statuses[c.choice(f"st{k}", len(self.statuses))]
            self._t = c.real(f"tsq{k}", nonneg=True)
            if st == "Success":
                self._xc -= c.arr([c.real(f"d{k}_{i}") for i in range(self.n)])
        self.log.append((kind, snapshot(cut), before, st, self._t))
        return getattr(St, st)

    def update_bias_cut(self, cut):
        return self._upd("bias", cut)

    def update_central_cut(self, cut):
        return self._upd("central", cut)

    def update_q(self, cut):
        return self._upd("q", cut)


def options(c, kmax, quiet=0):
    """Options with a symbolic tolerance and 0..kmax iterations (after the quiet ones)"""
    o = c.mod("ellalgo.ell_config").Options()
    o.max_iters = quiet + c.choice("max_iters", kmax + 1)
    o.tolerance = c.real("tol", nonneg=True)
    if quiet:
        c.assume(c.le(o.tolerance, 1))
    return o


class Frozen:
    """the options must come out of a search as they went in; `first` runs another search with the same options before"""

    def __init__(self, c, opt, first=None):
        self.c, self.opt = c, opt
        self.N, self.tol, self.verbose = opt.max_iters, opt.tolerance, opt.verbose
        if first is not None:
            first()
            self.check()

    def check(self):
        c, o = self.c, self.opt
        c.prove(c.And(o.max_iters == self.N, c.eq(o.tolerance, self.tol), o.verbose == self.verbose), "a search does not change the options")


def defaults(c, call):
    """the documented defaults: 2000 iterations, tolerance 1e-20"""
    o = c.mod("ellalgo.ell_config").Options()
    c.prove(o.max_iters == 2000, "default iteration limit")
    c.prove(c.eq(o.tolerance * c.const("100000000000000000000"), 1), "default tolerance")
    c.prove(not o.verbose, "quiet by default")
    c.reach("defaults")
    call()
    call()


def same_vec(c, a, b):
    if a is None or b is None:
        return a is b
    a, b = lib.lst(a), lib.lst(b)
    return len(a) == len(b) and c.And(*[c.eq(x, y) for x, y in zip(a, b)])


def stop_reason(c, rec, tol, good=("Success",)):
    """did this update end the search?"""
    kind, cut, before, st, t = rec
    return c.Or(st not in good, c.lt(t, tol))


def mkcut(c, k, beta):
    """one-sided and parallel cuts in turn"""
    return (c.arr([k + 1, -k]), beta if k % 2 == 0 else (beta, beta + 1))


def snapshot(cut):
    """a cut as it is now (the oracle may use its array again)"""
    return (cut[0].copy(), cut[1]) if isinstance(cut, tuple) and hasattr(cut[0], "copy") else cut


class Cuts:
    """how an oracle makes its cuts: "fresh": a new array each time; "stored": the very same cut each time; "refill": one gradient
    array, refilled in place"""

    def __init__(self, c, mode="fresh"):
        self.c, self.mode, self.kept = c, mode, None

    def __call__(self, k, sym):
        c = self.c
        if self.mode == "stored":
            if self.kept is None:
                self.kept = mkcut(c, 2, c.real("beta"))
            return self.kept
        if not sym:
            return mkcut(c, k, c.num(k))
        g = [c.real(f"g{k}_{i}") for i in range(2)]
        beta = c.real(f"beta{k}")
        beta = beta if k % 2 == 0 else (beta, beta + 1)
        if self.mode == "fresh":
            return c.arr(g), beta
        if self.kept is None:
            self.kept = c.arr(g)
        for i in range(2):
            self.kept[i] = g[i]
        return self.kept, beta


def same_cut(c, a, b):
    x, y = a[1], b[1]
    if isinstance(y, tuple) != (isinstance(x, (tuple, list)) or hasattr(x, "shape") and x.shape != ()):
        return False
    if not isinstance(y, tuple):
        x, y = (x,), (y,)
    return c.And(same_vec(c, a[0], b[0]), len(x) == len(y), *[c.eq(p, q) for p, q in zip(x, y)])
