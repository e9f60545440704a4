"""C28 end to end: the real drivers on the real search spaces. Every point of the starting ellipsoid that satisfies all the cuts
made stays in the current ellipsoid, and a search ends for lack of a solution only if there is no such point."""
from fractions import Fraction as F

from . import lib

ASSUMPTIONS = ["scripted oracle: deep cuts along directions in general position chosen so that the states stay rational and a target point is kept, then one cut with a symbolic offset",
               "offsets >= 0 except for the discrete search"]

# offsets (relative to the half-width) for which the next shape has a rational factor
ALPHA = {2: ["37/61", "1/2", "13/37", "11/38", "1/7", "1/26", "1/97"], 3: ["17/33", "1/3", "17/81", "7/57", "1/17", "1/99"]}
SLABS = [("1/10", "3/10"), ("0", "1/2"), ("1/5", "6/5"), ("3/2", "2"), ("-1/20", "3/10"), ("-3/5", "7/10"), ("-2", "-3/2")]      # relative to the half-width
TARGET = {2: ["-11", "17"], 3: ["-8", "13", "5"]}


def history(n, steps, mixed=""):
    """squared semi-axes and centre to start from; per step (gradient, offset, centre before, kind); at the end: centre, B, B^-T.
    mixed: "central": pairs of improving (central) cuts in between (one alone would not stay rational); "noeffect": cuts without effect in between"""
    units = [[F(x) for x in u.split()] for u in lib.UNITS[n]]
    units += [[-x for x in u] for u in units]
    goal = [F(x) for x in TARGET[n]]
    B = [[F(10 * (2 + i)) if i == j else F(0) for j in range(n)] for i in range(n)]
    C = [[1 / B[i][i] if i == j else F(0) for j in range(n)] for i in range(n)]            # B^-T
    xc = [F(i) for i in range(n)]
    d0, x0, out = [B[i][i] ** 2 for i in range(n)], list(xc), []

    def move(u, rho, along, across):
        """the centre moves by rho against u, the shape is scaled by the factors along and across u"""
        nonlocal xc, B, C
        Bu, g = lib.mul(B, u), lib.mul(C, u)
        xc = [xc[i] - rho * Bu[i] for i in range(n)]
        B = [[across * B[i][j] + (along - across) * Bu[i] * u[j] for j in range(n)] for i in range(n)]
        C = [[C[i][j] / across + (1 / along - 1 / across) * g[i] * u[j] for j in range(n)] for i in range(n)]

    for k in range(steps):
        if mixed == "noeffect" and k % 2:
            g = lib.mul(C, units[k % len(units)])
            out += [([F(k) * x for x in g], F(-4 * k) / 3, list(xc), "noeffect")] * (1 + k // 2 % 3)
        if mixed == "central" and k % 2:
            u = units[k % len(units)]
            a, z = F(n, n + 1), list(xc)
            w = sum(C[r][i] * u[i] * (goal[r] - xc[r]) for r in range(n) for i in range(n))
            if w > 0:
                u, w = [-x for x in u], -w
            g = lib.mul(C, u)
            out.append(([F(3, k + 1) * x for x in g], F(0), list(xc), "central"))
            x1 = [xc[i] - lib.mul(B, u)[i] / (n + 1) for i in range(n)]
            second = -1 if w + F(1, n + 1) > 0 else 1
            out.append(([F(3, k + 1) * x if second > 0 else -F(k, 5) * x for x in g], F(0), x1, "central"))
            move(u, F(1, n + 1) + second * a / (n + 1), a * a, F(n * n, n * n - 1))
        w = [sum(C[r][i] * (goal[r] - xc[r]) for r in range(n)) for i in range(n)]         # the target in the coordinates of the ball
        u = min(units, key=lambda v: (max(lib.dot(w, v), F(-3, 4)) if k % 2 else lib.dot(w, v), v))
        p = lib.dot(w, u)
        al = next((F(a) for a in ALPHA[n] if F(a) <= -p), None)
        if al is None:
            raise ValueError("the script has run out of cuts")
        tau = F(k % 3 + 1, 2)
        out.append(([tau * x for x in lib.mul(C, u)], tau * al, list(xc), "deep"))
        s2 = F(n * n, n * n - 1) * (1 - al * al)
        s = F(int(s2.numerator ** 0.5 + 0.5), int(s2.denominator ** 0.5 + 0.5))
        assert s * s == s2
        move(u, (1 + n * al) / (n + 1), n * (1 - al) / (n + 1), s)
    return d0, x0, out, xc, B, C


class Oracle:
    """gives the scripted cuts (gradient, offset, improved objective or None, kind)"""

    def __init__(self, c, cuts):
        self.c, self.cuts = c, cuts
        self.made = []                      # (gradient, offset, centre it was made at, retry, current objective)
        self.level, self.arrays = None, {}

    def _cut(self, x, *more):
        g, b, better, kind = self.cuts[len(self.made)]
        self.made.append((g, b, lib.lst(x.copy())) + more)
        if id(g) not in self.arrays:                 # a repeated cut comes with the same array
            self.arrays[id(g)] = self.c.arr(g)
        return (self.arrays[id(g)], b), better, kind

    def assess_feas(self, x):
        return self._cut(x)[0]

    def assess_optim(self, x, gamma):
        return self._cut(x, False, gamma)[:2]

    def assess_optim_q(self, x, gamma, retry):
        cut, better, kind = self._cut(x, retry, gamma)
        return cut, x.copy(), better, kind == "noeffect"

    def update(self, gamma):
        self.level = gamma


def script(c, hist):
    con = lambda x: c.const(str(x))                                                        # noqa: E731
    rows = {}
    for g, *_ in hist:
        rows.setdefault(tuple(g), [con(x) for x in g])
    return [(rows[tuple(g)], con(b), c.real(f"gamma{i}") if kind == "central" else None, kind) for i, (g, b, at, kind) in enumerate(hist)]


def search(c, driver, o, sp, limit):
    """(a point was returned, the point, iterations)"""
    opt = c.mod("ellalgo.ell_config").Options()
    opt.max_iters, opt.tolerance = limit, c.num(0)
    cp = c.mod("ellalgo.cutting_plane")
    if driver == "feas":
        x, k = cp.cutting_plane_feas(o, sp, opt)
    else:
        x, _, k = (cp.cutting_plane_optim if driver == "optim" else cp.cutting_plane_optim_q)(o, sp, c.num(0), opt)
    return x, k


def inside(c, n, P, z):
    """z'P^-1 z <= 1, multiplied by det P"""
    if n == 2:
        det = P[0][0] * P[1][1] - P[0][1] * P[0][1]
        form = P[1][1] * z[0] * z[0] - 2 * P[0][1] * z[0] * z[1] + P[0][0] * z[1] * z[1]
    else:
        cof = [[None] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(3):
                a, b = [(i + 1) % 3, (i + 2) % 3], [(j + 1) % 3, (j + 2) % 3]
                cof[i][j] = P[a[0]][b[0]] * P[a[1]][b[1]] - P[a[0]][b[1]] * P[a[1]][b[0]]
        det = sum((P[0][j] * cof[0][j] for j in range(3)), 0)
        form = lib.quad(cof, z)
    return form, det


def whole(c, driver, kind, n, K, mixed=""):
    """K scripted cuts: every point that satisfies all of them is still there"""
    con = lambda x: c.const(str(x))                                                        # noqa: E731
    d0, x0, hist, xk, B, C = history(n, K, mixed)
    L = len(hist)
    d0, x0 = [con(x) for x in d0], [con(x) for x in x0]
    sp = lib.module_cls(c, kind)(c.arr(d0), c.arr(x0))
    o = Oracle(c, script(c, hist))
    y = [c.real(f"y{i}") for i in range(n)]
    x, k = search(c, driver, o, sp, L)
    c.prove((x is None) == (mixed != "central"), "a point is returned exactly if one was accepted")
    c.prove(len(o.made) == L, "the search does not give up while a solution is left")
    if len(o.made) != L:
        return
    c.assume(c.le(sum(((y[i] - x0[i]) * (y[i] - x0[i]) / d0[i] for i in range(n)), c.num(0)), 1))
    for g, b, at, *_ in o.made:
        c.assume(c.le(lib.dot(g, [y[i] - at[i] for i in range(n)]) + b, 0))
    c.reach("a solution is left")
    form, det = inside(c, n, lib.observe_P(c, sp, n), [y[i] - t for i, t in enumerate(lib.lst(sp.xc()))])
    c.prove(c.gt(det, 0), "the ellipsoid has interior")
    c.prove(c.le(form, det), "a point that satisfies every cut stays in the ellipsoid")


def step(c, driver, kind, n, K, last, mixed=""):
    """K scripted cuts, then one with any offset; y: any point of the ellipsoid that is left after K cuts"""
    con = lambda x: c.const(str(x))                                                        # noqa: E731
    d0, x0, hist, xk, B, C = history(n, K, mixed)
    L = len(hist)
    u = [F(x) for x in lib.UNITS[n][0].split()]
    if last == "again":
        # the same cut once more
        g, b = None, con(hist[-1][1])
        w = [sum(F(hist[-1][0][r]) * B[r][i] for r in range(n)) for i in range(n)]
        lam2 = lib.dot(w, w)
        lam = F(int(lam2.numerator ** 0.5 + 0.5), int(lam2.denominator ** 0.5 + 0.5))
        assert lam * lam == lam2
        u, lam = [x / lam for x in w], con(lam)
    else:
        lam = c.real("lam", pos=True)
        g = [lam * con(x) for x in lib.mul(C, u)]            # half-width lam
    if last == "slab":
        at = SLABS[c.choice("slab", len(SLABS) if driver == "optim_q" else 4)]
        b = lam * con(at[0])
        off = (b, lam * con(at[1]))
    elif last == "again":
        off = b
    else:
        off = b = c.real("b", nonneg=driver != "optim_q")
        c.assume(c.ne(b, lam))
    sp = lib.module_cls(c, kind)(c.arr([con(x) for x in d0]), c.arr([con(x) for x in x0]))
    cuts = script(c, hist)
    o = Oracle(c, cuts + [(cuts[-1][0] if g is None else g, off, c.real("better") if last == "central" else None, last)])
    if driver == "adaptor":
        opt = c.mod("ellalgo.ell_config").Options()
        opt.max_iters, opt.tolerance = L + 1, c.num(0)
        r = c.mod("ellalgo.cutting_plane").BSearchAdaptor(o, sp, opt).assess_bs(c.num(1))
        c.prove(r is False or not r, "nothing was accepted")
        x, sp1 = None, None
    else:
        x, k = search(c, driver, o, sp, L + 1)
    now, retry = c.num(0), False
    for (_, _, at, was), (_, _, asked, *more), (_, _, better, _) in zip(hist + [(0, 0, xk, last)], o.made, o.cuts):
        if more:
            c.prove(c.And(c.eq(more[1], now), bool(more[0]) == retry), "the oracle is asked with the objective reached so far, and to retry exactly after a cut without effect")
            now, retry = now if better is None else better, was == "noeffect"
        c.prove(c.And(*[c.eq(asked[i], con(at[i])) for i in range(n)]), "the oracle is asked at the centre of the ellipsoid left by the cuts so far")
    c.prove(len(o.made) == L + 1, "the search does not give up while a solution is left")
    if driver == "adaptor" or len(o.made) != L + 1:
        c.reach("done")
        return
    c.prove((x is not None) == (last == "central" or mixed == "central"), "a point is returned exactly if one was accepted")
    if x is not None:
        best = [at for _, _, at, was in hist + [(0, 0, xk, last)] if was == "central"][-1]
        c.prove(c.And(*[c.eq(x[i], con(best[i])) for i in range(n)]), "the returned point is the accepted centre")
    # y = xk + B (p u + q v), v orthogonal to u
    p = c.real("p")
    if n == 2:
        q = [c.real("q")]
        V = [[-u[1], u[0]]]
    else:
        q = [c.real("q"), c.real("r")]
        e = [F(0), u[2], -u[1]]
        f = [u[1] * e[2] - u[2] * e[1], u[2] * e[0] - u[0] * e[2], u[0] * e[1] - u[1] * e[0]]
        V = [e, f]
    nv = [con(lib.dot(v, v)) for v in V]
    c.assume(c.le(p * p + sum((nv[i] * q[i] * q[i] for i in range(n - 1)), c.num(0)), 1))
    lo, hi = off if last == "slab" else (c.num(0) if last == "central" else b, None)
    c.assume(c.le(lam * p + lo, 0))
    if hi is not None:
        c.assume(c.ge(lam * p + hi, 0))
    if k < L + 1:
        # it gave up: the space said that nothing is left (or, for a discrete search, that the cut has no effect)
        if driver == "optim_q" and c.is_true(c.lt(b, 0)):
            c.reach("no effect")
        else:
            c.reach("nothing left")
            c.prove(False, "the search gives up only if no point satisfies the cuts")
            return
    else:
        c.reach("goes on")
    w = [p * con(u[i]) + sum((q[j] * con(V[j][i]) for j in range(n - 1)), c.num(0)) for i in range(n)]
    Bw = [sum((con(B[i][j]) * w[j] for j in range(n)), c.num(0)) for i in range(n)]
    x1 = lib.lst(sp.xc())
    form, det = inside(c, n, lib.observe_P(c, sp, n), [con(xk[i]) + Bw[i] - x1[i] for i in range(n)])
    c.prove(c.gt(det, 0), "the ellipsoid has interior")
    c.prove(c.le(form, det), "a point that satisfies every cut stays in the ellipsoid")


TASKS = []
MIX = {"optim": "central", "optim_q": "noeffect"}
for kind in ("Ell", "EllStable"):
    for d in ("feas", "optim", "optim_q"):
        for n, K in ((2, 1), (2, 2), (2, 3), (2, 5), (2, 8), (3, 1)):
            TASKS.append(dict(name=f"whole_{d}_{kind}_n{n}_K{K}", fn=whole, params=dict(driver=d, kind=kind, n=n, K=K), require=["a solution is left"], bounds=f"n={n}, {K} scripted cuts, every point"))
        for n, K in ((2, 0), (2, 1), (2, 3), (2, 8), (2, 20), (3, 0), (3, 4), (3, 10)):
            for last in ("deep",) + (("central",) if d == "optim" else ()) + (("slab",) if K in (0, 3, 4) else ()):
                TASKS.append(dict(name=f"{d}_{kind}_n{n}_K{K}_{last}", fn=step, params=dict(driver=d, kind=kind, n=n, K=K, last=last), require=["goes on"], bounds=f"n={n}, {K} scripted cuts and one with any length and {'one of a few offset pairs' if last == 'slab' else 'any offset'}"))
        for n, K in ((2, 2), (2, 6), (3, 5)):
            if d in MIX:
                for last in ("deep",) + (("central",) if d == "optim" else ()):
                    TASKS.append(dict(name=f"{d}_{kind}_n{n}_K{K}_{last}_mixed", fn=step, params=dict(driver=d, kind=kind, n=n, K=K, last=last, mixed=MIX[d]), require=["goes on"], bounds=f"n={n}, {K} scripted cuts with {MIX[d]} ones in between and one with any length and offset"))
        for n, K in ((2, 2), (2, 3), (2, 7), (3, 2), (3, 5)):
            TASKS.append(dict(name=f"{d}_{kind}_n{n}_K{K}_again", fn=step, params=dict(driver=d, kind=kind, n=n, K=K, last="again"), bounds=f"n={n}, {K} scripted cuts, the last one repeated"))
        for K in (2, 4):
            if d in MIX:
                TASKS.append(dict(name=f"whole_{d}_{kind}_n2_K{K}_mixed", fn=whole, params=dict(driver=d, kind=kind, n=2, K=K, mixed=MIX[d]), require=["a solution is left"], bounds=f"n=2, {K} scripted cuts with {MIX[d]} ones in between, every point"))
    TASKS.append(dict(name=f"adaptor_{kind}", fn=step, params=dict(driver="adaptor", kind=kind, n=2, K=3, last="deep"), require=["done"], bounds="n=2, 3 scripted cuts and one with any length and offset"))
task = lib.names(TASKS)
