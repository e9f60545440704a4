"""C31 accuracy: the real drivers on the real search spaces. A search that stops at the tolerance does so only if every point that
satisfies all the cuts lies within sqrt(tolerance) of the point it asked about last, measured along the gradient of that cut - so after an
improvement no remaining point is better by more than sqrt(tolerance) - and it does stop as soon as that is so."""
from fractions import Fraction as F

from . import c28, lib

ASSUMPTIONS = ["scripted oracle as for C28, then one cut with symbolic length and offset (or an improvement); 0 < tolerance <= 1/100 (below the widths of the scripted cuts)"]


def run(c, driver, kind, n, K, last, mixed="", whole=False):
    con = lambda x: c.const(str(x))                                                        # noqa: E731
    d0, x0, hist, xk, B, C = c28.history(n, K, mixed)
    L = len(hist)
    u = [F(x) for x in lib.UNITS[n][0].split()]
    lam, tol = c.real("lam", pos=True), c.real("tol", pos=True)
    c.assume(c.le(tol, c.const("1/100")))
    e = [con(x) for x in lib.mul(C, u)]                      # half-width 1
    g = [lam * x for x in e]
    if last == "central":
        b, better = c.num(0), c.real("better")
    elif last == "noeffect":
        b, better = -c.real("b", nonneg=True) - lam, None
    else:
        b, better = c.real("b", nonneg=True), None
        c.assume(c.lt(b, lam))                               # otherwise nothing (or a point) is left
    off = b
    if last == "slab":
        b = lam / 10
        off = (b, lam / 2)
    d0, x0 = [con(x) for x in d0], [con(x) for x in x0]
    sp = lib.module_cls(c, kind)(c.arr(d0), c.arr(x0))
    # the cut after the last one misses the ellipsoid, so a search that goes on ends there
    o = c28.Oracle(c, c28.script(c, hist) + [(g, off, better, last), (e, c.num(10 ** 6), None, "miss")])
    opt = c.mod("ellalgo.ell_config").Options()
    opt.max_iters, opt.tolerance = L + 3, tol
    cp = c.mod("ellalgo.cutting_plane")
    if driver == "feas":
        x, k = cp.cutting_plane_feas(o, sp, opt)
        val = None
    else:
        x, val, k = (cp.cutting_plane_optim if driver == "optim" else cp.cutting_plane_optim_q)(o, sp, c.num(0), opt)
    c.prove(len(o.made) >= L + 1, "the search does not stop while the ellipsoid is wide along the cut")
    if len(o.made) <= L:
        return
    if last == "central":
        c.prove(x is not None, "an accepted point is returned")
        if x is not None and val is not None:
            c.prove(c.And(c.eq(val, better), *[c.eq(x[i], con(xk[i])) for i in range(n)]), "the returned point and value are those of the last improvement")
    if len(o.made) > L + 1:
        c.reach("goes on")
        c.prove(c.ge(lam * lam / tol, 1), "the search stops as soon as the ellipsoid is narrower than the tolerance along the cut")
        return
    c.reach("stops")
    c.prove(c.lt(lam * lam / tol, 1), "the search stops only if the ellipsoid is narrower than the tolerance along the cut")
    at = o.made[L][2]
    if whole:
        y = [c.real(f"y{i}") for i in range(n)]
        c.assume(c.le(sum(((y[i] - x0[i]) * (y[i] - x0[i]) / d0[i] for i in range(n)), c.num(0)), 1))
        for h, bb, xx, *_ in o.made[:L]:
            c.assume(c.le(lib.dot(h, [y[i] - xx[i] for i in range(n)]) + bb, 0))
        w = lib.dot(e, [y[i] - at[i] for i in range(n)])
        c.prove(c.le(w * w, 1), "every point that satisfies the cuts lies within the width of the ellipsoid")
    else:
        p = c.real("p")
        c.assume(c.le(p * p, 1))
        q = [c.real("q")] if n == 2 else [c.real("q"), c.real("r")]
        V = [[-u[1], u[0]]] if n == 2 else [[F(0), u[2], -u[1]]]
        if n == 3:
            f = V[0]
            V.append([u[1] * f[2] - u[2] * f[1], u[2] * f[0] - u[0] * f[2], u[0] * f[1] - u[1] * f[0]])
        z = [p * con(u[i]) + sum((q[j] * con(V[j][i]) for j in range(n - 1)), c.num(0)) for i in range(n)]
        y = [con(xk[i]) + sum((con(B[i][j]) * z[j] for j in range(n)), c.num(0)) for i in range(n)]
        w = lib.dot(g, [y[i] - at[i] for i in range(n)])
        c.prove(c.le(w * w / tol, 1), "every point that satisfies the cuts is within sqrt(tolerance) of the point asked about, along the cut")


TASKS = []
for kind in ("Ell", "EllStable"):
    for d in ("feas", "optim", "optim_q"):
        mix = c28.MIX.get(d, "")
        for last in ("deep", "slab") + (("central",) if d != "feas" else ()) + (("noeffect",) if d == "optim_q" else ()):
            for n, K, m in ((2, 0, ""), (2, 3, ""), (2, 8, ""), (3, 0, ""), (3, 4, ""), (2, 4, mix), (3, 3, mix)):
                if last == "slab" and K not in (0, 3, 4) or (n, K) in ((2, 4), (3, 3)) and not mix or d == "optim_q" and last == "central" and m == "noeffect":
                    continue
                TASKS.append(dict(name=f"{d}_{kind}_n{n}_K{K}_{last}{'_mixed' if m else ''}", fn=run, params=dict(driver=d, kind=kind, n=n, K=K, last=last, mixed=m), require=["stops", "goes on"],
                                  bounds=f"n={n}, {K} scripted cuts{' with ' + m + ' ones in between' if m else ''} and one with any length and offset, any tolerance up to 1/100"))
        for K in (1, 2, 3, 5):
            last = "deep" if d == "feas" else "central"
            TASKS.append(dict(name=f"whole_{d}_{kind}_n2_K{K}", fn=run, params=dict(driver=d, kind=kind, n=2, K=K, last=last, whole=True), require=["stops", "goes on"], bounds=f"n=2, {K} scripted cuts, every point that satisfies them, any tolerance up to 1/100"))
task = lib.names(TASKS)
