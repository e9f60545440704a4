"""Shared pieces of the low-pass oracle harnesses: the design specification, written down independently of the oracle."""
import math

ASSUMPTIONS = ["0 <= lower <= upper passband bound, stopband bound >= 0; band edges and filter length from the listed cases (no band edge falls on a grid point)",
               "the cosine table is the double-precision one (compared with the exact cosines to 1e-9)"]


class Spec:
    pass


EPS = "1/1000000000"


def setup(c, ndim, wpass, wstop, standard=None):
    """standard: the case made by create_lowpass_case ("default": without arguments)"""
    m = Spec()
    m.n = ndim
    mod = c.mod("ellalgo.oracles.lowpass_oracle")
    if standard:
        m.lo, m.hi, m.sp = c.const("1600/1681"), c.const("1681/1600"), c.const("1/64")       # 1/1.025^2, 1.025^2, 0.125^2
        m.o = mod.create_lowpass_case() if standard == "default" else mod.create_lowpass_case(ndim)
        wpass, wstop = 0.12, 0.20
    else:
        m.lo = c.real("lo")
        m.hi = c.real("hi")
        m.sp = c.real("sp")
        c.assume(c.And(c.ge(m.lo, 0), c.le(m.lo, m.hi), c.ge(m.sp, 0)))
        m.o = mod.LowpassOracle(ndim, wpass, wstop, m.lo, m.hi, m.sp)
    M = 15 * ndim
    ideal = [[1.0] + [2.0 * math.cos(math.pi * k * j / (M - 1)) for j in range(1, ndim)] for k in range(M)]
    tab = getattr(m.o, "spectrum", None)
    if ndim >= 48 and c.symbolic and tab is not None and len(tab) == M and len(tab[0]) == ndim:
        m.rows = [[tab[k, j] for j in range(ndim)] for k in range(M)]
        c.prove(all(abs(float(m.rows[k][j]) - ideal[k][j]) <= 1e-9 for k in range(M) for j in range(ndim)), "row k of the table is 1, 2cos(w_k), 2cos(2w_k), ... at M equally spaced frequencies in [0, pi]")
    elif tab is not None and len(tab) == M and len(tab[0]) == ndim:
        m.rows = [[tab[k, j] for j in range(ndim)] for k in range(M)]
        c.prove(c.And(*[c.And(c.le(m.rows[k][j] - ideal[k][j], 1e-9), c.ge(m.rows[k][j] - ideal[k][j], -1e-9)) for k in range(M) for j in range(ndim)]),
                "row k of the table is 1, 2cos(w_k), 2cos(2w_k), ... at M equally spaced frequencies in [0, pi]")
    else:
        import numpy as np
        m.rows = [[1.0] + [float(v) for v in r] for r in 2 * np.cos(np.outer(np.linspace(0, np.pi, M), np.arange(1, ndim)))]
    m.rows = [[c.num(v) if isinstance(v, float) else v for v in r] for r in m.rows]
    m.M = M
    m.passb = [k for k in range(M) if k <= wpass * (M - 1)]
    m.stopb = [k for k in range(M) if k > wstop * (M - 1)]
    m.mid = [k for k in range(M) if k not in m.passb and k not in m.stopb]
    return m


def resp(m, k, x):
    t = m.rows[k][0] * x[0]
    for j in range(1, m.n):
        t = t + m.rows[k][j] * x[j]
    return t


def met(c, m, x, sp, slack=0):
    """the whole specification, stopband bound sp; passband bounds (computed by the code in the standard case) tightened by slack"""
    out = []
    for k in m.passb:
        v = resp(m, k, x)
        out += [c.ge(v, m.lo + slack), c.le(v, m.hi - slack)]
    for k in m.stopb:
        v = resp(m, k, x)
        out += [c.ge(v, 0), c.le(v, sp)]
    for k in m.mid:
        out.append(c.ge(resp(m, k, x), 0))
    out.append(c.ge(x[0], 0))
    return c.And(*out)


def design(n):
    """a filter that meets the standard specification (windowed sinc, in millionths)"""
    import numpy as np
    beta, wc, scale = {48: (3, 0.165, 0.995), 64: (2.5, 0.15, 1.005), 100: (3, 0.15, 0.995)}[n]
    h = np.sinc(wc * (np.arange(n) - (n - 1) / 2)) * np.kaiser(n, beta)
    h *= scale / h.sum()
    r = [round(float(v) * 1e6) for v in np.convolve(h, h[::-1])[n - 1:]]
    return [r[0] + 1000] + r[1:]


def point(c, m, tag):
    """any coefficient vector; for long filters only the entries in m.free are free, the others are small numbers;
    an integer m.free: a filter that meets the standard specification, with that coefficient free (-1: with a free factor)"""
    free = getattr(m, "free", None)
    if isinstance(free, int):
        t = c.real(f"{tag}t")
        mid, by = (c.num(1), c.const("1/50")) if free < 0 else (c.const(f"{design(m.n)[free]}/1000000"), c.const("1/400"))
        c.assume(c.And(c.ge(t, mid - by), c.le(t, mid + by)))
        return [c.const(f"{v}/1000000") * t if free < 0 else t if free == j else c.const(f"{v}/1000000") for j, v in enumerate(design(m.n))]
    return [c.real(f"{tag}{j}") if free is None or j in free else c.num(((j * 5 + len(tag)) % 3 - 1) if j else 16) / 64 for j in range(m.n)] if free != "flat" else [c.real(f"{tag}0")] + [c.num(0)] * (m.n - 1)


def keeps(c, m, x, g, b, sp, label, slack=0):
    """every coefficient vector that meets the specification satisfies the cut (g, b) at x"""
    z = point(c, m, "z")
    c.assume(met(c, m, z, sp, slack))
    d = g[0] * (z[0] - x[0])
    for j in range(1, m.n):
        d = d + g[j] * (z[j] - x[j])
    if isinstance(b, (tuple, list)):
        c.prove(c.le(d + b[0], 0), label)
        c.prove(c.ge(d + b[1], 0), label + " (far side)")
    else:
        c.prove(c.le(d + b, 0), label)


def near(b):
    return b[0] if isinstance(b, (tuple, list)) else b


def warm_up(c, m, warm, sp):
    """an earlier query about another point: None, 'ok' (meets the specification), or (band, index, side) of the row it violates"""
    if warm is None:
        return
    w = point(c, m, "w")
    if warm == "ok":
        c.assume(met(c, m, w, sp))
    else:
        band, i, side = warm
        ks = getattr(m, band)
        for k in range(m.M):
            v = resp(m, k, w)
            if k == ks[i]:
                hi = m.hi if band == "passb" else sp
                c.assume(c.gt(v, hi) if side > 0 else c.lt(v, m.lo if band == "passb" else 0))
            else:
                c.assume(c.And(c.ge(v, m.lo if k in m.passb else 0), c.le(v, m.hi) if k in m.passb else (c.le(v, sp) if k in m.stopb else True)))
        c.assume(c.ge(w[0], 0))
    return w


def foreign(c, ndim):
    """another oracle, of another length and other bands, is used in between"""
    o = c.mod("ellalgo.oracles.lowpass_oracle").LowpassOracle(ndim + 1, 0.3, 0.6, c.num(1), c.num(2), c.num(3))
    for x in ([0] * (ndim + 1), [1] + [0] * ndim, [5] * (ndim + 1)):
        o.assess_feas(c.arr(x))
        o.assess_optim(c.arr(x), c.num(1))
