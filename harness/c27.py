"""C27 spectral_fact: refuses exactly the sequences whose sampled spectrum is negative, and gives a real response of the same length
whose spectrum at the n frequencies 2 pi k / n has the requested squared magnitude and the minimum phase (the Hilbert transform of
half the logarithm of the spectrum sampled at 100 n frequencies)."""
import math

from . import lib

ASSUMPTIONS = ["cosines of the sampled frequencies to 9 digits; coefficients of the phase identified up to 1e-8; numpy's transform acts linearly on the coefficients"]


def cosine(c, k, m):
    """cos(2 pi k / m), as the symbolic numpy rounds it"""
    v = math.cos(2 * math.pi * (k % m) / m)
    if c.symbolic:
        from symx import spectral as S
        return S.SymReal(float(S.snap(v)))
    return v


def spectrum(c, r, m):
    """R(2 pi l / m) for l = 0..m/2"""
    n = len(r)
    return [sum((2 * cosine(c, l * t, m) * r[t] for t in range(1, n)), r[0]) for l in range(m // 2 + 1)]


def twiddle(c, k, n):
    if c.symbolic:
        from symx import spectral as S
        return S.twiddle(k, n)
    return math.cos(2 * math.pi * (k % n) / n), math.sin(2 * math.pi * (k % n) / n)


def dft(c, h, k):
    n = len(h)
    w = [twiddle(c, k * i, n) for i in range(n)]
    return sum((h[i] * w[i][0] for i in range(n)), 0), sum((-(h[i] * w[i][1]) for i in range(n)), 0)


def kernel(j, l, m):
    """weight of half the log-spectrum at l in the phase at j: -(2/m) sum of sin(2 pi q (j-l)/m) over 0 < q < m/2, m even"""
    d = (j - l) % m
    return -(2 / m) / math.tan(math.pi * d / m) if d % 2 else 0.0


def phase(c, R, k, n, m):
    """(cos, sin) of the minimum phase at frequency k of n"""
    j = k * (m // n)
    w = [kernel(j, l, m) for l in range(m)]
    W = [w[l] + (w[m - l] if 0 < l < m - l else 0) for l in range(m // 2 + 1)]
    if c.symbolic:
        import numpy as np
        from symx import spectral as S
        t = S.Lin(np.zeros(1, dtype=complex))
        for x, a in zip(R, W):
            t = t + S.log(x) * (a / 2)
        return S.unit(t.v.real)
    p = sum(a * math.log(float(x)) / 2 for x, a in zip(R, W))
    return math.cos(p), math.sin(p)


def attempt(c, ra):
    try:
        return c.mod("ellalgo.oracles.spectral_fact").spectral_fact(ra)
    except (RuntimeError, ValueError) as e:
        return "refused" if isinstance(e, RuntimeError) else "invalid"


def dominant(c, n):
    """r0 = 0.001 + s + 2 sum |r_t|, s >= 0 (up to length 16; beyond, four entries may be non-zero)"""
    r0, r = c.const("1/1000") + c.real("s", nonneg=True), [c.num(0) for _ in range(n)]
    for t in range(1, n):
        if n <= 16 or t in (1, n // 2, n - 1):
            x, y = c.real(f"x{t}", nonneg=True), c.real(f"y{t}", nonneg=True)
            r[t], r0 = x - y, r0 + 2 * x + 2 * y
    r[0] = r0
    return r


def run(c, n, what, ints=False):
    m = 100 * n
    r = [c.integer(f"r{i}", -3, 3) for i in range(n)] if ints else dominant(c, n) if what == "long" else [c.real(f"r{i}") for i in range(n)]
    for x in r:
        c.assume(c.And(c.le(x, 100), c.ge(x, -100)))
    if what == "positive":
        for x in spectrum(c, r, m):
            c.assume(c.gt(x, 0))
            c.assume(c.ge(x, c.const("1/1000")))
    ra = c.iarr(r) if ints else c.arr(r)
    judge(c, attempt(c, ra), ra, r, n, what)


def judge(c, h, ra, r, n, what):
    m = 100 * n
    R = spectrum(c, r, m)
    lim = c.const("-1/10000")
    c.prove(c.And(*[c.eq(ra[i], r[i]) for i in range(n)]), "the input is not modified")
    if isinstance(h, str):
        c.reach(h)
        c.prove(h == "refused", "a finite sequence is not called invalid")
        c.prove(c.Or(*[c.le(x, lim) for x in R]), "refused only if the sampled spectrum is negative somewhere")
        return
    c.reach("accepted")
    c.prove(c.And(*[c.gt(x, lim) for x in R]), "accepted only if the sampled spectrum is not negative")
    h = lib.lst(h)
    c.prove(len(h) == n, "as many coefficients as the input")
    if what == "decision":
        return
    if what == "long":
        E = [c.sqrt(R[k * (m // n)]) for k in range(n // 2 + 1)]
        U = [phase(c, R, k, n, m) for k in range(n // 2 + 1)]
        for i in range(n):
            t = E[0] * U[0][0]
            for k in range(1, n // 2 + 1):
                w = twiddle(c, k * i, n)
                t = t + (1 if 2 * k == n else 2) * E[k] * (U[k][0] * w[0] - U[k][1] * w[1])
            c.prove(c.eq(h[i], t / n), "the response with the requested magnitudes and the minimum phase")
        return
    H = [dft(c, h, k) for k in range(n // 2 + 1)]
    for k in range(n // 2 + 1):
        x = R[k * (m // n)]
        p = H[k][0] * H[k][0] + H[k][1] * H[k][1]
        if what == "positive":
            c.prove(c.eq(p, x), "squared magnitude of the response")
            u, v = phase(c, R, k, n, m)
            s = c.sqrt(x)
            c.prove(c.And(c.eq(H[k][0], s * u), c.eq(H[k][1], s * v)), "minimum phase")
        else:
            e = c.const("11/100000")
            c.prove(c.And(c.le(p - x, e), c.ge(p - x, -e)), "squared magnitude of the response")


def invalid(c, n, where, bad):
    """empty or non-finite input"""
    r = [c.real(f"r{i}") for i in range(n)]
    if n:
        r[where] = {"nan": math.nan, "inf": math.inf, "ninf": -math.inf}[bad]
    ra = c.arr(r)
    c.reach("asked")
    h = attempt(c, ra)
    c.prove(isinstance(h, str) and h == "invalid", "empty or non-finite input is invalid")


def again(c, n, before):
    """earlier calls leave no trace, and what they returned stays as it was"""
    old = []
    for b in before:
        x = c.arr([c.num(v) for v in b])
        h = attempt(c, x)
        old.append((h, lib.lst(h) if not isinstance(h, str) else None, x, b))
    run(c, n, "positive")
    for h, keep, x, b in old:
        if keep is not None:
            c.prove(c.And(*[c.eq(u, v) for u, v in zip(lib.lst(h), keep)]), "an earlier response stays as it was")
        c.prove(c.And(*[c.eq(u, v) for u, v in zip(lib.lst(x), b)]), "an earlier input stays as it was")


def refill(c, n):
    """one input array used twice, with other contents the second time"""
    r = [c.real(f"r{i}") for i in range(n)]
    m = 100 * n
    for x in r:
        c.assume(c.And(c.le(x, 100), c.ge(x, -100)))
    for x in spectrum(c, r, m):
        c.assume(c.gt(x, 0))
        c.assume(c.ge(x, c.const("1/1000")))
    ra = c.arr([c.num(v) for v in EARLIER[n][0]])
    first = attempt(c, ra)
    keep = lib.lst(first)
    for i in range(n):
        ra[i] = r[i]
    judge(c, attempt(c, ra), ra, r, n, "positive")
    c.prove(c.And(*[c.eq(u, v) for u, v in zip(lib.lst(first), keep)]), "an earlier response stays as it was")


def near(n, what):
    """sequences with a spectrum close to zero, where the phase depends most on every sample: tried first as counterexamples"""
    out = []
    for t, v in ((n - 1, 10), (1, -10), (max(n // 2, 1), 10)):
        if n == 1:
            break
        if what == "long":
            h = {"s": 0}
            for q in range(1, n):
                if n <= 16 or q in (1, n // 2, n - 1):
                    h[f"x{q}"], h[f"y{q}"] = (max(v, 0), max(-v, 0)) if q == t else (0, 0)
        else:
            h = {f"r{q}": 0 for q in range(n)}
            h["r0"], h[f"r{t}"] = 20.0015, v
        out.append(h)
    return out


EARLIER = {2: [(3, 1), (2, -0.5), (1, 1), (1, 0.50004)], 3: [(4, 1, 0.5), (3, -1, 0.25), (1, 1, 1), (1, 0.50004, 0)], 4: [(5, 1, 0.5, -0.25)]}
TASKS = []
for n in (1, 2, 3, 4, 5, 6, 8, 12):
    TASKS.append(dict(name=f"n{n}_positive", fn=run, params=dict(n=n, what="positive"), hints=near(n, "positive"), require=["accepted"], spectral=True, bounds=f"every sequence of length {n} in [-100, 100] whose spectrum sampled at {100 * n} frequencies is at least 0.001"))
for n in (1, 2, 3, 4, 5, 6, 8):
    TASKS.append(dict(name=f"n{n}_any", fn=run, params=dict(n=n, what="any"), require=["accepted", "refused"], spectral=True, weight=n, tier="quick" if n < 6 else "thorough", bounds=f"every sequence of length {n} in [-100, 100]"))
for n in (6, 8, 12):
    TASKS.append(dict(name=f"n{n}_decision", fn=run, params=dict(n=n, what="decision"), require=["accepted", "refused"], spectral=True, weight=n, bounds=f"every sequence of length {n} in [-100, 100]: accepted or refused rightly"))
for n in (7, 9, 10, 11, 16, 20, 33, 40):
    TASKS.append(dict(name=f"n{n}_long", fn=run, params=dict(n=n, what="long"), hints=near(n, "long"), require=["accepted"], spectral=True, weight=n, bounds=f"every sequence of length {n} in [-100, 100] in which the first entry exceeds twice the sum of the absolute values of the others by 0.001" + (", all but four entries zero" if n >= 20 else "")))
for n in (2, 3):
    if n == 2:
        TASKS.append(dict(name=f"n{n}_ints", fn=run, params=dict(n=n, what="any", ints=True), require=["accepted", "refused"], spectral=True, bounds=f"every sequence of {n} integers in [-3, 3]"))
    for q in range(4):
        TASKS.append(dict(name=f"n{n}_after{q}", fn=again, params=dict(n=n, before=[EARLIER[n][q]]), require=["accepted"], spectral=True, bounds="after a call with another sequence of the same length (the third is refused, the fourth touches zero)"))
    TASKS.append(dict(name=f"n{n}_after_other", fn=again, params=dict(n=n, before=[EARLIER[n + 1][0], EARLIER[n][0]]), require=["accepted"], spectral=True, bounds="after calls with sequences of other lengths"))
    TASKS.append(dict(name=f"n{n}_refill", fn=refill, params=dict(n=n), require=["accepted"], spectral=True, bounds="the same input array with other contents than in an earlier call"))
TASKS.append(dict(name="empty", fn=invalid, params=dict(n=0, where=0, bad=""), require=["asked"], spectral=True, bounds="the empty sequence"))
for n in (1, 2, 3, 5, 9):
    for bad in ("nan", "inf", "ninf"):
        for where in sorted({0, n // 2, n - 1}):
            TASKS.append(dict(name=f"{bad}_n{n}_at{where}", fn=invalid, params=dict(n=n, where=where, bad=bad), require=["asked"], spectral=True, bounds=f"length {n}, entry {where} not finite, the others arbitrary"))
task = lib.names(TASKS)
