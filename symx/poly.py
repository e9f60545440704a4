"""Exact multivariate rational functions over Q with square-root symbols.

Every symbolic real the engine manipulates is kept as num/den where `num` is a sparse polynomial
(dict: packed monomial -> int|Fraction) and `den` is a product of interned, monic polynomial factors
that the current path knows to be non-zero.  All arithmetic is exact; nothing is rounded.  This is the
term representation handed to the SMT solver (see engine.to_z3), not a decision procedure.
"""
from fractions import Fraction

BITS = 12
FIELD = (1 << BITS) - 1
_var_names = []
_var_index = {}
_guard = 0            # guard bit (top bit) of every field

SQ = {}               # var index -> Num: the radicand of a sqrt symbol


def var_index(name):
    global _guard
    i = _var_index.get(name)
    if i is None:
        i = len(_var_names)
        _var_index[name] = i
        _var_names.append(name)
        _guard |= 1 << (BITS * i + BITS - 1)
    return i


def var_name(i):
    return _var_names[i]


def mono_items(m):
    i = 0
    while m:
        e = m & FIELD
        if e:
            yield i, e
        m >>= BITS
        i += 1


def norm_coef(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = norm_coef(s)
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: norm_coef(c * k) for m, c in a.items()}


class TooBig(BaseException):
    pass


MAX_TERMS = 60000


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 40 * MAX_TERMS:
        raise TooBig("polynomial product too large")
    if len(a) == 1:
        (m, c), = a.items()
        if m == 0:
            return pscale(b, c)
        return {m + m2: norm_coef(c * c2) for m2, c2 in b.items()}
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    r = {m: norm_coef(c) for m, c in r.items() if c != 0}
    if len(r) > MAX_TERMS:
        raise TooBig("polynomial too large")
    return r


def ppow(a, n):
    r = {0: 1}
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def mono_div(a, b):
    """a/b if b divides a (as monomials), else None."""
    d = (a | _guard) - b
    if d & _guard != _guard:
        return None
    return a - b


def pdiv_exact(a, f):
    """Quotient a/f if exact, else None."""
    if not a:
        return {}
    lf = max(f)
    cf = f[lf]
    if len(f) == 1:
        out = {}
        for m, c in a.items():
            q = mono_div(m, lf)
            if q is None:
                return None
            out[q] = norm_coef(Fraction(c) / cf)
        return out
    # quick necessary checks: leading and trailing monomials divide
    if mono_div(max(a), lf) is None or mono_div(min(a), min(f)) is None:
        return None
    r = dict(a)
    out = {}
    import heapq
    heap = [-m for m in r]
    heapq.heapify(heap)
    steps = 0
    rest = [(m, c) for m, c in f.items() if m != lf]
    while heap:
        m = -heapq.heappop(heap)
        c = r.pop(m, 0)
        if c == 0:
            continue
        q = mono_div(m, lf)
        if q is None:
            return None
        k = norm_coef(Fraction(c) / cf) if cf != 1 else c
        out[q] = k
        steps += 1
        if steps > MAX_TERMS:
            return None
        for m2, c2 in rest:
            mm = q + m2
            if mm in r:
                s = r[mm] - k * c2
                if s == 0:
                    del r[mm]
                else:
                    r[mm] = norm_coef(s)
            else:
                r[mm] = norm_coef(-k * c2)
                heapq.heappush(heap, -mm)
    return out


_fac = []            # id -> poly (monic w.r.t. max monomial)
_fac_index = {}


def intern_factor(p):
    """p: non-constant poly. returns (factor id, leading coefficient)."""
    lm = max(p)
    lc = p[lm]
    if lc != 1:
        p = {m: norm_coef(Fraction(c) / lc) for m, c in p.items()}
    key = frozenset(p.items())
    i = _fac_index.get(key)
    if i is None:
        i = len(_fac)
        _fac.append(p)
        _fac_index[key] = i
    return i, lc


def factor_poly(i):
    return _fac[i]


def reset():
    """forget factors (variables stay)."""
    _fac.clear()
    _fac_index.clear()
    SQ.clear()


class Num:
    """rational function; immutable."""
    __slots__ = ("n", "d", "_h")

    def __init__(self, n, d=()):
        self.n = n
        self.d = d

    # -- constants
    def const(self):
        if not self.n:
            return 0
        if not self.d and len(self.n) == 1 and 0 in self.n:
            return self.n[0]
        return None

    def is_zero(self):
        return not self.n

    def key(self):
        return (frozenset(self.n.items()), self.d)


ZERO = Num({})
ONE = Num({0: 1})


def nconst(c):
    if c == 0:
        return ZERO
    return Num({0: norm_coef(c)})


def nvar(i):
    return Num({1 << (BITS * i): 1})


def _reduce_sqrt(n, d):
    """replace s^2 -> SQ[s] wherever needed."""
    if not SQ:
        return Num(n, d)
    while True:
        hit = None
        for m in n:
            mm = m
            for i in SQ:
                if (mm >> (BITS * i)) & FIELD >= 2:
                    hit = i
                    break
            if hit is not None:
                break
        if hit is None:
            return Num(n, d)
        sh = BITS * hit
        groups = {}
        for m, c in n.items():
            e = (m >> sh) & FIELD
            base = m - (e << sh) + ((e & 1) << sh)
            g = groups.setdefault(e >> 1, {})
            g[base] = g.get(base, 0) + c
        sq = SQ[hit]
        if not sq.d:
            acc = {}
            for k, g in groups.items():
                g = {m: c for m, c in g.items() if c != 0}
                acc = padd(acc, pmul(g, ppow(sq.n, k)) if k else g)
            n = acc
        else:
            tot = ZERO
            for k, g in groups.items():
                g = {m: c for m, c in g.items() if c != 0}
                t = Num(g, d)
                for _ in range(k):
                    t = nmul(t, sq)
                tot = nadd(tot, t)
            return tot


def _dmerge(d1, d2):
    if not d1:
        return d2
    if not d2:
        return d1
    r = dict(d1)
    for f, e in d2:
        r[f] = r.get(f, 0) + e
    return tuple(sorted(r.items()))


def _cancel(n, d):
    if not d or not n:
        return n, (d if n else ())
    out = []
    for f, e in d:
        p = _fac[f]
        while e:
            q = pdiv_exact(n, p)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out.append((f, e))
    return n, tuple(out)


def nadd(a, b):
    if not a.n:
        return b
    if not b.n:
        return a
    if a.d == b.d:
        n = padd(a.n, b.n)
        if not n:
            return ZERO
        n, d = _cancel(n, a.d)
        return Num(n, d)
    da, db = dict(a.d), dict(b.d)
    lcm = dict(da)
    for f, e in db.items():
        if lcm.get(f, 0) < e:
            lcm[f] = e
    na, nb = a.n, b.n
    for f, e in lcm.items():
        k = e - da.get(f, 0)
        if k:
            na = pmul(na, ppow(_fac[f], k))
        k = e - db.get(f, 0)
        if k:
            nb = pmul(nb, ppow(_fac[f], k))
    n = padd(na, nb)
    if not n:
        return ZERO
    r = _reduce_sqrt(n, tuple(sorted(lcm.items())))
    n, d = _cancel(r.n, r.d)
    return Num(n, d)


def nneg(a):
    return Num(pneg(a.n), a.d)


def nsub(a, b):
    return nadd(a, nneg(b))


def nmul(a, b):
    if not a.n or not b.n:
        return ZERO
    # cross-cancel first (keeps products small)
    an, bd = _cancel(a.n, b.d)
    bn, ad = _cancel(b.n, a.d)
    r = _reduce_sqrt(pmul(an, bn), _dmerge(ad, bd))
    if not r.n:
        return ZERO
    if SQ:
        n, d = _cancel(r.n, r.d)
        return Num(n, d)
    return r


def split_factors(n):
    """n: poly -> (constant, [(factor id, exp)]) splitting off variable powers and known factors."""
    facs = {}
    # monomial content
    g = None
    for m in n:
        if g is None:
            g = m
        else:
            # field-wise min
            r = 0
            i = 0
            x, y = g, m
            while x and y:
                e = min(x & FIELD, y & FIELD)
                r |= e << (BITS * i)
                x >>= BITS
                y >>= BITS
                i += 1
            g = r
        if g == 0:
            break
    if g:
        n = {m - g: c for m, c in n.items()}
        for i, e in mono_items(g):
            f, _ = intern_factor({1 << (BITS * i): 1})
            facs[f] = facs.get(f, 0) + e
    const = 1
    if len(n) == 1 and 0 in n:
        return n[0], sorted(facs.items())
    if len(n) > 1:
        for f in range(len(_fac)):
            p = _fac[f]
            if len(p) < 2 or len(p) > len(n) * 4:
                continue
            while True:
                if len(n) < 2:
                    break
                q = pdiv_exact(n, p)
                if q is None:
                    break
                facs[f] = facs.get(f, 0) + 1
                n = q
    if len(n) == 1 and 0 in n:
        return n[0], sorted(facs.items())
    f, lc = intern_factor(n)
    facs[f] = facs.get(f, 0) + 1
    return lc, sorted(facs.items())


def ninv(a):
    c, facs = split_factors(a.n)
    n = {0: norm_coef(Fraction(1) / Fraction(c))}
    for f, e in a.d:
        n = pmul(n, ppow(_fac[f], e))
    r = _reduce_sqrt(n, tuple(facs))
    return r


def ndiv(a, b):
    c = b.const()
    if c is not None:
        return Num(pscale(a.n, Fraction(1) / Fraction(c)), a.d)
    return nmul(a, ninv(b))


def psqrt(p):
    """exact polynomial square root or None (leading-term algorithm)."""
    from math import isqrt
    if not p:
        return {}
    lm = max(p)
    half = 0
    for i, e in mono_items(lm):
        if e & 1:
            return None
        half |= (e >> 1) << (BITS * i)
    c = Fraction(p[lm])
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator:
        return None
    q = {half: norm_coef(Fraction(a, b))}
    r = padd(p, pneg(pmul(q, q)))
    guard = 0
    while r:
        guard += 1
        if guard > 400:
            return None
        m = max(r)
        t = mono_div(m, half)
        if t is None or t >= half:
            return None
        k = norm_coef(Fraction(r[m]) / (2 * Fraction(q[half])))
        term = {t: k}
        # r -= 2*q*term + term^2
        r = padd(r, pneg(padd(pscale(pmul(q, term), 2), pmul(term, term))))
        q = padd(q, term)
    return q
