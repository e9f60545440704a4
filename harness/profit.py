"""Shared pieces of the profit-oracle harnesses.

Every quantity the code takes a logarithm of is given by its logarithm (p*A = e^lp, k = e^lk, gamma + costs = e^lQ), so the
comparisons in the code are exact.  exp is an uninterpreted positive function; the facts about it handed to the solver are
instances of  e^t >= 1 + t,  monotonicity, and e^(s+t) = e^s e^t.  gamma >= 0 (profit levels), prices > 0, any elasticities."""
from . import lib

ASSUMPTIONS = ["gamma >= 0, prices > 0, p*A > 0, limit > 0 (what the logarithms need); any elasticities",
               "facts about exp handed to the solver: e^t >= 1+t, monotonicity, multiplicativity"]


class Setup:
    pass


def monotone(c, pairs):
    """pairs (t, e^t): order-preserving"""
    for i in range(len(pairs)):
        for j in range(i):
            (a, ea), (b, eb) = pairs[i], pairs[j]
            c.axiom(c.Iff(c.le(a, b), c.le(ea, eb)))
            c.axiom(c.Iff(c.le(b, a), c.le(eb, ea)))


def setup(c, ints=False):
    m = Setup()
    m.lp, m.lk, m.lA = c.real("lp"), c.real("lk"), c.real("lA")
    m.P, m.K, m.A = c.exp(m.lp), c.exp(m.lk), c.exp(m.lA)
    m.a = [1, 2] if ints else [c.real("a0"), c.real("a1")]
    m.v = [c.real("v0", pos=True), c.real("v1", pos=True)]
    m.ea, m.va = (c.iarr if ints else c.arr)(m.a), c.arr(m.v)
    return m


def foreign(c, name):
    """another oracle of the same kind is used in between"""
    cls = getattr(c.mod("ellalgo.oracles.profit_oracle"), name)
    extra = ((c.num(1), c.num(1), c.num(1), c.num(1), c.num(1)),) if name == "ProfitRbOracle" else ()
    o = cls((c.num(7), c.num(1), c.num(3)), c.arr([c.const("1/4"), c.const("1/2")]), c.arr([1, 2]), *extra)
    for x in ([0, 0], [3, 1]):
        (o.assess_optim if name != "ProfitQOracle" else lambda p, g: o.assess_optim_q(p, g, False))(c.arr(x), c.num(0))


def refill(a, x):
    for i, t in enumerate(x):
        a[i] = t
    return a


def params(m):
    return (m.P / m.A, m.A, m.K)


def point(c, m, tag=""):
    """a point and a level: x, y = e^x, gamma with gamma + v.y = e^lQ"""
    q = Setup()
    q.x = [c.real(f"x{tag}0"), c.real(f"x{tag}1")]
    q.y = [c.exp(t) for t in q.x]
    q.lQ = c.real(f"lQ{tag}")
    q.Q = c.exp(q.lQ)
    q.vy = m.v[0] * q.y[0] + m.v[1] * q.y[1]
    q.gamma = q.Q - q.vy
    c.assume(c.ge(q.gamma, 0))
    return q


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


GRID = [0.0, 1e-3, -1e-3, 0.02, -0.02, 0.1, -0.1, 0.3, -0.3, 0.8, -0.8, 2.0, -2.0, 5.0, -5.0]


def value(e, a, z):
    """worst-case log output, up to lp: sum a_i z_i - e_i |z_i|"""
    return sum(a[i] * z[i] - (e[i] * abs(z[i]) if e else 0) for i in range(2))


def valid_cut(c, m, x, y, Q, lQ, gamma, g, beta, label, e=None, also=None):
    """every z with z0 <= lk whose (worst-case) profit is at least gamma satisfies g.(z-x) + beta <= 0.
    Q = gamma + v.y = e^lQ at x.  also: an alternative claim that is accepted instead"""
    if not c.symbolic:
        vx = [float(t) for t in x]
        dl0 = (c.real("dl0"), c.real("dl1"))
        bad = None
        for d in [dl0] + [(p, q) for p in GRID for q in GRID]:
            z = (vx[0] + d[0], vx[1] + d[1])
            try:
                qz = gamma + m.v[0] * c.math.exp(z[0]) + m.v[1] * c.math.exp(z[1])
                cz = c.math.exp(m.lp + value(e, m.a, z))
            except OverflowError:
                continue
            if qz <= 0 or z[0] > m.lk or qz > cz:
                continue
            t = c.le(g[0] * d[0] + g[1] * d[1] + beta, 0)
            if t.v is False:
                bad = t
        c.prove(c.Or(bad, also) if bad is not None and also is not None else (bad if bad is not None else True), label)
        return
    if also is not None and (also is True or (not isinstance(also, bool) and getattr(also, "e", None) is None and also)):
        c.prove(True, label)
        return
    dl = [c.real("dl0"), c.real("dl1")]
    z = [x[i] + dl[i] for i in range(2)]
    s = (m.v[0] * y[0] * dl[0] + m.v[1] * y[1] * dl[1]) / Q
    E = c.exp(s)
    u = [c.exp(dl[i] - s) for i in range(2)]
    Qz = gamma + E * (m.v[0] * y[0] * u[0] + m.v[1] * y[1] * u[1])
    for i in range(2):
        c.axiom(c.ge(E * m.v[i] * y[i] * (u[i] - 1 - dl[i] + s), 0))
    c.axiom(c.ge(gamma * (1 - E * (1 - s)), 0))
    lz = m.lp + dot(m.a, z)
    if e:
        for i in range(2):
            lz = lz - e[i] * (z[i] if c.is_true(c.ge(z[i], 0)) else -z[i])
    Cz = c.exp(lz)
    c.assume(c.le(z[0], m.lk))
    c.assume(c.le(Qz, Cz))
    c.prove(c.ge(Qz, Q * E), "costs of any point lie above the tangent (log-sum-exp)")
    c.axiom(c.Implies(c.le(Q * E, Cz), c.le(lQ + s, lz)))
    claim = c.le(dot(g, dl) + beta, 0)
    c.prove(c.Or(claim, also) if also is not None else claim, label)


def untouched(c, m, xa, x):
    c.prove(c.And(*[c.eq(m.ea[i], m.a[i]) for i in range(2)], *[c.eq(m.va[i], m.v[i]) for i in range(2)]), "elasticities and prices are not modified")
    c.prove(c.And(*[c.eq(xa[i], x[i]) for i in range(2)]), "the point is not modified")
