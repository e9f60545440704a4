"""Shared pieces of the ellipsoid harnesses.  Everything here works on both the symbolic and the concrete context.

Ellipsoid E(xc, P) = { x : (x-xc)' P^-1 (x-xc) <= 1 }, P = kappa*M.  A pre-state is arbitrary: M = L^-T diag(d) L^-1 with
unit lower L and d > 0 (every symmetric positive-definite M), any centre, and kappa = t^2/(g'Mg) with t > 0 (every
kappa > 0), so that tau = sqrt(kappa g'Mg) = t.  The post-state is observed through the public API only: xc(), and
tsq() after a cut with an empty slab (rejected as NoSoln), which is h'P'h for the probe gradient h."""


def shape(c, n, name="m", zero_l=False):
    """(L entries, d, M) - an arbitrary positive-definite matrix in factored and in expanded form"""
    L = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i):
            L[i][j] = c.num(0) if zero_l else c.real(f"{name}l{i}{j}")
    d = [c.real(f"{name}d{i}", pos=True) for i in range(n)]
    # K = L^-1 (unit lower, polynomial)
    K = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i):
            K[i][j] = -sum((L[i][k] * K[k][j] for k in range(j, i)), 0)
    M = [[sum((K[k][i] * d[k] * K[k][j] for k in range(max(i, j), n)), 0) for j in range(n)] for i in range(n)]
    return L, d, M


def mul(M, v):
    return [sum((M[i][j] * v[j] for j in range(len(v))), 0) for i in range(len(v))]


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), 0)


def quad(M, v):
    return dot(v, mul(M, v))


def lst(a):
    return [a[i] for i in range(len(a))]


class Keep:
    """arrays handed out by earlier answers: they must not change later"""

    def __init__(self, c):
        self.c, self.items = c, []

    def add(self, *arrays):
        for a in arrays:
            if hasattr(a, "__len__") and hasattr(a, "shape") and a.shape != ():
                self.items.append((a, [a[i, j] for i in range(a.shape[0]) for j in range(a.shape[1])] if len(a.shape) == 2 else lst(a)))

    def check(self):
        c = self.c
        for a, v in self.items:
            now = [a[i, j] for i in range(a.shape[0]) for j in range(a.shape[1])] if len(a.shape) == 2 else lst(a)
            c.prove(c.And(len(now) == len(v), *[c.eq(x, y) for x, y in zip(now, v)]), "an earlier answer does not change later")


def module_cls(c, kind):
    return c.mod("ellalgo.ell").Ell if kind == "Ell" else c.mod("ellalgo.ell_stable").EllStable


def status(c):
    return c.mod("ellalgo.ell_config").CutStatus


def layout_ok(c, kind):
    """is the state stored the documented way (_kappa, _mq)?  Otherwise the harness reaches states through the
    constructor only and reads them through the public API only"""
    cls = module_cls(c, kind)
    try:
        a = cls(c.num(2), c.arr([0, 0]))
        if not (a._kappa == 2 and a._mq[0, 0] == 1 and a._mq[1, 1] == 1 and a._mq[1, 0] == 0):
            return False
        b = cls(c.arr([1, 2]), c.arr([0, 0]))
        if not (b._kappa == 1 and b._mq[0, 0] == 1 and b._mq[1, 1] == 2 and b._mq[1, 0] == 0):
            return False
        b.update_central_cut((c.arr([1, 2]), 0))          # tau = 3
        P = attr_P(c, b, 2)
        for h, want in (((1, 0), P[0][0]), ((0, 1), P[1][1]), ((1, 1), P[0][0] + 2 * P[0][1] + P[1][1])):
            b.update_bias_cut((c.arr(h), (c.num(1), c.num(0))))
            if abs(b.tsq() - want) > c.const("1/1000000000"):
                return False
        return True
    except Exception:
        return False


def make_space(c, kind, n, L, d, M, kappa, xc, junk=True):
    """a space object in the given state"""
    sp = module_cls(c, kind)(c.num(1), c.arr(xc))
    sp._kappa = kappa
    if kind == "Ell":
        sp._mq = c.arr([[M[i][j] + c.num(0) for j in range(n)] for i in range(n)])
    else:
        rows = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if i == j:
                    rows[i][j] = d[i]
                elif j < i:
                    rows[i][j] = L[i][j]
                else:
                    rows[i][j] = c.real(f"junk{i}{j}") if junk else c.num(0)
        sp._mq = c.arr(rows)
    return sp


def probe(c, sp, h):
    """h' P h, observed through the public API (a cut with an empty slab must change nothing)"""
    hp = getattr(sp, "helper", None)
    if hp is not None and getattr(hp, "use_parallel_cut", True) is False:
        hp.use_parallel_cut = True
    st = sp.update_bias_cut((c.arr([x + c.num(0) for x in h]), (c.num(1), c.num(0))))
    if st == status(c).NoEffect:
        return c.num(0)            # the ellipsoid is flat in direction h (only after a tangent cut)
    c.prove(st == status(c).NoSoln, "empty slab is rejected as NoSoln")
    return sp.tsq()


def basis(n, i, j=None):
    v = [0] * n
    v[i] = 1
    if j is not None:
        v[j] += 1
    return v


def attr_P(c, sp, n):
    """P read from the object's storage (None if the storage is not laid out as documented)"""
    try:
        k, m = sp._kappa, sp._mq
        if type(sp).__name__ == "Ell":
            return [[k * m[i, j] for j in range(n)] for i in range(n)]
        if type(sp).__name__ == "EllStable":
            K = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
            for i in range(n):
                for j in range(i):
                    K[i][j] = -sum((m[i, l] * K[l][j] for l in range(j, i)), 0)
            return [[k * sum((K[l][i] * m[l, l] * K[l][j] for l in range(max(i, j), n)), 0) for j in range(n)] for i in range(n)]
    except (AttributeError, IndexError, TypeError):
        pass
    return None


def observe_P(c, sp, n):
    if c.symbolic:
        P = attr_P(c, sp, n)
        if P is not None and layout_ok(c, type(sp).__name__):
            return P
    return probe_P(c, sp, n)


def probe_P(c, sp, n):
    P = [[None] * n for _ in range(n)]
    for i in range(n):
        P[i][i] = probe(c, sp, basis(n, i))
    for i in range(n):
        for j in range(i):
            P[i][j] = P[j][i] = (probe(c, sp, basis(n, i, j)) - P[i][i] - P[j][j]) / 2
    return P


class Pre:
    rebuild = None
    axis = None        # 2: Pg is along the last axis (e0 is perpendicular); 1: along e0


class StubCalc:
    """stands for EllCalc: returns arbitrary (rho, sigma, delta) and records how it was asked"""
    use_parallel_cut = True

    def __init__(self, result):
        self.result = result
        self.calls = []

    def _go(self, name, beta, tsq):
        self.calls.append((name, beta, tsq))
        return self.result

    def calc_single_or_parallel(self, beta, tsq):
        return self._go("bias", beta, tsq)

    def calc_single_or_parallel_central_cut(self, beta, tsq):
        return self._go("central", beta, tsq)

    def calc_single_or_parallel_q(self, beta, tsq):
        return self._go("q", beta, tsq)


def update(sp, op):
    return {"bias": sp.update_bias_cut, "central": sp.update_central_cut, "q": sp.update_q}[op]


def sample_cuts(t):
    """(op, beta, (y low, y high)) used only when a stub-level counterexample is replayed with the real calculator"""
    out = [("central", 0.0, (-t, 0.0)), ("central", (0.0, 0.3 * t), (-0.3 * t, 0.0))]
    for k in (0.0, 0.1, 0.3, 0.5, 0.7, 0.9):
        out.append(("bias", k * t, (-t, -k * t)))
        out.append(("q", k * t, (-t, -k * t)))
        for w in (0.05, 0.2):
            if k + w < 1:
                out.append(("bias", (k * t, (k + w) * t), (-(k + w) * t, -k * t)))
                out.append(("q", (k * t, (k + w) * t), (-(k + w) * t, -k * t)))
    out += [("q", -0.1 * t, (-t, 0.1 * t)), ("q", (-0.1 * t, 0.2 * t), (-0.2 * t, 0.1 * t)), ("q", (-0.2 * t, 0.1 * t), (-0.1 * t, 0.2 * t))]
    return out


def fresh_copy(c, s):
    """the same pre-state again (concrete replay)"""
    r = Pre()
    r.__dict__.update(s.__dict__)
    r.sp = build(c, s)
    return r


def stub_update(c, kind, n, op, mode="any"):
    """update algebra for arbitrary calculator output: the post-state is the rank-one transform given by (rho, sigma, delta)"""
    s = state(c, kind, n, mode)
    b = c.real("b")
    if not c.symbolic:
        for o, beta, (lo, hi) in sample_cuts(s.t):
            r = fresh_copy(c, s)
            if update(r.sp, o)((r.gv.copy(), beta)) == status(c).Success:
                concrete_contains(c, r, lo, hi, f"retained region stays inside ({o}, {beta})")
        return
    rho, sigma, delta = c.real("rho"), c.real("sigma"), c.real("delta", pos=True)
    c.assume(c.And(c.gt(sigma, 0), c.lt(sigma, 1)))
    stub = StubCalc((status(c).Success, (rho, sigma, delta)))
    s.sp.helper = stub
    st = update(s.sp, op)((s.gv, b))
    if len(stub.calls) != 1:
        raise c.unsupported("the calculator is not consulted through the expected methods")
    nm, bb, tt = stub.calls[0]
    c.reach("success")
    c.prove(st == status(c).Success, "status of the calculator is returned")
    c.prove(nm == op, "the strategy for this kind of cut is used")
    c.prove(c.eq(bb, b), "beta reaches the calculator")
    c.prove(c.eq(tt, s.T), "tau^2 = kappa g'Mg reaches the calculator")
    x1 = lst(s.sp.xc())
    P1 = observe_P(c, s.sp, n)
    for i in range(n):
        c.prove(c.eq(x1[i], s.xc[i] - rho * s.Pg[i] / s.T), f"centre moves by -rho/T Pg [{i}]")
        for j in range(i + 1):
            c.prove(c.eq(P1[i][j], delta * (s.P[i][j] - sigma / s.T * s.Pg[i] * s.Pg[j])), f"shape = delta(P - sigma/T Pg Pg') [{i}{j}]")


SPOT_L = {2: [(1, 0, "1/2")], 3: [(1, 0, "1/2"), (2, 0, -1), (2, 1, "1/3")], 4: [(1, 0, "1/2"), (2, 1, -1), (3, 0, 2), (3, 2, "1/3")], 5: [(2, 0, 1), (4, 1, "-1/2"), (4, 3, 2)],
          8: [(3, 1, 1), (7, 0, "1/2"), (6, 5, -1)], 12: [(5, 2, 1), (11, 3, -1)], 20: [(12, 0, 1), (19, 7, "-1/2")]}


def spot_shape(c, n, diagonal=False):
    """one fixed positive-definite shape (larger n, where a fully symbolic one is out of reach)"""
    L = [[c.num(1 if i == j else 0) for j in range(n)] for i in range(n)]
    for i, j, v in [] if diagonal else SPOT_L.get(n, []):
        L[i][j] = c.const(v)
    d = [c.const(f"{3 + 2 * (i % 3)}/{2 + i % 2}") for i in range(n)]
    K = [[c.num(1 if i == j else 0) for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i):
            K[i][j] = -sum((L[i][k] * K[k][j] for k in range(j, i)), c.num(0))
    M = [[sum((K[k][i] * d[k] * K[k][j] for k in range(max(i, j), n)), c.num(0)) for j in range(n)] for i in range(n)]
    return L, d, M


def pre_state(c, kind, n, sym_xc=True, tname="t", spot=None, gvars=None, lastaxis=False, both=False, gint=False):
    """arbitrary pre-state together with an arbitrary non-zero gradient, tau = t.
    spot: fixed shape matrix, gradient symbolic in the coordinates `gvars` only; gint: a gradient of integer type"""
    s = Pre()
    s.n, s.kind = n, kind
    s.api_only = not all(layout_ok(c, k) for k in (("Ell", "EllStable") if both else (kind,)))
    if spot:
        s.L, s.d, s.M = spot_shape(c, n, diagonal=s.api_only)
        s.g = [(c.integer(f"g{i}", -9, 9) if gint else c.real(f"g{i}")) if i in gvars else c.const(f"{(i * 5) % 7 - 3}") for i in range(n)]
    elif s.api_only:
        s.L, s.d, s.M = shape(c, n, zero_l=True)
        s.g = [c.real(f"g{i}") for i in range(n)]
        c.assume(c.ne(s.g[0], 0))
    elif lastaxis:
        # gradient with Mg along the last axis: g = L D^-1 L' w
        s.L, s.d, s.M = shape(c, n)
        w = c.real("w")
        lw = [s.L[n - 1][k] * w / s.d[k] for k in range(n)]         # D^-1 L' w e_last
        s.g = [sum((s.L[i][k] * lw[k] for k in range(i + 1)), c.num(0)) for i in range(n)]
        s.axis = 2
    else:
        s.L, s.d, s.M = shape(c, n)
        s.g = [c.real(f"g{i}") for i in range(n)]
    om = quad(s.M, s.g)
    c.assume(c.gt(om, 0))          # g != 0
    s.t = c.real(tname, pos=True)
    s.T = s.t * s.t
    s.kappa = s.T / om
    s.P = [[s.kappa * s.M[i][j] for j in range(n)] for i in range(n)]
    s.Pg = [s.kappa * x for x in mul(s.M, s.g)]
    s.xc = [c.real(f"x{i}") if sym_xc else c.num(0) for i in range(n)]
    s.sp = build(c, s)
    s.gv = c.iarr([int(x) if not c.symbolic else x for x in s.g]) if gint else c.arr(s.g)
    return s


def state(c, kind, n, mode="any", both=False):
    """pre-state by mode: any | spot | repeat (one central cut along the same direction happened before)
    | long (many deep cuts along the axes happened before, interleaved with rejected ones)"""
    if mode == "any":
        return pre_state(c, kind, n, both=both)
    if mode == "other":
        foreign(c, n)
        s = pre_state(c, kind, n, both=both)
        foreign(c, n)
        return s
    if mode == "lastaxis":
        return pre_state(c, kind, n, lastaxis=True, both=both)
    if mode == "int":
        return pre_state(c, kind, n, spot=True, gvars=[0, n - 1], both=both, gint=True)
    if mode.startswith("spot"):
        return pre_state(c, kind, n, spot=True, gvars=[0, n - 1] if kind == "EllStable" or mode == "spot2" else [0, 1, n - 1], both=both)
    if mode == "repeat":
        s = pre_state(c, kind, n, both=both)
        sg = -1 if c.choice("flip", 2) else 1
        if sg < 0:                               # the caller reuses one gradient array
            s.gv *= -1
        st = s.sp.update_central_cut((s.gv, c.num(0)))
        if sg < 0:
            s.gv *= -1
        c.prove(st == status(c).Success, "central cut of a non-degenerate ellipsoid succeeds")
        nn = c.const(f"{n}/{n + 1}")
        sigma, delta = c.const(f"2/{n + 1}"), c.const(f"{n * n}/{n * n - 1}")
        s.xc = [s.xc[i] - sg * s.Pg[i] / (s.t * (n + 1)) for i in range(n)]
        s.P = [[delta * (s.P[i][j] - sigma / s.T * s.Pg[i] * s.Pg[j]) for j in range(n)] for i in range(n)]
        s.t = nn * s.t
        s.T = s.t * s.t
        s.Pg = mul(s.P, s.g)
        return s
    if mode.startswith("long"):
        return long_state(c, kind, n, int(mode[4:] or 24))
    if mode.startswith("dense"):
        return dense_state(c, kind, n, int(mode[5:]))
    raise ValueError(mode)


def foreign(c, n):
    """other spaces, of other dimensions, come and go"""
    for k, kind in ((n + 3, "Ell"), (n + 1, "EllStable"), (2 * n, "EllStable"), (n + 1, "Ell")):
        o = module_cls(c, kind)(c.arr([4] * k), c.arr([1] * k))
        o.update_central_cut((c.arr(basis(k, 1)), c.num(0)))
        o.update_bias_cut((c.arr(basis(k, 0)), (c.num(1), c.num(1))))
        o.update_q((c.arr(basis(k, k - 1)), c.const("1/2")))


UNITS = {2: ["3/5 4/5", "-4/5 3/5", "5/13 12/13", "0 1", "-3/5 4/5", "8/17 -15/17", "4/5 3/5"],
         3: ["1/3 2/3 2/3", "-2/7 3/7 6/7", "2/3 -2/3 1/3", "6/7 2/7 -3/7", "-2/3 -1/3 2/3", "0 3/5 4/5", "3/7 6/7 2/7"],
         4: ["1/2 1/2 1/2 1/2", "-1/2 1/2 1/2 -1/2", "1/2 -1/2 1/2 -1/2", "1/2 1/2 -1/2 -1/2", "1/5 2/5 2/5 4/5", "2/5 -1/5 -4/5 2/5", "4/5 -2/5 2/5 -1/5", "2/5 4/5 -1/5 -2/5"]}


def dense_history(n, steps):
    """deep cuts (alpha = 1/n, so delta = 1) along directions in general position. P = B B' with a rational B;
    the gradient B^-T u with u'u = 1 has tau = 1, and the cut turns B into B(I - (1-f)uu'), f = (n-1)/(n+1).
    Returns the squared semi-axes and centre to start from, the cuts (gradient, tau), and centre, B, B^-T at the end"""
    from fractions import Fraction as F
    units = [[F(x) for x in u.split()] for u in UNITS[n]]
    B = [[F(10 * (2 + i)) if i == j else F(0) for j in range(n)] for i in range(n)]
    C = [[1 / B[i][i] if i == j else F(0) for j in range(n)] for i in range(n)]            # B^-T
    xc = [F(i) for i in range(n)]
    f = F(n - 1, n + 1)
    d0, x0, moves = [B[i][i] ** 2 for i in range(n)], list(xc), []
    for k in range(steps):
        u = max(units, key=lambda v: quad([[sum(B[r][i] * B[r][j] for r in range(n)) for j in range(n)] for i in range(n)], v))   # keeps B well conditioned
        g = mul(C, u)
        Bu = mul(B, u)
        sc = F((k % 3) + 1, 2)
        moves.append((k, [sc * x for x in g], sc))
        xc = [xc[i] - F(2, n + 1) * Bu[i] for i in range(n)]
        B = [[B[i][j] - (1 - f) * Bu[i] * u[j] for j in range(n)] for i in range(n)]
        C = [[C[i][j] - (1 - 1 / f) * g[i] * u[j] for j in range(n)] for i in range(n)]
    return d0, x0, moves, xc, B, C, units


def dense_state(c, kind, n, steps):
    """after a history of cuts along directions in general position"""
    lam = c.real("lam")
    c.assume(c.ne(lam, 0))
    s = Pre()
    s.n, s.kind, s.api_only = n, kind, True
    con = lambda x: c.const(str(x))                                                        # noqa: E731
    St = status(c)
    d0, x0, moves, xc, B, C, units = dense_history(n, steps)

    def rebuild():
        sp = module_cls(c, kind)(c.arr([con(x) for x in d0]), c.arr([con(x) for x in x0]))
        for k, g, sc in moves:
            ga = [con(x) for x in g]
            if k % 5 == 2:
                sp.update_bias_cut((c.arr(ga), con(2 * sc)))                              # misses the ellipsoid: rejected
            st = (sp.update_q if k % 4 == 3 else sp.update_bias_cut)((c.arr(ga), con(sc / n)))
            c.prove(c.eq(sp.tsq(), con(sc * sc)), f"step {k} of the history cuts the ellipsoid it should")
            c.prove(st == St.Success, f"step {k} of the history succeeds")
        return sp
    s.rebuild = rebuild
    s.sp = rebuild()
    s.xc = [con(x) for x in xc]
    s.P = [[con(sum(B[i][k] * B[j][k] for k in range(n))) for j in range(n)] for i in range(n)]
    s.g = [lam * con(x) for x in mul(C, units[0])]
    s.t = lam if c.is_true(c.gt(lam, 0)) else -lam
    s.T = s.t * s.t
    s.Pg = mul(s.P, s.g)
    s.gv = c.arr(s.g)
    return s


def long_state(c, kind, n, steps):
    """alpha = 1/n cuts along the axes keep every square root rational: delta = 1, tau' = tau (n-1)/(n+1)"""
    lam = c.real("lam")
    c.assume(c.ne(lam, 0))
    s = Pre()
    s.n, s.kind, s.api_only = n, kind, True
    tau = [c.const(f"{2 + i}") * 1000 for i in range(n)]
    s.xc = [c.num(0) for _ in range(n)]
    s.sp = module_cls(c, kind)(c.arr([x * x for x in tau]), c.arr(s.xc))
    f = c.const(f"{n - 1}/{n + 1}")
    St = status(c)
    for k in range(steps):
        i = (k * k + k // 3) % n
        sg = 1 if (k // 2) % 3 else -1
        v = [c.num(0)] * n
        v[i] = c.num(2 * sg)
        if k % 5 == 2:
            s.sp.update_bias_cut((c.arr(v), 4 * tau[i]))                  # misses the ellipsoid: rejected
        st = (s.sp.update_q if k % 4 == 3 else s.sp.update_bias_cut)((c.arr(v), 2 * tau[i] * c.const(f"1/{n}")))
        c.prove(c.eq(s.sp.tsq(), 4 * tau[i] * tau[i]), f"step {k} of the history cuts the ellipsoid it should")
        c.prove(st == St.Success, f"step {k} of the history succeeds")
        rho = 4 * tau[i] / (n + 1)                                        # eta/(n+1), eta = 2*(2 tau)
        s.xc[i] = s.xc[i] - sg * rho / 2
        tau[i] = tau[i] * f
    i = c.choice("axis", n)
    s.axis = 1 if i == 0 else 2
    s.g = [lam if j == i else c.num(0) for j in range(n)]
    s.P = [[tau[a] * tau[a] if a == b else c.num(0) for b in range(n)] for a in range(n)]
    s.t = (lam if c.is_true(c.gt(lam, 0)) else -lam) * tau[i]
    s.T = s.t * s.t
    s.Pg = mul(s.P, s.g)
    s.gv = c.arr(s.g)
    return s


def flat_state(c, kind, n, how):
    """an axis-aligned ellipsoid of any size after a cut along the first axis that leaves a point ("point": tangent deep cut) or a flat
    piece ("flat": the two planes of a slab coincide).  Returns the space, its centre and its squared half-widths along the axes"""
    h = [c.real(f"h{i}", pos=True) for i in range(n)]
    x = [c.real(f"x{i}") for i in range(n)]
    sp = module_cls(c, kind)(c.arr([t * t for t in h]), c.arr(x))
    g = [c.num(2) if i == 0 else c.num(0) for i in range(n)]
    if how == "point":
        st = sp.update_bias_cut((c.arr(g), 2 * h[0]))
        xc, w = [x[0] - h[0]] + x[1:], [c.num(0)] * n
    else:
        b = c.real("f", nonneg=True)
        c.assume(c.lt(b, h[0]))
        st = sp.update_bias_cut((c.arr(g), (2 * b, 2 * b)))
        xc = [x[0] - b] + x[1:]
        # the slice has relative size 1 - (b/h)^2; the smallest ellipsoids around thinner and thinner slabs tend to one n/(n-1) as large
        w = [c.num(0)] + [n * h[i] * h[i] * (1 - b * b / (h[0] * h[0])) / (n - 1) for i in range(1, n)]
    c.prove(st == status(c).Success, "the first cut succeeds")
    return sp, xc, w


def build(c, s):
    """a fresh space in the state s"""
    if s.rebuild:
        return s.rebuild()
    if not s.api_only:
        return make_space(c, s.kind, s.n, s.L, s.d, s.M, s.kappa, s.xc)
    return module_cls(c, s.kind)(c.arr([s.P[i][i] for i in range(s.n)]), c.arr(s.xc))


def unchanged(c, s, label):
    """the space still is the pre-state"""
    x = s.sp.xc()
    c.prove(c.And(*[c.eq(x[i], s.xc[i]) for i in range(s.n)]), label + ": centre unchanged")
    P = observe_P(c, s.sp, s.n)
    c.prove(c.And(*[c.eq(P[i][j], s.P[i][j]) for i in range(s.n) for j in range(i + 1)]), label + ": shape unchanged")


def perp(v):
    """a non-zero vector orthogonal to v (first two coordinates; caller handles v0=v1=0)"""
    h = [0] * len(v)
    h[0], h[1] = -v[1], v[0]
    return h


def post_params(c, s):
    """rho, sigma, delta of the post-state, after establishing that the post-state has the rank-one form
       xc' = xc - rho/T P g,   P' = delta (P - sigma/T Pg Pg')"""
    n = s.n
    x1 = lst(s.sp.xc())
    P1 = observe_P(c, s.sp, n)
    s.x1, s.P1 = x1, P1
    # direction h with h'Pg = 0
    h = perp(s.Pg)
    if s.axis:
        h = basis(n, 0 if s.axis == 2 else 1)
    elif n > 2:
        c.assume(c.Or(c.ne(s.Pg[0], 0), c.ne(s.Pg[1], 0)))
    c.axiom(c.gt(quad(s.P, h), 0))      # P is positive definite and h != 0
    rho = dot(s.g, [s.xc[i] - x1[i] for i in range(n)])
    delta = quad(P1, h) / quad(s.P, h)
    rest = quad(P1, s.g) / s.T          # delta*(1-sigma)
    return rho, delta, rest


def form_claims(c, s, rho, delta, rest):
    n = s.n
    for i in range(n):
        c.prove(c.eq(s.xc[i] - s.x1[i], rho * s.Pg[i] / s.T), f"centre moves along Pg [{i}]")
    for i in range(n):
        for j in range(i + 1):
            c.prove(c.eq(s.P1[i][j], delta * s.P[i][j] - (delta - rest) / s.T * s.Pg[i] * s.Pg[j]),
                    f"shape changes only along the cut [{i}{j}]")


def scalar_containment(c, T, rho, delta, rest, ylo, yhi, tag, yname="y", flat=True):
    """every y in [ylo,yhi] (y = g'(x-xc) of a retained point) satisfies (y+rho)^2/(rest T) + (1-y^2/T)/delta <= 1"""
    c.prove(c.ge(delta, 0), tag + ": delta >= 0")
    c.prove(c.ge(rest, 0), tag + ": delta(1-sigma) >= 0")

    def C(y):     # multiplied by T*delta*rest >= 0
        return delta * (y + rho) * (y + rho) + (T - y * y) * rest - delta * rest * T
    if c.is_true(c.ge(delta, rest)):      # sigma >= 0: C convex in y, so the interval ends decide
        c.prove(c.le(C(ylo), 0), tag + ": far end retained")
        c.prove(c.le(C(yhi), 0), tag + ": near end retained")
    else:
        y = c.real(yname)
        c.assume(c.And(c.ge(y, ylo), c.le(y, yhi)))
        c.prove(c.le(C(y), 0), tag + ": every retained point")
    if flat and c.is_true(c.eq(rest * delta, 0)):
        c.prove(c.And(c.eq(ylo, yhi), c.eq(rho, -ylo), c.le(T - ylo * ylo, delta * T)),
                tag + ": goes flat only when the retained region is flat")


# ----------------------------------------------------------------------- concrete containment (replay)

def concrete_contains(c, s, ylo, yhi, label):
    """max over the retained region of (x-xc')'P'^-1(x-xc'), by dense boundary evaluation (replay only)"""
    np = c.np
    n = s.n
    P = np.array(s.P, float)
    xc = np.array(s.xc, float)
    x1 = np.array(lst(s.sp.xc()), float)
    P1 = np.array(observe_P(c, s.sp, n), float)
    if not (np.all(np.isfinite(P1)) and np.all(np.isfinite(x1))):
        c.fail(label + " (not finite)")
        return
    g = np.array(s.g, float)
    R = np.linalg.cholesky(P)
    gg = R.T @ g                       # x = xc + R u, |u| <= 1, y = gg.u
    t = np.linalg.norm(gg)
    e = gg / t
    Q = np.linalg.qr(np.column_stack([e, np.eye(n)]))[0]
    if Q[:, 0] @ e < 0:
        Q = -Q
    pts = []
    ys = np.linspace(max(float(ylo), -t), min(float(yhi), t), 41)
    rng = np.random.RandomState(7)
    for y in ys:
        r = np.sqrt(max(0.0, 1 - (y / t) ** 2))
        if n == 2:
            dirs = [Q[:, 1], -Q[:, 1]]
        else:
            D = rng.randn(40, n - 1)
            D /= np.linalg.norm(D, axis=1)[:, None]
            dirs = list(D @ Q[:, 1:n].T) + [Q[:, k] for k in range(1, n)] + [-Q[:, k] for k in range(1, n)]
        for dd in dirs:
            pts.append(xc + R @ (y / t * e + r * dd))
    w, V = np.linalg.eigh((P1 + P1.T) / 2)
    worst = 0.0
    if w.min() < -1e-9 * max(abs(w).max(), np.linalg.eigvalsh(P).max()):
        c.fail(label + " (shape matrix not positive semidefinite)")
        return
    w = np.maximum(w, 1e-10 * np.linalg.eigvalsh(P).max())     # rounding of a (nearly) collapsed ellipsoid
    for p in pts:
        z = V.T @ (p - x1)
        worst = max(worst, float(np.sum(z * z / w)))
    c.prove(worst <= 1 + 1e-6, label)


def beta_form(c, form, *b):
    """the accepted spellings of a cut offset"""
    if form == "scalar":
        return b[0]
    return {"tuple": tuple, "list": list, "array": c.arr}[form](list(b))


def single_form(c, s, form, b):
    """spellings of a one-sided offset"""
    if form == "scalar" or form == "npfloat":
        return b if form == "scalar" or c.symbolic else c.np.float64(b)
    if form == "single_of_pair":            # parallel cuts switched off: only the first offset counts
        s.sp.helper.use_parallel_cut = False
        return (b, c.real("ignored"))
    return {"list1": lambda: [b], "tuple1": lambda: (b,), "array1": lambda: c.arr([b])}[form]()


def calculator(c, n):
    return c.mod("ellalgo.ell_calc").EllCalc(n)


def names(tasks):
    def task(name):
        return next(t for t in tasks if t["name"] == name)
    return task


def window(c, T, t, b0, b1):
    """retained range of y = g'(x-xc) for the slab b0 <= -y <= b1 (b1 None: half-space), within the ellipsoid"""
    far = t
    if b1 is not None:
        far = b1 if c.is_true(c.lt(b1, t)) else t
    return -far, -b0
