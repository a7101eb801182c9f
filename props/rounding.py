"""Rounding errors of unknown sign in the inner products.

The samples are fixed grids, whose squared distance covariance is exactly 0; every
inner product of vectors carries a free error of at most 2**-40, so that the squared
covariance is a small number of any sign.  The roots must still be numbers >= 0.  A
counterexample is searched among grids in other units when it is replayed."""
from __future__ import annotations

from . import harness


def grid(c, p, q, u):
    n = [(i, j) for i in range(p) for j in range(q)]
    return c.array([u * i for i, _ in n]), c.array([u * j for _, j in n])


def units(c):
    if c.sym:
        return [c.const(1)]
    return [c.const(k / 10) for k in range(1, 60)] + [c.const(k * 7 + 0.3) for k in range(30)]


def is_number(c, label, v):
    c.le(label + " >= 0", 0, v)
    c.true(label + " is a number", bool(v == v))


@harness("C06", quick=[dict(p=p, q=q, m=m) for p, q in ((2, 2), (2, 3)) for m in (
    "naive", "avl", "mergesort", "auto")],
    attrs=dict(noise=True))
def rounded_roots(c, p, q, m, e=1):
    d = c.dcor
    kw = dict(method=m) if e == 1 else dict(method=m, exponent=e)
    for u in units(c):
        x, y = grid(c, p, q, u)
        is_number(c, "dcov", d.distance_covariance(x, y, **kw))
        is_number(c, "dcor", d.distance_correlation(x, y, **kw))
        s = d.distance_stats(x, y, **kw)
        is_number(c, "stats dcov", s.covariance_xy)
        is_number(c, "stats dcor", s.correlation_xy)
        is_number(c, "stats dvar", s.variance_x)


@harness("C21", quick=[dict(p=2, q=2), dict(p=2, q=3)], attrs=dict(noise=True))
def rounded_rowwise(c, p, q):
    d = c.dcor
    for u in units(c):
        x, y = grid(c, p, q, u)
        n = x.shape[0]
        X, Y = (c.array([[v[i] for i in range(n)]] * 2) for v in (x, y))
        for f in (d.distance_covariance, d.distance_correlation):
            is_number(c, "row", d.rowwise(f, X, Y)[0])
