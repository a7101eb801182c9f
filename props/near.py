"""Samples close to a special case: y is x plus t times a fixed perturbation.

The only unknown is t, in [2^-12, 1/8]: the correlation is as close to 1 (the
projections as close to vanishing) as 2^-24 without reaching it.  They decide whether
nearly degenerate samples are treated as degenerate ones."""
from __future__ import annotations

from fractions import Fraction

from symx import ref
from . import harness
from .corr import NRA
from .dcov import ATOMS

A = {4: [0, 1, 3, 7], 5: [0, 1, 3, 7, 9], 6: [0, 2, 3, 7, 11, 12]}
W = {4: [0, 1, 0, -1], 5: [1, 0, 0, 1, -1], 6: [0, 1, 0, -1, 0, 0]}
B = {5: [1, 1, 6, 3, 0], 6: [1, 1, 6, 3, 0, 2]}
LO, HI = Fraction(1, 2 ** 12), Fraction(1, 8)


def small(c, name="t"):
    t = c.real(name)
    if not c.sym:
        return t if float(LO) <= t <= float(HI) else t * 0 + float(LO) * 3
    c.assume(t >= LO)
    c.assume(t <= HI)
    c.e.know_sign(t.n, c.core.rv(Fraction(0)), 4)
    t.nonneg = True
    return t


def pair(c, n, rev=False):
    t = small(c)
    a = [c.const(v) for v in A[n]]
    b = [u + t * w for u, w in zip(a, W[n])]
    if c.sym:                   # t <= 1/8 keeps the order
        for i in range(n):
            for j in range(i):
                c.e.know_sign((b[i] - b[j]).n, c.core.rv(Fraction(0)), 4)
    if rev:
        b = [-v for v in b]
    return t, c.array(a), c.array(b)


def moments(c, x, y, u):
    cen, s = (ref.ucenter, len(x) * (len(x) - 3)) if u else (ref.dcenter, len(x) ** 2)
    X, Y = (cen(ref.dmat(c, v)) for v in (x, y))
    return [ref.inner(p, q) / s for p, q in ((X, X), (Y, Y), (X, Y))]


@harness(["C05", "C06"], quick=[dict(n=n, m=m) for n in (4, 5) for m in ("naive", "avl", "mergesort")]
         + [dict(n=5, m="auto", rev=True)], attrs=ATOMS, engine=NRA)
def nearly_equal_correlation(c, n, m, rev=False):
    t, x, y = pair(c, n, rev)
    d = c.dcor
    for u in (False, True):
        va, vb, cov = moments(c, x, y, u)
        f = d.u_distance_correlation_sqr if u else d.distance_correlation_sqr
        for lab, (p, q) in (("", (x, y)), (" exchanged", (y, x))):
            r = f(p, q, method=m)
            # 1 - r^2 is of the order of t^2
            c.eq("(1 - r^2) va vb / t^2" + lab, (1 - r * r) * (va * vb) / (t * t),
                 (va * vb - cov * cov) / (t * t), tol=1e-4)
            c.le("r <= 1" + lab, r, 1)


@harness("C20", quick=[dict(n=5), dict(n=6), dict(n=5, rev=True)], attrs=ATOMS,
         engine=NRA)
def nearly_equal_t(c, n, rev=False):
    t, x, y = pair(c, n, rev)
    va, vb, cov = moments(c, x, y, True)
    D = va * vb - cov * cov
    v = n * (n - 3) // 2
    s = c.dcor.independence.distance_correlation_t_statistic(x, y)
    c.true("finite", bool(abs(s) < float("inf")))
    c.eq("t^2 (1 - r^2)", s * s * D, cov * cov * (v - 1), tol=None)
    res = c.dcor.independence.distance_correlation_t_test(x, y)
    c.eq("statistic of the test", res.statistic, s)
    c.eq("p-value", res.pvalue, c.t_sf(s, v - 1))


@harness(["C11", "C12"], quick=[dict(n=5, who=w) for w in ("x", "y")] + [dict(n=6, who="x")],
         attrs=ATOMS, engine=NRA)
def nearly_determined(c, n, who):
    """z is x (or y) up to a small perturbation."""
    t, x, z = pair(c, n)
    y = c.array([c.const(v) for v in B[n]])
    if who == "y":
        x, y = y, x
    U = [ref.ucenter(ref.dmat(c, v)) for v in (x, y, z)]
    s = n * (n - 3)
    ip = {(i, j): ref.inner(U[i], U[j]) / s for i in range(3) for j in range(i, 3)}
    zz = ip[2, 2]
    pd = ip[0, 1] * zz - ip[0, 2] * ip[1, 2]
    px = ip[0, 0] * zz - ip[0, 2] * ip[0, 2]
    py = ip[1, 1] * zz - ip[1, 2] * ip[1, 2]
    for v in (zz, px, py, px * py):
        c.nonneg(v)
    got = c.dcor.partial_distance_covariance(x, y, z)
    c.eq("pdcov / t", got * zz / t, pd / t)
    r = c.dcor.partial_distance_correlation(x, y, z)
    c.eq("pdcor^2", r * r * px * py / (t * t), pd * pd / (t * t))
    if bool(pd > 0):
        c.le("pdcor >= 0", 0, r)
    else:
        c.le("pdcor <= 0", r, 0)
