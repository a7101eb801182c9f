"""Samples far from the origin: a fixed sample plus a free large translation.

The solver decides that the result does not depend on the translation (over the reals);
the solver's witnesses, translated by 2^28..2^30, are replayed on the real code, where
an algebraically equivalent but cancelling formula loses all its digits."""
from __future__ import annotations

import math
from fractions import Fraction

from symx import ref
from . import harness
from .corr import NRA
from .dcov import ATOMS
from .family import A5, B5, C6, A6, B6, Q5, Q6, corr, unit
from .large import DIRS

LO, HI = 28, 30


def shift(c, lo=LO, hi=HI):
    s = c.real("s")
    if not c.sym:
        s = float(math.floor(s))
        return s + 1 if 2 ** lo <= abs(s) <= 2 ** hi else 2.0 ** lo + 1
    c.assume(s >= Fraction(2 ** lo))
    c.assume(s <= Fraction(2 ** hi))
    return s


def wide(pts, p):
    """The points of a line in direction DIRS[p]."""
    return [tuple(v * q for q in DIRS[p]) for v in pts]


def far(c, pts, s):
    if isinstance(pts[0], tuple):
        return c.array([[s + v for v in p] for p in pts])
    return c.array([s + v for v in pts])


def near(c, pts):
    return unit(c, pts)


def pts(base, p):
    return base if p == 0 else wide(base, p)


DIMS = [dict(p=0), dict(p=1), dict(p=2), dict(p=9), dict(p=16)]


@harness(["C13", "C08"], quick=DIMS + [dict(p=p, e=2) for p in (0, 9)],
         attrs=ATOMS)
def far_distances(c, p, e=1):
    s = shift(c)
    P = pts(A5, p)
    x = far(c, P, s)
    f = c.dcor.distances.pairwise_distances
    kw = {} if e == 1 else dict(exponent=e)
    w = ref.dmat(c, near(c, P), None, e)
    c.eq("distances", f(x, **kw), w)
    c.eq("distances (x, y)", f(x[:2], x[2:], **kw), [r[2:] for r in w[:2]])


COV = [dict(p=0, m=m) for m in ("auto", "naive", "avl", "mergesort")] + [
    dict(p=2, m="auto"), dict(p=9, m="naive")]


@harness("C03", quick=COV, attrs=ATOMS, jit=True)
@harness(["C01", "C02", "C08"], quick=COV, attrs=ATOMS)
def far_covariance(c, p, m):
    s = shift(c)
    P = pts(A5, p)
    x, y = far(c, P, s), far(c, B5, s)
    a, b = ref.dmat(c, near(c, P)), ref.dmat(c, near(c, B5))
    d = c.dcor
    for u, v, A, B in ((x, y, a, b), (y, x, b, a), (x, near(c, B5), a, b)):
        c.eq("dcov^2", d.distance_covariance_sqr(u, v, method=m), ref.dcov2(A, B))
        c.eq("u-dcov^2", d.u_distance_covariance_sqr(u, v, method=m), ref.udcov2(A, B))
        w = d.distance_stats_sqr(u, v, method=m)
        c.eq("stats", [w.covariance_xy, w.variance_x, w.variance_y],
             [ref.dcov2(A, B), ref.dcov2(A, A), ref.dcov2(B, B)])


@harness(["C05", "C08"], quick=[dict(p=0, m=m) for m in ("auto", "naive", "avl", "mergesort")]
         + [dict(p=2, m="auto")], attrs=ATOMS, engine=NRA)
def far_correlation(c, p, m):
    s = shift(c)
    P = pts(A5, p)
    x, y = far(c, P, s), far(c, B5, s)
    a, b = ref.dmat(c, near(c, P)), ref.dmat(c, near(c, B5))
    d = c.dcor
    c.eq("dcor^2", d.distance_correlation_sqr(x, y, method=m), corr(c, a, b, ref.dcenter, 25))
    c.eq("u-dcor^2", d.u_distance_correlation_sqr(x, y, method=m),
         corr(c, a, b, ref.ucenter, 10))
    k = c.array([s] * 5)
    c.eq("dcor^2 of a constant", d.distance_correlation_sqr(k, y, method=m), 0)
    c.eq("u-dcor^2 of a constant", d.u_distance_correlation_sqr(x, k, method=m), 0)


@harness(["C14", "C16"], quick=[dict(p=p, s=s) for p in (0, 2, 9) for s in ("V", "U")],
         attrs=ATOMS)
def far_energy(c, p, s):
    t = shift(c)
    P = pts(A5, p)
    x = far(c, P, t)
    u = near(c, P)
    w = ref.energy(c, u[:2], u[2:], 1, s)
    h = c.dcor.homogeneity
    kw = dict(estimation_stat=s)
    f = Fraction(6, 5) if c.sym else 1.2
    c.eq("energy", c.dcor.energy_distance(x[:2], x[2:], **kw), w)
    c.eq("statistic", h.energy_test_statistic(x[:2], x[2:], **kw), w * f)
    c.eq("test", h.energy_test(x[:2], x[2:], **kw).statistic, w * f)


@harness(["C11", "C12"], quick=[dict(p=0), dict(p=2)], attrs=ATOMS, engine=NRA)
def far_partial(c, p):
    s = shift(c)
    base = [A6, B6, C6] if not p else [Q6, B6, C6]
    S = [far(c, v, s) for v in base]
    U = [ref.ucenter(ref.dmat(c, near(c, v))) for v in base]
    ip = {(i, j): ref.inner(U[i], U[j]) / 18 for i in range(3) for j in range(i, 3)}
    z = ip[2, 2]
    pd = ip[0, 1] - ip[0, 2] * ip[1, 2] / z
    px, py = (ip[i, i] - ip[i, 2] * ip[i, 2] / z for i in (0, 1))
    c.eq("pdcov", c.dcor.partial_distance_covariance(*S), pd)
    c.eq("pdcor", c.dcor.partial_distance_correlation(*S), pd / c.sqrt(px * py))
    c.eq("test statistic", c.dcor.independence.partial_distance_covariance_test(
        *S).statistic, pd * 6)


@harness("C22", quick=[dict(d="v5"), dict(d="z")], attrs=ATOMS, engine=NRA)
def far_af_inv(c, d):
    from .rowwise import ZS, _corr_of
    s = shift(c, 20, 24)
    a = A5 if d == "v5" else ZS[0][1]
    x, y = far(c, a, s), near(c, B5)
    want = _corr_of(c, ref.dmat(c, near(c, a)), ref.dmat(c, y), "ab")
    c.eq("af_inv^2", c.dcor.distance_correlation_af_inv_sqr(x, y), want)


@harness("C21", quick=[dict(f=f) for f in ("distance_covariance_sqr",
                                           "u_distance_covariance_sqr",
                                           "distance_correlation_sqr")],
         attrs=ATOMS, engine=NRA, jit=True)
def far_rowwise(c, f):
    s = shift(c)
    x, y = ([far(c, v, s), near(c, v)] for v in (A5, B5))
    D = [ref.dmat(c, near(c, v)) for v in (A5, B5)]
    w = ref.udcov2(*D) if f[0] == "u" else ref.dcov2(*D) if "cov" in f else \
        corr(c, *D, ref.dcenter, 25)
    for u, v in ((x, y), (c.array([list(r) for r in x]), c.array([list(r) for r in y]))):
        c.eq(f, c.dcor.rowwise(getattr(c.dcor, f), u, v), [w, w])
