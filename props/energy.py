"""C13 distances, C14 C15 energy distance, C16 energy test statistic."""
from __future__ import annotations

from fractions import Fraction

import numpy as np

from symx import ref
from . import harness
from ._h import samp, weak_orders
from .dcov import ATOMS, exps
from .corr import NRA
from .center import mat, rect


# ------------------------------------------------------------------ C13
@harness("C13", quick=[
    dict(n=2, m=3, p=0), dict(n=3, m=2, p=1), dict(n=1, m=4, p=2), dict(n=3, m=2, p=3),
    dict(n=2, m=2, p=2, e=2), dict(n=2, m=3, p=2, e=1.5), dict(n=3, m=2, p=0, e=0.5),
    dict(n=2, m=2, p=0, e=2), dict(n=2, m=3, p=2, e="free"), dict(n=3, m=2, p=0, e="free")],
    thorough=[dict(n=5, m=4, p=3), dict(n=4, m=6, p=0, e="free"), dict(n=5, m=3, p=4, e=1.25)],
    attrs=ATOMS)
def cross_distances(c, n, m, p, e=1):
    """Entry (i, j) is the distance from observation i of x to j of y."""
    x, y = samp(c, "x", n, p), samp(c, "y", m, p)
    f = c.dcor.distances.pairwise_distances
    ex = e
    if e == "free":
        ex = c.real("e")
        c.assume(ex > 0)
        c.assume(ex < 2)
    kw = {} if ex is e and e == 1 else dict(exponent=ex)
    X = [ref.col(x, i) for i in range(n)]
    Y = [ref.col(y, i) for i in range(m)]
    want = [[ref.dist(c, u, v, ex) for v in Y] for u in X]
    c.eq("distances x to y", f(x, y, **kw), want)
    c.eq("distances y to x", f(y, x, **kw), [list(r) for r in zip(*want)])
    for i in range(n):
        c.eq("x unchanged", ref.col(x, i), X[i])


@harness("C13", quick=[
    dict(n=1, p=0), dict(n=3, p=0), dict(n=3, p=1), dict(n=4, p=2), dict(n=3, p=3),
    dict(n=3, p=2, e=2), dict(n=3, p=2, e=1.5), dict(n=3, p=0, e=0.5),
    dict(n=3, p=2, e="free")],
    thorough=[dict(n=7, p=3), dict(n=6, p=0, e="free")], attrs=ATOMS)
def self_distances(c, n, p, e=1):
    """Within one sample: symmetric, zero diagonal, same with y given as x."""
    x = samp(c, "x", n, p)
    f = c.dcor.distances.pairwise_distances
    ex = e
    if e == "free":
        ex = c.real("e")
        c.assume(ex > 0)
        c.assume(ex < 2)
    kw = {} if ex is e and e == 1 else dict(exponent=ex)
    want = ref.dmat(c, x, None, ex)
    c.eq("distances", f(x, **kw), want)
    c.eq("y is x", f(x, x, **kw), want)
    c.eq("y equal to x", f(x, x + 0, **kw), want)


VIEWS = {"shifted": lambda b, n: (b[:n], b[1:n + 1]),
         "reversed": lambda b, n: (b[:n], b[n - 1::-1]),
         "interleaved": lambda b, n: (b[::2], b[1::2]),
         "longer": lambda b, n: (b[:n], b),
         "other column": lambda b, n: (b[:, 0], b[:, 1]),
         "transposed": lambda b, n: (b, b.T),
         "swapped columns": lambda b, n: (b, b[:, ::-1])}


@harness("C13", quick=[dict(v=v, p=p) for v in ("shifted", "reversed", "interleaved", "longer")
                       for p in (0, 2)]
         + [dict(v=v, p=2) for v in ("other column", "transposed", "swapped columns")],
         attrs=ATOMS)
def overlapping_views(c, v, p):
    """x and y may be different views of one array."""
    n = 2 if v == "transposed" else 3
    b = samp(c, "b", n if v in ("transposed", "swapped columns", "reversed") else n + 1, p)
    x, y = VIEWS[v](b, n)
    X = [ref.col(x, i) for i in range(x.shape[0])]
    Y = [ref.col(y, i) for i in range(y.shape[0])]
    d = c.dcor
    c.eq("distances x to y", d.distances.pairwise_distances(x, y),
         [[ref.dist(c, s, t) for t in Y] for s in X])
    c.eq("distances y to x", d.distances.pairwise_distances(y, x),
         [[ref.dist(c, s, t) for t in X] for s in Y])
    c.eq("energy", d.energy_distance(x, y), ref.energy(c, x, y))
    if len(X) == len(Y):
        c.eq("dcov^2", d.distance_covariance_sqr(x, y, method="naive"),
             ref.dcov2(ref.dmat(c, x), ref.dmat(c, y)))


@harness("C13", quick=[dict(n=2, m=3, p=2, dt="f4"), dict(n=2, m=2, p=0, dt="f4"),
                       dict(n=2, m=3, p=1, dt="O", e=2), dict(n=3, m=2, p=1, dt="O"),
                       dict(n=2, m=3, p=1, dt="O", e=1.5)],
         attrs=ATOMS)
def other_dtypes(c, n, m, p, dt, e=1):
    """Single-precision floats and object arrays (e.g. Fractions, Decimals)."""
    sh = (lambda k: (k,) if p == 0 else (k, p))
    x, y = c.reals("x", *sh(n), dtype=dt), c.reals("y", *sh(m), dtype=dt)
    f = c.dcor.distances.pairwise_distances
    X = [ref.col(x, i) for i in range(n)]
    Y = [ref.col(y, i) for i in range(m)]
    want = [[ref.dist(c, u, v, e) for v in Y] for u in X]
    tol = 1e-3 if dt == "f4" else None
    c.eq("distances x to y", f(x, y, **exps(e)), want, tol=tol)
    c.eq("distances within x", f(x, **exps(e)),
         [[ref.dist(c, u, v, e) for v in X] for u in X], tol=tol)


# ------------------------------------------------------------------ C14
STATS = ("V", "U", "v", "u", "V_STATISTIC", "u_statistic", "enumV", "enumU")


def _stat(c, s):
    E = c.dcor.EstimationStatistic
    return {"enumV": E.V_STATISTIC, "enumU": E.U_STATISTIC}.get(s, s)


@harness("C14", quick=[
    dict(n=1, m=1, p=0), dict(n=2, m=3, p=0), dict(n=3, m=2, p=2), dict(n=2, m=2, p=3, e=1.5),
    dict(n=3, m=2, p=1, e=0.5), dict(n=2, m=3, p=2, e=2), dict(n=4, m=2, p=0),
    dict(n=2, m=2, p=2, e="free")],
    thorough=[dict(n=5, m=6, p=2), dict(n=6, m=4, p=0, e="free")], attrs=ATOMS)
def energy_def(c, n, m, p, e=1):
    x, y = samp(c, "x", n, p), samp(c, "y", m, p)
    d = c.dcor
    ex = e
    if e == "free":
        ex = c.real("e")
        c.assume(ex > 0)
        c.assume(ex < 2)
    kw = {} if ex is e and e == 1 else dict(exponent=ex)
    v = ref.energy(c, x, y, ex, "V")
    c.eq("energy", d.energy_distance(x, y, **kw), v)
    c.eq("energy V", d.energy_distance(x, y, estimation_stat="V", **kw), v)
    if n > 1 and m > 1:
        u = ref.energy(c, x, y, ex, "U")
        for s in STATS:
            st = _stat(c, s)
            c.eq(f"energy {s}", d.energy_distance(x, y, estimation_stat=st, **kw),
                 u if "u" in s.lower().replace("enum", "").replace("statistic", "")
                 else v)


def _mid(a):
    """An 'average' that is not the mean: the mean of the squares plus the mean."""
    a = a.reshape(-1)
    return ((a * a).sum() + a.sum()) / a.shape[0]


@harness("C14", quick=[dict(n=2, m=3, p=0), dict(n=3, m=2, p=2), dict(n=3, m=3, p=1, e=1.5)],
         attrs=ATOMS)
def energy_average(c, n, m, p, e=1):
    """A user-supplied average replaces the mean in all three terms."""
    x, y = samp(c, "x", n, p), samp(c, "y", m, p)
    d = c.dcor
    xx, yy, xy = ref.dmat(c, x, None, e), ref.dmat(c, y, None, e), ref.dmat(c, x, y, e)

    def avg(cells):
        return ref.total(v * v + v for v in cells) / len(cells)
    want = 2 * avg(ref.flat(xy)) - avg(ref.flat(xx)) - avg(ref.flat(yy))
    c.eq("average, V", d.energy_distance(x, y, average=_mid, **exps(e)), want)
    up = [[r[j] for i, r in enumerate(q) for j in range(i + 1, len(q))] for q in (xx, yy)]
    want = 2 * avg(ref.flat(xy)) - avg(up[0]) - avg(up[1])
    c.eq("average, U", d.energy_distance(x, y, average=_mid, estimation_stat="U", **exps(e)),
         want)
    k = n * m / (n + m)
    if c.sym:
        k = Fraction(n * m, n + m)
    c.eq("test statistic, average, U", d.homogeneity.energy_test_statistic(
        x, y, average=_mid, estimation_stat="U", **exps(e)), want * k)


# ------------------------------------------------------------------ C15
@harness("C15", quick=[dict(n=1, m=1), dict(n=1, m=2), dict(n=2, m=1), dict(n=2, m=2),
                       dict(n=1, m=3), dict(n=2, m=3, strict=True),
                       dict(n=3, m=3, strict=True)],
         thorough=[dict(n=3, m=2), dict(n=3, m=4, strict=True)])
def energy_nonneg(c, n, m, strict=False):
    """V-statistic energy distance of 1-D samples, every interleaving and tie."""
    N = n + m
    if strict:
        # interleavings of two increasing samples
        import itertools
        subs = list(itertools.combinations(range(N), n))
        s = subs[c.choose(len(subs))]
        o = list(s) + [k for k in range(N) if k not in s]
    else:
        ws = weak_orders(N)
        o = ws[c.choose(len(ws))]
    v = c.sorted_reals("v", o)
    d = c.dcor
    x, y = v[:n], v[n:]
    e = d.energy_distance(x, y)
    c.le("0 <= energy", 0, e)
    c.eq("symmetric", d.energy_distance(y, x), e)
    t = d.homogeneity.energy_test_statistic(x, y)
    c.le("0 <= test statistic", 0, t)
    if sorted(o[:n]) == sorted(o[n:]) and n == m:
        c.eq("same values, energy 0", e, 0)
    elif n == m:
        if c.sym:
            c.true("different samples, energy > 0", e > 0)
        else:
            w = ref.energy(c, x, y)
            c.true("different samples, energy > 0",
                   e > w / 2 or w <= 1e-12 * float(max(abs(v))))


@harness("C15", quick=[dict(n=1, p=2), dict(n=2, p=0), dict(n=2, p=2), dict(n=3, p=2),
                       dict(n=3, p=2, e=1.5), dict(n=2, p=3, e=0.5)],
         thorough=[dict(n=4, p=2), dict(n=5, p=0)], attrs=ATOMS)
def energy_same_sample(c, n, p, e=1):
    """Energy distance between a sample and a reordering of it is 0."""
    x = samp(c, "x", n, p)
    d = c.dcor
    o = c.perm(n)
    y = x[list(o)]
    c.eq("energy(x, x)", d.energy_distance(x, x, **exps(e)), 0)
    c.eq("energy(x, reordered x)", d.energy_distance(x, y, **exps(e)), 0)
    c.eq("statistic(x, reordered x)",
         d.homogeneity.energy_test_statistic(x, y, **exps(e)), 0)


@harness("C15", quick=[dict(n=2, m=3, p=0), dict(n=3, m=2, p=2), dict(n=2, m=2, p=2, e=1.5)],
         thorough=[dict(n=4, m=3, p=2)], attrs=ATOMS)
def energy_symmetric(c, n, m, p, e=1):
    x, y = samp(c, "x", n, p), samp(c, "y", m, p)
    d = c.dcor
    o = c.perm(n)
    for s in ("V", "U"):
        v = d.energy_distance(x, y, estimation_stat=s, **exps(e))
        c.eq(f"symmetric {s}", d.energy_distance(y, x, estimation_stat=s, **exps(e)), v)
        c.eq(f"reordered {s}", d.energy_distance(x[list(o)], y, estimation_stat=s, **exps(e)), v)
        w = d.homogeneity.energy_test_statistic(x, y, estimation_stat=s, **exps(e))
        c.eq(f"statistic symmetric {s}", d.homogeneity.energy_test_statistic(
            y, x, estimation_stat=s, **exps(e)), w)


# ------------------------------------------------------------------ C16
def coef(c, n, m):
    return Fraction(n * m, n + m) if c.sym else n * m / (n + m)


@harness("C16", quick=[
    dict(n=1, m=1, p=0), dict(n=2, m=3, p=0), dict(n=3, m=2, p=2), dict(n=2, m=2, p=2, e=1.5),
    dict(n=4, m=2, p=1, e=0.5)],
    thorough=[dict(n=5, m=6, p=2)], attrs=ATOMS)
def two_sample_statistic(c, n, m, p, e=1):
    x, y = samp(c, "x", n, p), samp(c, "y", m, p)
    h = c.dcor.homogeneity
    for s in (("V", "U") if n > 1 and m > 1 else ("V",)):
        want = ref.energy(c, x, y, e, s) * coef(c, n, m)
        c.eq(f"energy_test_statistic {s}",
             h.energy_test_statistic(x, y, estimation_stat=s, **exps(e)), want)
        r = h.energy_test(x, y, estimation_stat=s, **exps(e))
        c.eq(f"energy_test statistic {s}", r.statistic, want)
        c.eq("p-value without resamples", r.pvalue, 1)
    r = h.energy_test(x, y, **exps(e))
    c.eq("energy_test default", r.statistic, ref.energy(c, x, y, e, "V") * coef(c, n, m))


@harness("C16", quick=[
    dict(ns=[1, 2, 3], p=0), dict(ns=[2, 2, 2], p=2), dict(ns=[2, 3, 2, 2], p=0),
    dict(ns=[3, 1, 2], p=2, e=1.5)],
    thorough=[dict(ns=[4, 3, 2, 1], p=2), dict(ns=[2, 2, 2, 2, 2], p=0)], attrs=ATOMS)
def multi_sample_statistic(c, ns, p, e=1):
    """k samples: the sum over all pairs of the two-sample statistics."""
    S = [samp(c, f"s{i}", n, p) for i, n in enumerate(ns)]
    h = c.dcor.homogeneity
    for s in (("V", "U") if min(ns) > 1 else ("V",)):
        want = 0
        for i in range(len(ns)):
            for j in range(i + 1, len(ns)):
                want = want + ref.energy(c, S[i], S[j], e, s) * coef(c, ns[i], ns[j])
        r = h.energy_test(*S, estimation_stat=s, **exps(e))
        c.eq(f"statistic {s}", r.statistic, want)
        r = h.energy_test(*S[::-1], estimation_stat=s, **exps(e))
        c.eq(f"order of samples {s}", r.statistic, want)


@harness("C16", quick=[dict(ns=[2, 3], p=0), dict(ns=[3, 2, 2], p=2)], attrs=ATOMS)
def statistic_average(c, ns, p):
    S = [samp(c, f"s{i}", n, p) for i, n in enumerate(ns)]
    h = c.dcor.homogeneity
    want = 0
    for i in range(len(ns)):
        for j in range(i + 1, len(ns)):
            want = want + h.energy_test_statistic(S[i], S[j], average=_mid)
    c.eq("energy_test with average", h.energy_test(*S, average=_mid).statistic, want)
