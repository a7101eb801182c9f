"""Larger samples in which only few quantities are free.

The order of the observations and their relative positions are fixed (pseudo-random,
with ties); the unit and one gap of x and the unit of y are free.  They decide whether
the results depend on the size (blocks, powers of two, narrow counters, batches)."""
from __future__ import annotations

import random
from fractions import Fraction

from symx import ref
from . import harness
from .corr import NRA
from .dcov import ATOMS

# directions with integer norm
DIRS = {1: (1,), 2: (3, 4), 3: (2, 3, 6), 4: (1, 1, 1, 1), 5: (1, 1, 1, 2, 3), 9: (1,) * 9,
        16: (1,) * 16}


def positions(n, seed, ties):
    rnd = random.Random(100 * n + seed)
    if ties == 1:
        return [rnd.randrange(max(2, n // 3)) for _ in range(n)]
    if ties == 2:
        return [rnd.randrange(3) for _ in range(n)]
    v = list(range(n))
    rnd.shuffle(v)
    return v


def pos(c, name):
    """A free positive number."""
    k = c.real(name)
    if not c.sym:
        return k if k > 0 else k * 0 + 1
    c.assume(k > 0)
    c.e.know_sign(k.n, c.core.rv(Fraction(0)), 4)
    k.nonneg = True
    return k


def line(c, name, n, seed, ties=0, gap=False, p=0):
    """k a_i (times a direction), plus a free gap between the lower and upper half."""
    a = positions(n, seed, ties)
    k = pos(c, name + "_unit")
    t = pos(c, name + "_gap") if gap else None
    h = sorted(a)[n // 2]
    out = []
    for v in a:
        w = k * v
        if gap and v >= h:
            w = w + t
        out.append(w if p == 0 else [w * q for q in DIRS[p]])
    return c.array(out)


def fixed(c, n, seed, ties=0, unit=None):
    u = c.const(1) if unit is None else unit
    return c.array([u * v for v in positions(n, seed, ties)])


def sizes(*s, **kw):
    return [dict(n=n, ties=t, _w=1 + n // 20, **kw) for n, t in s]


# ------------------------------------------------------------------ covariance
@harness("C03", quick=sizes((20, 1), (32, 0), (33, 1), (64, 1), (65, 0), (130, 2), (260, 0)),
         thorough=sizes((100, 0), (127, 1), (128, 0), (129, 2), (257, 1), (520, 0)), jit=True)
def fast_long(c, n, ties):
    x, y = line(c, "x", n, 1, ties, True), line(c, "y", n, 2, ties)
    d = c.dcor
    a, b = ref.dmat(c, x), ref.dmat(c, y)
    cov, ucov = ref.dcov2_flat(a, b), ref.udcov2_flat(a, b)
    for m in ("avl", "mergesort", "naive") if n < 200 else ("avl", "mergesort"):
        c.eq(f"dcov^2 {m}", d.distance_covariance_sqr(x, y, method=m), cov)
        c.eq(f"u-dcov^2 {m}", d.u_distance_covariance_sqr(x, y, method=m), ucov)


@harness("C04", quick=sizes((40, 1), (65, 0), (130, 0)),
         thorough=sizes((260, 1), (100, 2), (129, 0)), jit=True)
def modes_long(c, n, ties):
    from .dcov import _modes
    _modes(c, line(c, "x", n, 3, ties, True), line(c, "y", n, 4, ties))


@harness(["C01", "C02"], quick=sizes((20, 1), (51, 0)) + sizes((12, 0), p=2) + sizes(
    (30, 1), p=3) + sizes((12, 1), p=9),
    thorough=sizes((130, 0), (260, 1)) + sizes((70, 0), p=2) + sizes((40, 1), p=16),
    attrs=ATOMS)
def long_is_definition(c, n, ties, p=0):
    x, y = line(c, "x", n, 5, ties, True, p), line(c, "y", n, 6, ties, False, 2 if p else 0)
    a, b = ref.dmat(c, x), ref.dmat(c, y)
    d = c.dcor
    cov, ucov = ref.dcov2_flat(a, b), ref.udcov2_flat(a, b)
    for m in ("naive", "auto"):
        c.eq(f"dcov^2 {m}", d.distance_covariance_sqr(x, y, method=m), cov)
        c.eq(f"u-dcov^2 {m}", d.u_distance_covariance_sqr(x, y, method=m), ucov)


@harness("C07", quick=sizes((40, 1), (65, 0)), thorough=sizes((130, 1)))
def long_reordered(c, n, ties):
    x, y = line(c, "x", n, 7, ties, True), line(c, "y", n, 8, ties)
    q = list(range(n))
    random.Random(n).shuffle(q)
    xs, ys = (c.array([v[i] for i in q]) for v in (x, y))
    d = c.dcor
    for m in ("naive", "avl", "mergesort"):
        for f in (d.distance_covariance_sqr, d.u_distance_covariance_sqr):
            r = f(x, y, method=m)
            c.eq(f"{f.__name__} {m} exchanged", f(y, x, method=m), r)
            c.eq(f"{f.__name__} {m} reordered", f(xs, ys, method=m), r)


# ------------------------------------------------------------------ correlation
def lines(c, n, ties, p=0):
    """k a and b with a fixed b, and the distance matrices for k = 1."""
    k = pos(c, "k")
    a, b = positions(n, 9, ties), positions(n, 10, ties)
    v = DIRS[p] if p else None
    x = c.array([k * i if p == 0 else [k * (i * q) for q in v] for i in a])
    y = c.array([c.const(i) for i in b])
    s = 1 if p == 0 else int(round(sum(q * q for q in v) ** 0.5))
    one = c.const(1)
    A = [[one * (s * abs(i - j)) for j in a] for i in a]
    B = [[one * abs(i - j) for j in b] for i in b]
    return k, x, y, A, B


@harness(["C05", "C08"], quick=sizes((20, 1), (40, 0)) + sizes((16, 0), p=2),
         thorough=sizes((130, 1), (65, 2)) + sizes((40, 1), p=5), attrs=ATOMS, engine=NRA)
def long_correlation(c, n, ties, p=0):
    from .family import corr
    k, x, y, A, B = lines(c, n, ties, p)
    d = c.dcor
    w, u = corr(c, A, B, ref.dcenter, n * n), corr(c, A, B, ref.ucenter, n * (n - 3))
    for m in ("naive", "auto") if p else ("naive", "avl", "mergesort"):
        c.eq(f"dcor^2 {m}", d.distance_correlation_sqr(x, y, method=m), w)
        c.eq(f"u-dcor^2 {m}", d.u_distance_correlation_sqr(x, y, method=m), u)
        s = d.distance_stats_sqr(x, y, method=m)
        c.eq(f"stats {m}", s.correlation_xy, w)
        c.eq(f"variance x {m}", s.variance_x / (k * k), ref.dcov2(A, A))
        s = d.u_distance_stats_sqr(x, y, method=m)
        c.eq(f"u stats {m}", s.correlation_xy, u)
        c.eq(f"u variance x {m}", s.variance_x / (k * k), ref.udcov2(A, A))


@harness("C20", quick=sizes((12, 1), (30, 0)), thorough=sizes((100, 1)), attrs=ATOMS,
         engine=NRA)
def long_t(c, n, ties):
    from .family import corr
    k, x, y, A, B = lines(c, n, ties)
    r = corr(c, A, B, ref.ucenter, n * (n - 3))
    v = n * (n - 3) // 2
    t = c.dcor.independence.distance_correlation_t_statistic(x, y)
    c.eq("t^2 (1 - r^2)", t * t * (1 - r * r), r * r * (v - 1))
    if bool(r > 0):
        c.le("t >= 0", 0, t)
    else:
        c.le("t <= 0", t, 0)
    res = c.dcor.independence.distance_correlation_t_test(x, y)
    c.eq("test statistic", res.statistic, t)


# ------------------------------------------------------------------ matrices
@harness("C09", quick=[dict(n=20), dict(n=40, _w=3)], thorough=[dict(n=130, _w=9)])
def long_centering(c, n):
    """Matrices k M + t N with fixed symmetric integer M, N and free k, t."""
    rnd = random.Random(n)
    k, t = pos(c, "k"), pos(c, "t")
    m = [[c.const(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            m[i][j] = m[j][i] = k * rnd.randrange(9) + t * rnd.randrange(4)
    a = c.array(m)
    c.eq("double centered", c.dcor.double_centered(a), ref.dcenter(m))
    c.eq("U-centered", c.dcor.u_centered(a), ref.ucenter(m))
    out = c.array(m)
    r = c.dcor.u_centered(out, out=out)
    c.eq("U-centered in place", out, ref.ucenter(m))
    c.true("the output is returned", r is out)


@harness("C10", quick=[dict(n=12), dict(n=25, _w=3)], attrs=ATOMS, engine=NRA)
def long_products(c, n):
    k = pos(c, "k")

    def mat(u, s):
        r = random.Random(s)
        m = [[c.const(0)] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                m[i][j] = m[j][i] = u * r.randrange(9)
        return m
    A, B = ref.ucenter(mat(k, 1)), ref.ucenter(mat(c.const(1), 2))
    a, b = c.array(A), c.array(B)
    d = c.dcor
    ab, bb = ref.inner(A, B), ref.inner(B, B)
    c.eq("mean product", d.mean_product(a, b), ab / (n * n))
    c.eq("U-product", d.u_product(a, b), ab / (n * (n - 3)))
    c.eq("projection", d.u_projection(b)(a),
         [[ab / bb * B[i][j] for j in range(n)] for i in range(n)])
    c.eq("complementary projection", d.u_complementary_projection(b)(a),
         [[A[i][j] - ab / bb * B[i][j] for j in range(n)] for i in range(n)])


@harness(["C11", "C12"], quick=[dict(n=16), dict(n=30, _w=3)], attrs=ATOMS, engine=NRA)
def long_partial(c, n):
    k = pos(c, "k")
    P = [positions(n, s, s % 2) for s in (11, 12, 13)]
    one = c.const(1)
    U = [ref.ucenter([[one * abs(i - j) for j in v] for i in v]) for v in P]
    S = [c.array([(k if s == 0 else one) * i for i in v]) for s, v in enumerate(P)]
    s = n * (n - 3)
    ip = {(i, j): ref.inner(U[i], U[j]) / s for i in range(3) for j in range(i, 3)}
    pd = ip[0, 1] - ip[0, 2] * ip[1, 2] / ip[2, 2]
    px = ip[0, 0] - ip[0, 2] * ip[0, 2] / ip[2, 2]
    py = ip[1, 1] - ip[1, 2] * ip[1, 2] / ip[2, 2]
    c.eq("pdcov / k", c.dcor.partial_distance_covariance(*S) / k, pd)
    c.eq("pdcor", c.dcor.partial_distance_correlation(*S), pd / c.sqrt(px * py))


# ------------------------------------------------------------------ distances, energy
@harness("C13", quick=[dict(n=33, m=20), dict(n=65, m=33, _w=4), dict(n=12, m=9, p=3),
                       dict(n=10, m=6, p=9), dict(n=9, m=7, p=16)],
         thorough=[dict(n=257, m=130, _w=9)], attrs=ATOMS)
def long_distances(c, n, m, p=0):
    x = line(c, "x", n, 14, 1, True, p)
    f = c.dcor.distances.pairwise_distances
    c.eq("distances", f(x), ref.dmat(c, x))
    c.eq("distances between", f(x[:m], x[m:]), ref.dmat(c, x[:m], x[m:]))
    c.eq("distances to one", f(x, x[:1]), ref.dmat(c, x, x[:1]))


@harness(["C14", "C16"], quick=[dict(ns=[20, 31], s="V"), dict(ns=[33, 7], s="U"),
                                dict(ns=[5, 9, 2, 7, 4, 6], s="V"),
                                dict(ns=[5, 3, 2, 8, 4], s="U"), dict(ns=[9, 12], s="V", p=3)],
         thorough=[dict(ns=[70, 61], s="V", _w=9), dict(ns=[3] * 12, s="U", _w=3)], attrs=ATOMS)
def long_energy(c, ns, s, p=0):
    from .energy import coef
    N = sum(ns)
    x = line(c, "x", N, 16, 1, True, p)
    off = [sum(ns[:i]) for i in range(len(ns))]
    S = [x[o:o + k] for o, k in zip(off, ns)]
    f = c.dcor
    tot = 0
    for i in range(len(ns)):
        for j in range(i + 1, len(ns)):
            w = ref.energy(c, S[i], S[j], 1, s)
            if i < 2 and j < 3:
                c.eq(f"energy {i} {j}", f.energy_distance(S[i], S[j], estimation_stat=s), w)
            tot = tot + w * coef(c, ns[i], ns[j])
    if len(S) == 2:
        c.eq("statistic", f.homogeneity.energy_test_statistic(*S, estimation_stat=s), tot)
    c.eq("test", f.homogeneity.energy_test(*S, estimation_stat=s).statistic, tot)


# ------------------------------------------------------------------ tests
def shuffles(n, k):
    r = random.Random(n)
    out = ref.Seq()
    for _ in range(k):
        p = list(range(n))
        r.shuffle(p)
        out.append(tuple(p))
    return out


@harness(["C17", "C18"], quick=[dict(test=t, n=n, R=R, jobs=j) for t, n, R, j in (
    ("dcov", 8, 40, None), ("dcov", 20, 9, None), ("energy", 12, 25, None), ("energy3", 12, 12, None),
    ("pdcov", 7, 30, None), ("dcov", 4, 120, None))],
    thorough=[dict(test=t, n=n, R=R, jobs=None) for t, n, R in (
        ("dcov", 8, 300), ("energy", 20, 100), ("pdcov", 20, 30), ("dcov", 40, 20))],
    attrs=ATOMS, engine=NRA)
def long_test(c, test, n, R, jobs):
    """More permutations and observations; the permutations are fixed."""
    from .tests import pvalue, same_p, dcov_stat, energy_stat, pdcov_mats, permuted
    k = pos(c, "k")
    P = shuffles(n, R)
    rng = c.rng(P)
    x, y = fixed(c, n, 17, 0, k), fixed(c, n, 18, 1)
    kw = dict(num_resamples=R, random_state=rng)
    if jobs:
        kw["n_jobs"] = jobs
    if test == "dcov":
        stat = dcov_stat(c, x, y, 1)
        r = c.dcor.independence.distance_covariance_test(x, y, **kw)
    elif test == "pdcov":
        z = fixed(c, n, 19)
        pa, pb, q = pdcov_mats(c, x, y, z, 1)

        def stat(p):
            return ref.inner(permuted(pa, p), pb) / q * n
        r = c.dcor.independence.partial_distance_covariance_test(x, y, z, **kw)
    else:
        cut = [0, n // 3, n] if test == "energy" else [0, n // 4, n // 2, n]
        S = [x[i:j] for i, j in zip(cut, cut[1:])]
        stat = energy_stat(c, S, 1, "V")
        r = c.dcor.homogeneity.energy_test(*S, **kw)
    s = stat(list(range(n)))
    c.eq("statistic", r.statistic, s)
    c.true("draws", [tuple(p) for p in c.draws(rng)] == list(P))
    same_p(c, "p-value", r.pvalue, pvalue(c, s, P, stat))


# ------------------------------------------------------------------ rowwise
@harness("C21", quick=[dict(rows=12, n=6), dict(rows=3, n=33), dict(rows=2, n=65, _w=3)],
         thorough=[dict(rows=40, n=5), dict(rows=70, n=4), dict(rows=2, n=130, _w=6)], jit=True)
def long_rowwise(c, rows, n):
    k, t = pos(c, "k"), pos(c, "t")
    one = c.const(1)
    X = [positions(n, 30 + r, r % 3) for r in range(rows)]
    Y = [positions(n, 300 + r, r % 2) for r in range(rows)]
    x = c.array([[k * (v * (r + 1)) for v in X[r]] for r in range(rows)])
    y = c.array([[t * v for v in Y[r]] for r in range(rows)])

    def D(v):
        return [[one * abs(i - j) for j in v] for i in v]
    mats = [(D(a), D(b)) for a, b in zip(X, Y)]
    for f, g in (("distance_covariance_sqr", ref.dcov2_flat),
                 ("u_distance_covariance_sqr", ref.udcov2_flat)):
        got = c.dcor.rowwise(getattr(c.dcor, f), x, y)
        c.eq(f"{f}: number of results", got.shape[0], rows)
        c.eq(f, got / (k * t), [g(a, b) * (r + 1) for r, (a, b) in enumerate(mats)])
