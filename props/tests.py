"""C17 permutation p-values, C18 test statistics, C19 reproducibility, C20 t-test."""
from __future__ import annotations

from fractions import Fraction

from symx import ref
from . import harness
from ._h import samp
from .dcov import ATOMS, ORD4, ORD5, exps
from .corr import NRA, _cs, _u
from .center import _ucm
from .energy import coef

P3 = [[0, 1, 2], [1, 0, 2], [1, 2, 0], [2, 0, 1]]
P4 = [[0, 1, 2, 3], [1, 0, 2, 3], [2, 3, 0, 1], [3, 0, 1, 2], [1, 2, 0, 3]]
P5 = [[4, 3, 2, 1, 0], [1, 0, 3, 2, 4], [1, 2, 3, 4, 0]]


def permuted(m, p):
    n = len(m)
    return [[m[p[i]][p[j]] for j in range(n)] for i in range(n)]


def pvalue(c, s, perms, stat):
    """(1 + number of permutations with a strictly larger statistic) / (R + 1)."""
    k = 1
    for p in perms:
        if list(p) == sorted(p):
            continue
        d = stat(p) - s
        if bool(c.guard(d) > 0):
            k += 1
    return Fraction(k, len(perms) + 1)


def same_p(c, label, got, want):
    c.eq(label, got, float(want) if not c.sym else want)
    c.true(label + " in (0, 1]", 0 < float(got) <= 1)


def rngs(c, kind, perms):
    if kind == "generator":
        return c.generator(perms)
    return c.rng(perms)


def dcov_stat(c, x, y, e):
    a, b = ref.dcenter(ref.dmat(c, x, None, e)), ref.dcenter(ref.dmat(c, y, None, e))
    n = len(a)

    def f(p):
        return ref.inner(permuted(a, p), b) / n
    return f


def energy_stat(c, S, e, stat):
    """Statistic of the pooled sample after permuting its observations."""
    pool = [ref.col(s, i) for s in S for i in range(s.shape[0])]
    N = len(pool)
    D = [[0] * N for _ in range(N)]
    for i in range(N):
        for j in range(i):
            D[i][j] = D[j][i] = ref.dist(c, pool[i], pool[j], e)
    ns = [s.shape[0] for s in S]
    off = [sum(ns[:i]) for i in range(len(ns))]
    avg = ref.mean if stat == "V" else ref.umean

    def f(p):
        M = permuted(D, p)

        def blk(i, j):
            return [[M[a][b] for b in range(off[j], off[j] + ns[j])]
                    for a in range(off[i], off[i] + ns[i])]
        t = 0
        for i in range(len(ns)):
            for j in range(i + 1, len(ns)):
                t = t + (2 * ref.mean(blk(i, j)) - avg(blk(i, i)) - avg(blk(j, j))) \
                    * coef(c, ns[i], ns[j])
        return t
    return f


# ------------------------------------------------------------------ C17
@harness("C17", quick=[
    dict(n=2, R=2, perms=None), dict(n=3, R=1, perms=None), dict(n=3, R=2, perms=P3),
    dict(n=3, R=1, perms=P3, p=2, q=0), dict(n=4, R=1, perms=P4),
    dict(n=3, R=2, perms=P3[:3], kind="generator"), dict(n=3, R=1, perms=P3, e=1.5),
    dict(n=3, R=3, perms=P3), dict(n=4, R=2, perms=P4[:4]), dict(n=4, R=1, perms=None),
    dict(n=5, R=1, perms=P5)],
    thorough=[dict(n=4, R=2, perms=None), dict(n=5, R=2, perms=P5), dict(n=3, R=4, perms=P3)],
    attrs=ATOMS, engine=NRA)
def dcov_test_pvalue(c, n, R, perms, p=0, q=0, e=1, kind="state"):
    x, y = samp(c, "x", n, p), samp(c, "y", n, q)
    stat = dcov_stat(c, x, y, e)
    s = stat(list(range(n)))
    rng = rngs(c, kind, perms)
    r = c.dcor.independence.distance_covariance_test(
        x, y, num_resamples=R, random_state=rng, **exps(e))
    d = c.draws(rng)
    c.eq("permutations drawn", len(d), R)
    c.eq("statistic", r.statistic, s)
    same_p(c, "p-value", r.pvalue, pvalue(c, s, d, stat))


@harness("C17", quick=[
    dict(ns=[1, 1], R=2, perms=None), dict(ns=[2, 1], R=2, perms=None),
    dict(ns=[2, 2], R=1, perms=None), dict(ns=[2, 2], R=2, perms=P4, st="U"),
    dict(ns=[1, 3], R=1, perms=P4, p=2), dict(ns=[2, 1, 1], R=1, perms=P4),
    dict(ns=[2, 2], R=1, perms=P4, e=1.5), dict(ns=[2, 2], R=1, perms=P4, kind="generator")],
    thorough=[dict(ns=[2, 2], R=3, perms=P4[:4]), dict(ns=[2, 1, 1], R=2, perms=P4, p=2),
              dict(ns=[3, 2], R=1, perms=None), dict(ns=[2, 1, 2], R=1, perms=None)],
    attrs=ATOMS, engine=NRA)
def energy_test_pvalue(c, ns, R, perms, p=0, e=1, st="V", kind="state"):
    S = [samp(c, f"s{i}", n, p) for i, n in enumerate(ns)]
    stat = energy_stat(c, S, e, st)
    s = stat(list(range(sum(ns))))
    rng = rngs(c, kind, perms)
    r = c.dcor.homogeneity.energy_test(
        *S, num_resamples=R, random_state=rng, estimation_stat=st, **exps(e))
    d = c.draws(rng)
    c.eq("permutations drawn", len(d), R)
    c.eq("statistic", r.statistic, s)
    same_p(c, "p-value", r.pvalue, pvalue(c, s, d, stat))


def pdcov_mats(c, x, y, z, e):
    """The two projected matrices of the partial distance covariance."""
    a, b, m = (ref.ucenter(ref.dmat(c, v, None, e)) for v in (x, y, z))
    n = len(a)
    k = n * (n - 3)
    mm = ref.inner(m, m) / k
    c.nonneg(mm, [(c.const(w) / k, v) for w, v in ref.upper(m)])
    if bool(c.guard(mm) == 0):
        fa = fb = 0
    else:
        fa, fb = ref.inner(a, m) / k / mm, ref.inner(b, m) / k / mm
    pa = [[0 if i == j else a[i][j] - fa * m[i][j] for j in range(n)] for i in range(n)]
    pb = [[0 if i == j else b[i][j] - fb * m[i][j] for j in range(n)] for i in range(n)]
    return pa, pb, k


@harness("C17", quick=[dict(perms=P4[:3], zc=[0, 1, 3, 7]), dict(perms=P4[2:], zc=[2, 0, 0, 5]),
                       dict(perms=P4, zc=[1, 1, 1, 1])],
         thorough=[dict(perms=None, zc=[0, 1, 3, 7])],
         attrs=ATOMS, engine=NRA)
def pdcov_test_pvalue(c, perms, zc, R=1):
    n = 4
    x, y = samp(c, "x", n, 0), samp(c, "y", n, 0)
    z = c.array([c.const(v) for v in zc])
    pa, pb, k = pdcov_mats(c, x, y, z, 1)

    def stat(p):
        return ref.inner(permuted(pa, p), pb) / k * n
    s = stat(list(range(n)))
    rng = c.rng(perms)
    r = c.dcor.independence.partial_distance_covariance_test(
        x, y, z, num_resamples=R, random_state=rng)
    d = c.draws(rng)
    c.eq("permutations drawn", len(d), R)
    c.eq("statistic", r.statistic, s)
    same_p(c, "p-value", r.pvalue, pvalue(c, s, d, stat))


# ------------------------------------------------------------------ C18
@harness("C18", quick=[
    dict(n=2, p=0, q=0), dict(n=4, p=0, q=0), dict(n=3, p=2, q=0), dict(n=4, p=2, q=3),
    dict(n=3, p=2, q=0, e=1.5), dict(n=4, p=0, q=1, e=0.5), dict(n=3, p=2, q=2, e=2),
    dict(n=5, p=1, q=2)],
    thorough=[dict(n=7, p=0, q=0), dict(n=6, p=2, q=2)], attrs=ATOMS)
def dcov_test_statistic(c, n, p, q, e=1):
    x, y = samp(c, "x", n, p), samp(c, "y", n, q)
    f = c.dcor.independence.distance_covariance_test
    want = dcov_stat(c, x, y, e)(list(range(n)))
    r = f(x, y, **exps(e))
    c.eq("statistic = n dcov^2", r.statistic, want)
    c.eq("p-value without resamples", r.pvalue, 1)
    c.eq("symmetric", f(y, x, **exps(e)).statistic, want)
    c.eq("statistic = n distance_covariance_sqr", r.statistic,
         c.dcor.distance_covariance_sqr(x, y, method="naive", **exps(e)) * n)
    r = f(x, y, num_resamples=1, random_state=c.rng([list(range(n))]), **exps(e))
    c.eq("statistic with resamples", r.statistic, want)


@harness("C18", quick=[
    dict(n=4, p=0, q=0, r=0), dict(n=4, p=2, q=0, r=0), dict(n=5, p=0, q=0, r=0),
    dict(n=4, p=2, q=2, r=0, e=1.5), dict(n=4, p=0, q=0, r=2, e=0.5)],
    thorough=[dict(n=5, p=2, q=0, r=1), dict(n=5, p=2, q=2, r=2, e=1.5)],
    attrs=ATOMS, engine=NRA)
def pdcov_test_statistic(c, n, p, q, r, e=1):
    x, y, z = samp(c, "x", n, p), samp(c, "y", n, q), samp(c, "z", n, r)
    f = c.dcor.independence.partial_distance_covariance_test
    a, b, m = (ref.ucenter(ref.dmat(c, v, None, e)) for v in (x, y, z))
    k = n * (n - 3)
    ab, am, bm, mm = (ref.inner(u, v) / k for u, v in ((a, b), (a, m), (b, m), (m, m)))
    c.nonneg(mm, [(c.const(w) / k, v) for w, v in ref.upper(m)])
    t = f(x, y, z, **exps(e))
    if bool(c.guard(mm) == 0):
        c.eq("statistic = n pdcov", t.statistic, ab * n)
    else:
        c.eq("statistic = n pdcov", t.statistic, (ab - am * bm / mm) * n)
    c.eq("p-value without resamples", t.pvalue, 1)
    if e == 1:
        c.eq("statistic = n partial_distance_covariance", t.statistic,
             c.dcor.partial_distance_covariance(x, y, z) * n)


@harness("C18", quick=[dict(which=w) for w in ("dcov", "pdcov", "energy", "t")], attrs=ATOMS,
         engine=NRA)
def result_fields(c, which):
    """The result is the pair (pvalue, statistic), under all its names."""
    n = 4
    x, y = samp(c, "x", n, 0, ORD4[2]), samp(c, "y", n, 0, ORD4[3])
    d = c.dcor
    if which == "dcov":
        r = d.independence.distance_covariance_test(x, y)
    elif which == "pdcov":
        r = d.independence.partial_distance_covariance_test(
            x, y, c.array([c.const(v) for v in (0, 1, 3, 7)]))
    elif which == "energy":
        r = d.homogeneity.energy_test(x, y)
    else:
        _u(c, x, y)
        r = d.independence.distance_correlation_t_test(x, y)
    a, b = r
    c.eq("first element", a, r.pvalue)
    c.eq("second element", b, r.statistic)
    c.eq("p_value", r.p_value, r.pvalue)
    c.eq("length", len(r), 2)


# ------------------------------------------------------------------ C19
def call(c, test, x, y, z, **kw):
    d = c.dcor
    if test == "dcov":
        return d.independence.distance_covariance_test(x, y, **kw)
    if test == "energy":
        return d.homogeneity.energy_test(x, y, **kw)
    if test == "energy3":
        return d.homogeneity.energy_test(x[:1], y[:1], x[1:], **kw)
    return d.independence.partial_distance_covariance_test(x, y, z, **kw)


def data(c, test):
    """Small samples; the permuted object is fully symbolic."""
    z = None
    if test == "dcov":
        x, y = samp(c, "x", 3, 0), samp(c, "y", 3, 0)
    elif test in ("energy", "energy3"):
        x, y = samp(c, "x", 2, 0), samp(c, "y", 1, 0)
    else:
        x, y = samp(c, "x", 4, 0), samp(c, "y", 4, 0)
        z = c.array([c.const(v) for v in (0, 1, 3, 7)])
    return x, y, z


PS = {"dcov": P3[:3], "energy": [[0, 1, 2], [2, 1, 0], [2, 0, 1]],
      "energy3": [[0, 1, 2], [2, 1, 0], [2, 0, 1]], "pdcov": P4[1:3]}


@harness("C19", quick=[dict(test=t, R=2) for t in ("dcov", "energy", "energy3")]
         + [dict(test="pdcov", R=1)] + [dict(test=t, R=2, nj=2) for t in ("dcov", "energy")],
         thorough=[dict(test=t, R=3) for t in ("dcov", "energy")],
         attrs=ATOMS, engine=NRA)
def seed_reproducible(c, test, R, nj=1):
    """The same integer seed gives the same result, whatever ran in between."""
    x, y, z = data(c, test)
    c.perm_set(PS[test])
    a = call(c, test, x, y, z, num_resamples=R, random_state=11, n_jobs=nj)
    b = call(c, test, x, y, z, num_resamples=R, random_state=11, n_jobs=nj)
    k = call(c, test, x, y, z, num_resamples=R, random_state=c.rng(PS[test], seed=11), n_jobs=nj)
    c.eq("same seed, same p-value", b.pvalue, a.pvalue)
    c.eq("same seed, same statistic", b.statistic, a.statistic)
    c.eq("seed or RandomState(seed): p-value", k.pvalue, a.pvalue)
    c.true("numpy's global random state is not used", not c.global_random_used())


@harness("C19", quick=[dict(test=t, R=2, copy=k) for t in ("dcov", "energy")
                       for k in (True, False)]
         + [dict(test="pdcov", R=2, copy=True), dict(test="dcov", R=3, copy=True),
            dict(test="energy", R=3, copy=False), dict(test="dcov", R=2, copy=True, nj=-1)],
         thorough=[dict(test="dcov", R=4, copy=True)],
         attrs=ATOMS, engine=NRA)
def parallel_is_serial(c, test, R, copy, nj=2):
    """Any schedule of the workers gives the result of the serial run."""
    x, y, z = data(c, test)
    c.perm_set(PS[test][1:] if R > 2 else PS[test])
    c.copy_tasks(copy)
    a = call(c, test, x, y, z, num_resamples=R, random_state=5)
    b = call(c, test, x, y, z, num_resamples=R, random_state=5, n_jobs=nj)
    c.eq("parallel p-value", b.pvalue, a.pvalue)
    c.eq("parallel statistic", b.statistic, a.statistic)


@harness("C19", quick=[dict(test=t, kind=k) for t in ("dcov", "energy", "pdcov")
                       for k in ("state", "generator")],
         attrs=ATOMS, engine=NRA)
def generator_object(c, test, kind):
    """A generator passed in is advanced by the draws: two runs on one generator
    are the two consecutive stretches of its sequence."""
    x, y, z = data(c, test)
    ps = PS[test]
    rng = rngs(c, kind, ps)
    R = 1
    call(c, test, x, y, z, num_resamples=R, random_state=rng)
    c.eq("draws of the first run", len(c.draws(rng)), R)
    call(c, test, x, y, z, num_resamples=R, random_state=rng)
    c.eq("draws of both runs", len(c.draws(rng)), 2 * R)


@harness("C19", quick=[dict(test=t, nj=nj) for t in ("dcov", "energy", "pdcov")
                       for nj in (1, 2)], attrs=ATOMS, engine=NRA)
def no_seed(c, test, nj):
    """Without random_state the draws do not come from NumPy's global state."""
    x, y, z = data(c, test)
    c.perm_set(PS[test][:2])
    r = call(c, test, x, y, z, num_resamples=1, n_jobs=nj)
    c.true("numpy's global random state is not used", not c.global_random_used())
    c.true("p-value in (0, 1]", 0 < float(r.pvalue) <= 1)
    call(c, test, x, y, z, num_resamples=1, n_jobs=nj, random_state=None)
    c.true("numpy's global random state is not used (None)", not c.global_random_used())


# ------------------------------------------------------------------ C20
def t_ref(c, x, y, n):
    f = _u(c, x, y)
    _cs(c, *f)
    va, vb, cov = (c.name(k, v) for k, v in zip(("va", "vb", "cov"), f[:3]))
    for v in (va, vb, va * vb, va * vb - cov * cov):
        c.nonneg(v)
    return va, vb, cov


@harness("C20", quick=[dict(n=4, ox=ORD4[2], oy=ORD4[3]), dict(n=4, ox=ORD4[4], oy=ORD4[0]),
                       dict(n=4, ox=ORD4[5], oy=ORD4[6]), dict(n=4, p=2, q=0),
                       dict(n=5, ox=ORD5[2], oy=ORD5[3]), dict(n=5, ox=ORD5[0], oy=ORD5[4]),
                       dict(n=6, ox=[3, 1, 4, 0, 5, 2], oy=[0, 2, 2, 1, 4, 3])],
         thorough=[dict(n=5, p=2, q=0), dict(n=4, p=2, q=2)]
         + [dict(n=5, ox=a, oy=b) for a in ORD5 for b in ORD5], attrs=ATOMS, engine=NRA)
def t_statistic(c, n, ox=None, oy=None, p=0, q=0):
    """t = sqrt(v - 1) r / sqrt(1 - r^2) with v = n (n - 3) / 2; p = P(T > t)."""
    x, y = samp(c, "x", n, p, ox), samp(c, "y", n, q, oy)
    va, vb, cov = t_ref(c, x, y, n)
    v = n * (n - 3) // 2
    D = va * vb - cov * cov          # >= 0 by Cauchy-Schwarz
    d = c.dcor.independence
    w = va * vb
    if bool(c.guard(w) == 0):
        r = 0
        c.eq("t of a constant sample", d.distance_correlation_t_statistic(x, y), 0)
        t = c.const(0)
    elif bool(c.guard(D, 1e-4) == 0):
        t = d.distance_correlation_t_statistic(x, y)
        if c.sym:
            c.true("t infinite", isinstance(t, float) and abs(t) == float("inf"))
            if bool(cov > 0):
                c.true("t = inf", t > 0)
                c.eq("p-value of t = inf", d.distance_correlation_t_test(x, y).pvalue, 0)
            else:
                c.true("t = -inf", t < 0)
                c.eq("p-value of t = -inf", d.distance_correlation_t_test(x, y).pvalue, 1)
        return
    else:
        r = c.dcor.u_distance_correlation_sqr(x, y)
        t = d.distance_correlation_t_statistic(x, y)
        # t^2 (1 - r^2) = (v - 1) r^2, and t has the sign of the covariance
        c.eq("t^2 (1 - r^2)", t * t * (1 - r * r), r * r * (v - 1))
        if bool(c.guard(cov) > 0):
            c.le("t >= 0", 0, t)
        else:
            c.le("t <= 0", t, 0)
    res = d.distance_correlation_t_test(x, y)
    c.eq("statistic of the test", res.statistic, t)
    c.eq("p-value = 1 - F(t; v - 1)", res.pvalue, c.t_sf(t, v - 1))
