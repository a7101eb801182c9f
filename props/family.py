"""One-parameter families: a fixed sample times a free factor.

The only unknown is the factor, so that the solver decides these obligations even
when the code branches on the size of an intermediate quantity (a tolerance, a
clipping, a 'small' special case), where the fully symbolic harnesses may be beyond
reach."""
from __future__ import annotations

from fractions import Fraction

from symx import ref
from . import harness
from .dcov import ATOMS
from .corr import NRA

# distances between the points of the plane are integers
A4, B4 = [0, 1, 3, 7], [2, 0, 5, 1]
A5, B5 = [4, 0, 1, 9, 2], [1, 1, 6, 3, 0]
Q4 = [(0, 0), (3, 0), (0, 4), (3, 4)]
Q5 = [(0, 0), (3, 4), (6, 8), (3, -4), (0, 8)]
C4 = [1, 0, 4, 2]
A6, B6, C6 = [4, 0, 1, 9, 2, 7], [1, 1, 6, 3, 0, 2], [2, 5, 0, 1, 7, 3]
Q6 = Q5 + [(3, 12)]
LO, HI = Fraction(1, 2 ** 60), Fraction(2 ** 60)


def mul(c, pts, k):
    if isinstance(pts[0], tuple):
        return c.array([[c.const(v) * k for v in p] for p in pts])
    return c.array([c.const(v) * k for v in pts])


def factor(c, name="k", one=False):
    """Any factor between 2**-60 and 2**60."""
    k = c.real(name)
    if not c.sym:
        if not float(LO) <= k <= float(HI):
            k = k * 0 + 1
        return k
    c.assume(k >= LO)
    c.assume(k <= HI)
    c.e.know_sign(k.n, c.core.rv(Fraction(0)), 4)
    k.nonneg = True
    return k


def corr(c, a, b, center, s):
    """Squared correlation of two integer distance matrices (a float or an exact root)."""
    A, B = center(a), center(b)
    va, vb, cov = (ref.inner(u, v) / s for u, v in ((A, A), (B, B), (A, B)))
    return cov / c.sqrt(va * vb)


def unit(c, pts):
    return mul(c, pts, c.const(1))


PAIRS = {"v4": (A4, B4), "v5": (A5, B5), "q4": (Q4, A4), "q5": (Q5, A5), "qq": (Q4, Q4[::-1])}


@harness(["C05", "C08"], quick=[dict(d=d, m=m) for d in ("v4", "v5") for m in (
    "auto", "naive", "avl", "mergesort")] + [dict(d=d) for d in ("q4", "q5", "qq")],
    attrs=ATOMS, engine=NRA)
def scaled_correlation(c, d, m="auto"):
    """dcor(k a, l b) is dcor(a, b), however small or large the factors are."""
    a, b = PAIRS[d]
    n = len(a)
    k = factor(c)
    da, db = ref.dmat(c, unit(c, a)), ref.dmat(c, unit(c, b))
    x, y = mul(c, a, k), unit(c, b)
    if c.choose(2):
        x, y = y, x
    want = corr(c, da, db, ref.dcenter, n * n)
    f = c.dcor
    c.eq("dcor^2", f.distance_correlation_sqr(x, y, method=m), want)
    r = f.distance_correlation(x, y, method=m)
    c.eq("dcor", r * r, want)
    s = f.distance_stats_sqr(x, y, method=m)
    c.eq("stats dcor^2", s.correlation_xy, want)
    c.eq("stats dcov^2 / k", s.covariance_xy / k, ref.dcov2(da, db))
    c.eq("dcov^2 / k", f.distance_covariance_sqr(x, y, method=m) / k, ref.dcov2(da, db))
    want = corr(c, da, db, ref.ucenter, n * (n - 3))
    c.eq("u-dcor^2", f.u_distance_correlation_sqr(x, y, method=m), want)
    s = f.u_distance_stats_sqr(x, y, method=m)
    c.eq("u-stats dcor^2", s.correlation_xy, want)
    c.eq("u-dcov^2 / k", f.u_distance_covariance_sqr(x, y, method=m) / k,
         ref.udcov2(da, db))


@harness(["C13", "C08"], quick=[dict(d=d, e=e) for d in ("v4", "q4") for e in (1, 2)],
         attrs=ATOMS)
def scaled_distances(c, d, e):
    a, _ = PAIRS[d]
    k = factor(c)
    ke = k if e == 1 else k * k
    x = mul(c, a, k)
    n = len(a)
    h = n // 2
    f = c.dcor.distances.pairwise_distances
    w = ref.dmat(c, unit(c, a), None, e)
    kw = {} if e == 1 else dict(exponent=e)
    c.eq("distances / k", f(x, **kw) / ke, w)
    c.eq("distances (x, y) / k", f(x[:h], x[h:], **kw) / ke, [r[h:] for r in w[:h]])


@harness(["C14", "C15", "C16"], quick=[dict(d=d, s=s) for d in ("v4", "v5", "q4", "q5")
                                for s in ("V", "U")], attrs=ATOMS)
def scaled_energy(c, d, s):
    """Energy distances of k a and k b are k times those of a and b."""
    a, _ = PAIRS[d]
    k = factor(c)
    x = mul(c, a, k)
    u = unit(c, a)
    h = len(a) // 2
    w = ref.energy(c, u[:h], u[h:], 1, s)
    kw = {} if s == "V" else dict(estimation_stat=s)
    n, m = h, len(a) - h
    f = Fraction(n * m, n + m) if c.sym else n * m / (n + m)
    c.eq("energy / k", c.dcor.energy_distance(x[:h], x[h:], **kw) / k, w)
    c.eq("statistic / k", c.dcor.homogeneity.energy_test_statistic(
        x[:h], x[h:], **kw) / k, w * f)
    c.eq("test statistic / k", c.dcor.homogeneity.energy_test(
        x[:h], x[h:], **kw).statistic / k, w * f)


@harness(["C11", "C12"], quick=[dict(which=w) for w in range(3)], attrs=ATOMS, engine=NRA)
def scaled_partial(c, which):
    """Partial covariance and correlation when one of the three samples is scaled."""
    k = factor(c)
    base = [A6, B6, C6] if which else [Q6, B6, C6]
    n = 6
    s = n * (n - 3)
    U = [ref.ucenter(ref.dmat(c, unit(c, v))) for v in base]
    S = [mul(c, v, k) if i == which else unit(c, v) for i, v in enumerate(base)]
    ip = {(i, j): ref.inner(U[i], U[j]) / s for i in range(3) for j in range(i, 3)}
    pd = ip[0, 1] - ip[0, 2] * ip[1, 2] / ip[2, 2]
    px = ip[0, 0] - ip[0, 2] * ip[0, 2] / ip[2, 2]
    py = ip[1, 1] - ip[1, 2] * ip[1, 2] / ip[2, 2]
    got = c.dcor.partial_distance_covariance(*S)
    c.eq("pdcov / k", got if which == 2 else got / k, pd)
    c.eq("pdcor", c.dcor.partial_distance_correlation(*S), pd / c.sqrt(px * py))


@harness(["C01", "C02", "C03", "C07"], quick=[dict(d=d, m=m) for d in ("v4", "v5") for m in (
    "auto", "naive", "avl", "mergesort")] + [dict(d=d) for d in ("q4", "q5", "qq")],
    attrs=ATOMS)
def scaled_covariance(c, d, m="auto"):
    """dcov^2(k a, b) is k dcov^2(a, b), however small or large k is."""
    a, b = PAIRS[d]
    k = factor(c)
    da, db = ref.dmat(c, unit(c, a)), ref.dmat(c, unit(c, b))
    x, y = mul(c, a, k), unit(c, b)
    f, g = c.dcor.distance_covariance_sqr, c.dcor.u_distance_covariance_sqr
    for u, v, lab in ((x, y, ""), (y, x, " exchanged")):
        c.eq("dcov^2 / k" + lab, f(u, v, method=m) / k, ref.dcov2(da, db))
        c.eq("u-dcov^2 / k" + lab, g(u, v, method=m) / k, ref.udcov2(da, db))
    c.eq("dvar^2 / k^2", f(x, x, method=m) / (k * k), ref.dcov2(da, da))


@harness(["C10"], quick=[dict(n=4), dict(n=5)], attrs=ATOMS)
def scaled_projection(c, n):
    """Projections along k b are those along b; those of k a are k times those of a."""
    k = factor(c)
    A, B = (ref.ucenter(ref.dmat(c, unit(c, v))) for v in ((A4, B4) if n == 4 else (A5, B5)))
    ab, bb = ref.inner(A, B), ref.inner(B, B)
    P = [[ab / bb * v for v in r] for r in B]
    Q = [[v - w for v, w in zip(r, s)] for r, s in zip(A, P)]

    def times(m, u):
        return c.array([[c.const(1) * v * u for v in r] for r in m])
    d = c.dcor
    one = c.const(1)
    a, kb, ka, b = times(A, one), times(B, k), times(A, k), times(B, one)
    c.eq("projection along k b", d.u_projection(kb)(a), P)
    c.eq("complement along k b", d.u_complementary_projection(kb)(a), Q)
    c.eq("projection of k a", d.u_projection(b)(ka) / k, P)
    c.eq("complement of k a", d.u_complementary_projection(b)(ka) / k, Q)
    c.eq("products", d.u_product(ka, b) / k, ab / (n * (n - 3)))
    c.eq("mean products", d.mean_product(ka, b) / k, ab / (n * n))


@harness(["C20"], quick=[dict(d=d) for d in ("v4", "v5", "q5")], attrs=ATOMS, engine=NRA)
def scaled_t(c, d):
    """The t statistic does not depend on the scale."""
    a, b = PAIRS[d]
    n = len(a)
    k = factor(c)
    r = corr(c, ref.dmat(c, unit(c, a)), ref.dmat(c, unit(c, b)), ref.ucenter, n * (n - 3))
    v = n * (n - 3) // 2
    t = c.dcor.independence.distance_correlation_t_statistic(mul(c, a, k), unit(c, b))
    c.eq("t^2 (1 - r^2)", t * t * (1 - r * r), r * r * (v - 1))
    if bool(r > 0):
        c.le("t >= 0", 0, t)
    else:
        c.le("t <= 0", t, 0)


@harness(["C17"], quick=[dict(test="dcov", d="v4"), dict(test="dcov", d="q4"),
                         dict(test="energy", d="v5"), dict(test="energy", d="q5"),
                         dict(test="pdcov", d="v5")], attrs=ATOMS, engine=NRA)
def scaled_pvalue(c, test, d):
    """p-values do not depend on the scale of the data."""
    from .tests import pvalue, same_p, dcov_stat, energy_stat, pdcov_mats, permuted
    a, b = PAIRS[d]
    n = len(a)
    k = factor(c)
    h = n // 2
    P = [list(range(1, n)) + [0], list(range(n))[::-1], [1, 0] + list(range(2, n))]
    rng = c.rng(P)
    u, w = unit(c, a), unit(c, b)
    x = mul(c, a, k)
    kw = dict(num_resamples=2, random_state=rng)
    if test == "dcov":
        stat = dcov_stat(c, u, w, 1)
        r = c.dcor.independence.distance_covariance_test(x, w, **kw)
    elif test == "energy":
        stat = energy_stat(c, [u[:h], u[h:]], 1, "V")
        r = c.dcor.homogeneity.energy_test(x[:h], x[h:], **kw)
    else:
        z = unit(c, [5, 3, 0, 1, 9])
        pa, pb, q = pdcov_mats(c, u, w, z, 1)

        def stat(p):
            return ref.inner(permuted(pa, p), pb) / q * n
        r = c.dcor.independence.partial_distance_covariance_test(x, w, z, **kw)
    s = stat(list(range(n)))
    c.eq("statistic / k", r.statistic / k, s)
    same_p(c, "p-value", r.pvalue, pvalue(c, s, c.draws(rng), stat))


@harness(["C22"], quick=[dict(d="v4"), dict(d="v5"), dict(d="z"), dict(d="zq")],
         attrs=ATOMS, engine=NRA)
def scaled_af_inv(c, d):
    """The affinely invariant correlation of k a and b is that of a and b."""
    from .rowwise import ZS, _corr_of
    k = factor(c)
    if d[0] == "v":
        a, b = PAIRS[d]
        da = ref.dmat(c, unit(c, a))
    else:
        a, b = ZS[0][1], A5
        da = ref.dmat(c, unit(c, a))
    x = mul(c, a, k)
    if d == "zq":
        # one coordinate scaled
        x = c.array([[c.const(p) * k, c.const(q)] for p, q in a])
    y = unit(c, b)
    if c.choose(2):
        x, y = y, x
    want = _corr_of(c, da, ref.dmat(c, unit(c, b)), "ab")
    c.eq("af_inv^2", c.dcor.distance_correlation_af_inv_sqr(x, y), want)
    if d[0] == "v":
        r = c.dcor.distance_correlation_af_inv(x, y)
        c.eq("af_inv", r * r, want)


@harness(["C21"], quick=[dict(f=f) for f in ("distance_correlation_sqr",
                                             "u_distance_correlation_sqr",
                                             "distance_correlation")],
         attrs=ATOMS, engine=NRA)
def scaled_rowwise(c, f):
    """Rows of very different magnitudes."""
    k = factor(c)
    x = c.array([[c.const(v) * k for v in A4], [c.const(v) for v in B4]])
    y = c.array([[c.const(v) for v in B4], [c.const(v) * k for v in C4]])
    u = "u_" in f
    cen, s = (ref.ucenter, 4) if u else (ref.dcenter, 16)
    D = [ref.dmat(c, unit(c, v)) for v in (A4, B4, C4)]
    want = [corr(c, D[0], D[1], cen, s), corr(c, D[1], D[2], cen, s)]
    got = c.dcor.rowwise(getattr(c.dcor, f), x, y)
    c.eq("number of results", len(got), 2)
    for g, w in zip(got, want):
        c.eq(f, g * g if f == "distance_correlation" else g, w)
