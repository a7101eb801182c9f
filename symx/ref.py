"""Reference definitions, written from dcor's documentation (docs/theory.rst and
the docstrings) with plain Python arithmetic; they work on symbolic values and
on floats.  ``ctx`` supplies square root and power."""
from __future__ import annotations


class Seq(list):
    """Permutations a generator returns in this order (instead of any of them)."""


def allowed(perms, i):
    return [perms[i % len(perms)]] if isinstance(perms, Seq) else perms


def col(x, i):
    """Observation i of a sample as a list of coordinates."""
    v = x[i]
    if getattr(v, "ndim", 0):
        return [v[k] for k in range(v.shape[0])]
    return [v]


def dist(ctx, u, v, exponent=1):
    """Euclidean distance to the power ``exponent``."""
    if len(u) == 1:
        d = abs(u[0] - v[0])
        if _is(exponent, 1):
            return d
        if _is(exponent, 2):
            return d * d
        return ctx.pow(d, exponent)
    s = 0
    for a, b in zip(u, v):
        s = (a - b) * (a - b) + s
    if _is(exponent, 1):
        return ctx.sqrt(s)
    if _is(exponent, 2):
        return s
    return ctx.pow(s, exponent / 2)


def _is(e, v):
    return isinstance(e, (int, float)) and e == v


def dmat(ctx, x, y=None, exponent=1):
    n = x.shape[0]
    if y is None:
        m = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                m[i][j] = m[j][i] = dist(ctx, col(x, i), col(x, j), exponent)
        return m
    return [[dist(ctx, col(x, i), col(y, j), exponent) for j in range(y.shape[0])]
            for i in range(n)]


def total(vals):
    s = 0
    for v in vals:
        s = v + s
    return s


def rows(a):
    return [total(r) for r in a]


def dcenter(a):
    n = len(a)
    r = rows(a)
    t = total(r)
    return [[a[i][j] - r[i] / n - r[j] / n + t / (n * n) for j in range(n)]
            for i in range(n)]


def ucenter(a):
    n = len(a)
    r = rows(a)
    t = total(r)
    return [[0 if i == j else
             a[i][j] - r[i] / (n - 2) - r[j] / (n - 2) + t / ((n - 1) * (n - 2))
             for j in range(n)] for i in range(n)]


def inner(a, b):
    return total(a[i][j] * b[i][j] for i in range(len(a)) for j in range(len(a)))


def dcov2(a, b):
    """Squared distance covariance from two distance matrices (V-statistic)."""
    n = len(a)
    return inner(dcenter(a), dcenter(b)) / (n * n)


def udcov2(a, b):
    n = len(a)
    return inner(ucenter(a), ucenter(b)) / (n * (n - 3))


def dcov2_flat(a, b):
    """Same number as dcov2, from the expanded formula S1 + S2 - 2 S3."""
    n = len(a)
    ra, rb = rows(a), rows(b)
    s1 = inner(a, b) / (n * n)
    s2 = total(ra) * total(rb) / (n ** 4)
    s3 = total(u * v for u, v in zip(ra, rb)) / (n ** 3)
    return s1 + s2 - 2 * s3


def udcov2_flat(a, b):
    n = len(a)
    ra, rb = rows(a), rows(b)
    s1 = inner(a, b) / (n * (n - 3))
    s2 = total(ra) * total(rb) / (n * (n - 1) * (n - 2) * (n - 3))
    s3 = total(u * v for u, v in zip(ra, rb)) / (n * (n - 2) * (n - 3))
    return s1 + s2 - 2 * s3


def corr2(ctx, cov, va, vb):
    """cov / sqrt(|va vb|), 0 when a variance is zero."""
    p = va * vb
    if bool(ctx.guard(p) == 0):
        return 0
    return cov / ctx.sqrt(abs(p))


def mean(m):
    c = [v for r in m for v in r]
    return total(c) / len(c)


def umean(m):
    """Mean over pairs of distinct points."""
    n = len(m)
    return total(m[i][j] for i in range(n) for j in range(n) if i < j) / (n * (n - 1) // 2)


def energy(ctx, x, y, exponent=1, stat="V"):
    xy = mean(dmat(ctx, x, y, exponent))
    f = mean if stat == "V" else umean
    return 2 * xy - f(dmat(ctx, x, None, exponent)) - f(dmat(ctx, y, None, exponent))


def flat(m):
    return [v for r in m for v in r]


def offdiag(m):
    n = len(m)
    return [m[i][j] for i in range(n) for j in range(n) if i != j]


def upper(m):
    """Entries of a symmetric matrix with their multiplicities."""
    n = len(m)
    return [(1 if i == j else 2, m[i][j]) for i in range(n) for j in range(i, n)]


def lagrange(ms, a, b):
    """Squares of the identity |a|^2 |b|^2 - (a.b)^2 for weighted vectors.

    ms: multiplicities of the entries.  Returns [(weight, term), ...].
    """
    out = []
    for i in range(len(a)):
        for j in range(i):
            out.append((ms[i] * ms[j], a[i] * b[j] - a[j] * b[i]))
    return out
