"""C09 centering, C10 products and projections, C11/C12 partial statistics."""
from __future__ import annotations

from fractions import Fraction

import numpy as np

from symx import ref
from . import harness
from ._h import samp
from .dcov import ATOMS, ORD4, ORD5, exps
from .corr import NRA


def sym_matrix(c, name, n, zero_diag=False, dtype=np.float64):
    v = c.reals(name, n * (n + 1) // 2, dtype=dtype)
    rows = [[None] * n for _ in range(n)]
    k = 0
    for i in range(n):
        for j in range(i + 1):
            rows[i][j] = rows[j][i] = 0 if zero_diag and i == j else v[k]
            k += 1
    return c.array(rows, dtype)


def mat(a):
    n = a.shape[0]
    return [[a[i, j] for j in range(n)] for i in range(n)]


def rect(a):
    return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]


# ------------------------------------------------------------------ C09
@harness("C09", quick=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)], thorough=[dict(n=9)])
def double_centered_def(c, n):
    a = sym_matrix(c, "a", n)
    m = mat(a)
    r = c.dcor.double_centered(a)
    c.eq("double centered", r, ref.dcenter(m))
    for i in range(n):
        c.eq("row mean 0", ref.total(r[i, j] for j in range(n)), 0)
        c.eq("column mean 0", ref.total(r[j, i] for j in range(n)), 0)
    c.eq("argument unchanged", mat(a), m)
    c.eq("centering twice", c.dcor.double_centered(r), r)


@harness("C09", quick=[dict(n=n) for n in (3, 4, 5, 6)], thorough=[dict(n=9)])
def u_centered_def(c, n):
    a = sym_matrix(c, "a", n, zero_diag=True)
    m = mat(a)
    r = c.dcor.u_centered(a)
    c.eq("u-centered", r, ref.ucenter(m))
    for i in range(n):
        c.eq("diagonal 0", r[i, i], 0)
        c.eq("row sum 0", ref.total(r[i, j] for j in range(n)), 0)
        c.eq("column sum 0", ref.total(r[j, i] for j in range(n)), 0)
    c.eq("argument unchanged", mat(a), m)
    c.eq("centering twice", c.dcor.u_centered(r), r)
    b = sym_matrix(c, "b", n)
    c.eq("general diagonal", c.dcor.u_centered(b), ref.ucenter(mat(b)))


@harness("C09", quick=[dict(n=n, f=f) for n in (3, 4) for f in ("d", "u")])
def centering_out(c, n, f):
    d = c.dcor
    fn, rf = (d.double_centered, ref.dcenter) if f == "d" else (d.u_centered, ref.ucenter)
    a = sym_matrix(c, "a", n, zero_diag=(f == "u"))
    m = mat(a)
    out = c.reals("junk", n, n)
    r = fn(a, out=out)
    c.true("returns out", r is out)
    c.eq("out holds the result", out, rf(m))
    c.eq("argument unchanged", mat(a), m)
    r = fn(a, out=a)
    c.true("returns out (in place)", r is a)
    c.eq("in place", a, rf(m))


@harness("C09", quick=[dict(n=3, f="d", dt="int64"), dict(n=3, f="u", dt="int64"),
                       dict(n=3, f="d", dt="int8"), dict(n=3, f="u", dt="uint8"),
                       dict(n=3, f="u", dt="int8"), dict(n=3, f="d", dt="uint16"),
                       dict(n=3, f="d", dt="int32"), dict(n=3, f="u", dt="uint32")],
         exact=True)
def centering_ints(c, n, f, dt):
    """Integer matrices are centered in floating point, without overflow."""
    d = c.dcor
    fn, rf = (d.double_centered, ref.dcenter) if f == "d" else (d.u_centered, ref.ucenter)
    v = c.ints("a", 6, dtype=dt, **(dict(lo=-2 ** 40, hi=2 ** 40) if dt == "int64" else {}))
    a = c.array([[v[0], v[1], v[2]], [v[1], v[3], v[4]], [v[2], v[4], v[5]]], dt)
    f64 = [[c.const(1) * x for x in r] for r in
           [[v[0], v[1], v[2]], [v[1], v[3], v[4]], [v[2], v[4], v[5]]]]
    r = fn(a)
    c.true("float result", np.dtype(r.dtype).kind == "f")
    if c.sym:
        S = c.core.Sym
        f64 = [[S(x.n, x.d, x.c) for x in r2] for r2 in f64]
    c.eq("centered", r, rf(f64))


@harness("C09", quick=[dict(n=4, p=0, e=1), dict(n=3, p=2, e=1), dict(n=4, p=2, e=1.5)],
         thorough=[dict(n=6, p=2, e=1), dict(n=5, p=3, e=0.5)], attrs=ATOMS)
def centered_distances(c, n, p, e):
    """Centering the distance matrix of a sample, as the library's tests do."""
    d = c.dcor
    x = samp(c, "x", n, p)
    a = d.distances.pairwise_distances(x, **exps(e))
    m = ref.dmat(c, x, None, e)
    c.eq("double", d.double_centered(a), ref.dcenter(m))
    c.eq("u", d.u_centered(a), ref.ucenter(m))
    c.eq("distance matrix not modified", a, m)


# ------------------------------------------------------------------ C10
@harness("C10", quick=[dict(n=n) for n in (2, 3, 4, 5)], thorough=[dict(n=8)])
def products_def(c, n):
    d = c.dcor
    a, b = c.reals("a", n, n), c.reals("b", n, n)
    A, B = rect(a), rect(b)
    s = ref.inner(A, B)
    c.eq("mean_product", d.mean_product(a, b), s / (n * n))
    c.eq("mean_product symmetric", d.mean_product(b, a), s / (n * n))
    if n > 3:
        c.eq("u_product", d.u_product(a, b), s / (n * (n - 3)))
        c.eq("u_product symmetric", d.u_product(b, a), s / (n * (n - 3)))
        k = c.real("k")
        e = c.reals("e", n, n)
        c.eq("u_product linear", d.u_product(a * k + e, b),
             d.u_product(a, b) * k + d.u_product(e, b))
    c.eq("a unchanged", rect(a), A)
    c.eq("b unchanged", rect(b), B)


@harness("C10", quick=[dict(n=4), dict(n=5)], thorough=[dict(n=7)], engine=NRA)
def projection_def(c, n):
    """Projection onto a U-centered matrix and its orthogonal complement."""
    d = c.dcor
    a, z = c.reals("a", n, n), c.reals("z", n, n)
    A, Z = rect(a), rect(z)
    zz = ref.inner(Z, Z)
    c.nonneg(zz, [(1, v) for v in ref.flat(Z)])
    c.assume(zz != 0)
    c.guard(zz)
    p = d.u_projection(z)
    pa = p(a)
    k = ref.inner(A, Z) / zz
    c.eq("projection", pa, [[k * v for v in r] for r in Z])
    q = d.u_complementary_projection(z)
    qa = q(a)
    c.eq("complement = a - projection", qa,
         [[A[i][j] - k * Z[i][j] for j in range(n)] for i in range(n)])
    c.eq("complement orthogonal", ref.inner(rect(qa), Z), 0)
    c.eq("z unchanged", rect(z), Z)
    c.eq("a unchanged", rect(a), A)
    c.eq("projection idempotent", p(pa), pa)
    c.eq("complement of z", q(z), [[0] * n for _ in range(n)])


@harness("C10", quick=[dict(n=4), dict(n=5)], thorough=[dict(n=8)])
def projection_on_zero(c, n):
    d = c.dcor
    a = c.reals("a", n, n)
    A = rect(a)
    z = c.array([[0.0] * n] * n)
    c.eq("projection is 0", d.u_projection(z)(a), [[0] * n for _ in range(n)])
    c.eq("complement is a", d.u_complementary_projection(z)(a), A)


@harness("C10", quick=[dict(n=4), dict(n=5)], thorough=[dict(n=7)], engine=NRA)
def projection_reused(c, n):
    """One projection object used on several matrices."""
    d = c.dcor
    a, b, z = c.reals("a", n, n), c.reals("b", n, n), c.reals("z", n, n)
    Z = rect(z)
    zz = ref.inner(Z, Z)
    c.nonneg(zz, [(1, v) for v in ref.flat(Z)])
    c.assume(zz != 0)
    c.guard(zz)
    for lab, f in (("p", d.u_projection(z)), ("q", d.u_complementary_projection(z))):
        r1 = f(a)
        r2 = f(b)
        k1, k2 = ref.inner(rect(a), Z) / zz, ref.inner(rect(b), Z) / zz
        for r, m, k in ((r1, rect(a), k1), (r2, rect(b), k2)):
            if lab == "p":
                c.eq(lab, r, [[k * v for v in row] for row in Z])
            else:
                c.eq(lab, r, [[m[i][j] - k * Z[i][j] for j in range(n)] for i in range(n)])


@harness("C10", quick=[dict(lab="p"), dict(lab="q")], engine=NRA)
def projection_after_changes(c, lab):
    """The array that was projected may be changed and projected again; results that
    were returned do not change."""
    n = 4
    d = c.dcor
    a, z = c.reals("a", n, n), c.reals("z", n, n)
    b = c.reals("b", n, n)
    Z = rect(z)
    zz = ref.inner(Z, Z)
    c.nonneg(zz, [(1, v) for v in ref.flat(Z)])
    c.assume(zz != 0)
    c.guard(zz)
    f = d.u_projection(z) if lab == "p" else d.u_complementary_projection(z)

    def want(m):
        k = ref.inner(m, Z) / zz
        if lab == "p":
            return [[k * v for v in row] for row in Z]
        return [[m[i][j] - k * Z[i][j] for j in range(n)] for i in range(n)]
    A, B = rect(a), rect(b)
    r1 = f(a)
    w1 = want(A)
    for i in range(n):
        for j in range(n):
            a[i, j] = b[i, j]
    r2 = f(a)
    c.eq("first result", r1, w1)
    c.eq("after the array was changed", r2, want(B))
    g = d.u_projection(z) if lab == "p" else d.u_complementary_projection(z)
    c.eq("a new projection", g(a), want(B))


# ------------------------------------------------------------------ C11 C12
def _ucm(c, x, e=1):
    return ref.ucenter(ref.dmat(c, x, None, e))


def _partial(c, x, y, z, e=1):
    n = x.shape[0]
    A, B, C = _ucm(c, x, e), _ucm(c, y, e), _ucm(c, z, e)
    s = n * (n - 3)
    k = c.const(1) / s
    out = {}
    for nm, u, v in (("aa", A, A), ("bb", B, B), ("cc", C, C), ("ab", A, B), ("ac", A, C),
                     ("bc", B, C)):
        out[nm] = ref.inner(u, v) / s
    for nm, u in (("aa", A), ("bb", B), ("cc", C)):
        c.nonneg(out[nm], [(w * k, v) for w, v in ref.upper(u)])
    return out, (A, B, C, k)


P3 = [dict(n=4, o=[ORD4[0], ORD4[2], ORD4[3]]), dict(n=4, o=[ORD4[4], ORD4[5], ORD4[0]]),
      dict(n=5, o=[ORD5[2], ORD5[3], ORD5[4]])]


def _xyz(c, n, o, p):
    if o is None:
        return [samp(c, nm, n, k) for nm, k in zip("xyz", p)]
    return [samp(c, nm, n, 0, k) for nm, k in zip("xyz", o)]


@harness("C11", quick=P3 + [dict(n=4, p=[0, 0, 0]), dict(n=4, p=[2, 0, 0]),
                            dict(n=4, p=[2, 2, 2]), dict(n=5, p=[0, 2, 0])],
         thorough=[dict(n=6, p=[0, 0, 0]), dict(n=5, p=[2, 2, 2])]
         + [dict(n=4, o=[a, b, k]) for a in ORD4[:4] for b in ORD4[2:5] for k in ORD4[3:]],
         attrs=ATOMS, engine=NRA)
def pdcov_def(c, n, o=None, p=(0, 0, 0)):
    x, y, z = _xyz(c, n, o, p)
    d = c.dcor
    t, _ = _partial(c, x, y, z)
    got = d.partial_distance_covariance(x, y, z)
    if bool(c.guard(t["cc"]) == 0):
        c.eq("pdcov, z degenerate", got, t["ab"])
    else:
        c.eq("pdcov", got, t["ab"] - t["ac"] * t["bc"] / t["cc"])
    c.eq("symmetric in x and y", d.partial_distance_covariance(y, x, z), got)


@harness("C11", quick=[dict(n=4), dict(n=5)], exact=True, attrs=ATOMS, engine=NRA)
def pdcov_constant_z(c, n):
    """With a constant z nothing is removed."""
    d = c.dcor
    x, y = samp(c, "x", n, 0), samp(c, "y", n, 0)
    k = c.integer("k")
    z = c.array([k] * n)
    want = ref.inner(_ucm(c, x), _ucm(c, y)) / (n * (n - 3))
    c.eq("pdcov", d.partial_distance_covariance(x, y, z), want)


@harness("C11", quick=[dict(n=4, o=[ORD4[0], ORD4[2]]), dict(n=4, o=[ORD4[4], ORD4[3]]),
                       dict(n=5, o=[ORD5[2], ORD5[3]])],
         thorough=[dict(n=4, o=[a, b]) for a in ORD4 for b in ORD4], engine=NRA)
def pdcov_controls(c, n, o):
    """Controlling for y itself leaves nothing."""
    x, y = samp(c, "x", n, 0, o[0]), samp(c, "y", n, 0, o[1])
    B = _ucm(c, y)
    bb = ref.inner(B, B) / (n * (n - 3))
    c.nonneg(bb, [(w * (c.const(1) / (n * (n - 3))), v) for w, v in ref.upper(B)])
    c.assume(bb != 0)
    c.guard(bb)
    d = c.dcor
    c.eq("pdcov(x, y; y)", d.partial_distance_covariance(x, y, y), 0)
    c.eq("pdcov(y, x; y)", d.partial_distance_covariance(y, x, y), 0)


def _r(c, uv, uu, vv):
    """Bias-corrected correlation of two U-centered matrices."""
    p = uu * vv
    if bool(c.guard(p) == 0):
        return 0
    return uv / c.sqrt(p)


@harness("C12", quick=P3 + [dict(n=4, p=[0, 0, 0]), dict(n=4, p=[2, 0, 0])],
         thorough=[dict(n=4, o=[a, b, k]) for a in ORD4[:2] for b in ORD4[2:4]
                            for k in ORD4[3:5]] + [dict(n=4, p=[2, 2, 2])],
         attrs=ATOMS, engine=dict(branch_ms=150, query_ms=10000), task_s=300)
def pdcor_def(c, n, o=None, p=(0, 0, 0)):
    x, y, z = _xyz(c, n, o, p)
    d = c.dcor
    t, (A, B, C, k) = _partial(c, x, y, z)
    pairs = (("a", "b", A, B), ("a", "c", A, C), ("b", "c", B, C))
    if c.sym:
        for u, v, U, V in pairs:
            D = t[u + u] * t[v + v] - t[u + v] * t[u + v]
            ms = [w for w, _ in ref.upper(U)]
            c.nonneg(D, [(w * k * k, s) for w, s in ref.lagrange(
                ms, [s for _, s in ref.upper(U)], [s for _, s in ref.upper(V)])])
    for nm in t:
        t[nm] = c.name(nm, t[nm])
    for nm in ("aa", "bb", "cc"):
        c.nonneg(t[nm])
    for u, v, _, _ in pairs:
        c.nonneg(t[u + u] * t[v + v])
        c.nonneg(t[u + u] * t[v + v] - t[u + v] * t[u + v])
    rxy = _r(c, t["ab"], t["aa"], t["bb"])
    rxz = _r(c, t["ac"], t["aa"], t["cc"])
    ryz = _r(c, t["bc"], t["bb"], t["cc"])
    got = d.partial_distance_correlation(x, y, z)
    q = c.sqrt(1 - rxz * rxz) * c.sqrt(1 - ryz * ryz)
    if bool(c.guard(q, 1e-5) == 0):
        c.eq("pdcor, nothing left", got, 0)
    else:
        c.eq("pdcor", got, (rxy - rxz * ryz) / q)


@harness("C12", quick=[dict(n=4, o=[ORD4[0], ORD4[2]]), dict(n=5, o=[ORD5[2], ORD5[3]])],
         thorough=[dict(n=4, o=[a, b]) for a in ORD4[:4] for b in ORD4[2:]],
         exact=True, attrs=ATOMS, engine=NRA)
def pdcor_constant_z(c, n, o):
    """A constant z removes nothing: the bias-corrected correlation remains."""
    x, y = samp(c, "x", n, 0, o[0]), samp(c, "y", n, 0, o[1])
    k = c.integer("k")
    z = c.array([k] * n)
    A, B = _ucm(c, x), _ucm(c, y)
    s = n * (n - 3)
    w = c.const(1) / s
    aa, bb, ab = (ref.inner(u, v) / s for u, v in ((A, A), (B, B), (A, B)))
    if c.sym:
        c.nonneg(aa, [(m * w, v) for m, v in ref.upper(A)])
        c.nonneg(bb, [(m * w, v) for m, v in ref.upper(B)])
        c.nonneg(aa * bb)
        ms = [m for m, _ in ref.upper(A)]
        c.nonneg(aa * bb - ab * ab, [(m * w * w, t) for m, t in ref.lagrange(
            ms, [t for _, t in ref.upper(A)], [t for _, t in ref.upper(B)])])
    c.eq("pdcor(x, y; constant)", c.dcor.partial_distance_correlation(x, y, z),
         _r(c, ab, aa, bb))
