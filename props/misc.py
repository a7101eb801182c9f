"""C23 arguments untouched and layouts, C24 numeric types, C25 array API, C26 refusals."""
from __future__ import annotations

import warnings
from fractions import Fraction

import numpy as np

from symx import ref
from . import harness
from ._h import samp
from .dcov import ATOMS, ORD4, ORD5, exps
from .corr import NRA, _u, _v

COV = ("distance_covariance_sqr", "distance_covariance", "u_distance_covariance_sqr")
COR = ("distance_correlation_sqr", "distance_correlation", "u_distance_correlation_sqr",
       "distance_stats_sqr", "distance_stats", "u_distance_stats_sqr")


def cells(a):
    """The entries of an array, row by row."""
    if len(a.shape) == 1:
        return [a[i] for i in range(a.shape[0])]
    return [a[i, j] for i in range(a.shape[0]) for j in range(a.shape[1])]


def layout(c, x, kind):
    """(buffer, view of it with the entries of x in another memory layout)."""
    if kind == "plain":
        return x, x
    pad = c.const(7)
    if len(x.shape) == 1:
        v = cells(x)
        if kind == "strided":
            b = c.array([w for u in v for w in (u, pad)])
            return b, b[::2]
        if kind == "reversed":
            b = c.array(v[::-1])
            return b, b[::-1]
        if kind == "column":
            b = c.array([[pad, u, pad] for u in v])
            return b, b[:, 1]
        if kind == "slice":
            b = c.array([[pad, u] for u in v])
            return b, b[:, 1:]
    else:
        n, p = x.shape
        if kind in ("strided", "column", "slice"):
            b = c.array([[w for j in range(p) for w in (pad, x[i, j])] for i in range(n)])
            return b, b[:, 1::2]
        if kind == "reversed":
            b = c.array([[x[n - 1 - i, j] for j in range(p)] for i in range(n)])
            return b, b[::-1]
        if kind == "fortran":
            b = c.array([[x[i, j] for i in range(n)] for j in range(p)])
            return b, b.T
    if kind in ("readonly", "fortran"):
        b = c.array(cells(x)).reshape(x.shape)
        if kind == "readonly":
            b.flags.writeable = False
        return b, b
    raise ValueError(kind)


def values(r):
    """Numbers of a result, whatever its type."""
    if hasattr(r, "pvalue"):
        return [r.pvalue, r.statistic]
    if hasattr(r, "covariance_xy"):
        return [r.covariance_xy, r.correlation_xy, r.variance_x, r.variance_y]
    if hasattr(r, "shape") and len(r.shape) > 0:
        return cells(r)
    return [r]


def calls(c, kind, m=None):
    """Public functions of two (or three) samples, as name -> function."""
    d = c.dcor
    kw = {} if m is None else dict(method=m)
    P = [[3, 0, 2, 1]]
    if kind == "cov":
        return {f: (lambda x, y, f=f: getattr(d, f)(x, y, **kw)) for f in COV}
    if kind == "cor":
        return {f: (lambda x, y, f=f: getattr(d, f)(x, y, **kw)) for f in COR}
    if kind == "af":
        return {"af_inv_sqr": lambda x, y: d.distance_correlation_af_inv_sqr(x, y, **kw)}
    if kind == "dist":
        return {"pairwise_distances": lambda x, y: d.distances.pairwise_distances(x, y),
                "pairwise_distances (one)": lambda x, y: d.distances.pairwise_distances(x),
                "pairwise_distances (exponent)":
                    lambda x, y: d.distances.pairwise_distances(x, y, exponent=1.5)}
    if kind == "energy":
        S = d.EstimationStatistic
        return {"energy": lambda x, y: d.energy_distance(x, y),
                "energy U": lambda x, y: d.energy_distance(
                    x, y, estimation_stat=S.U_STATISTIC),
                "energy statistic": lambda x, y: d.homogeneity.energy_test_statistic(x, y),
                "energy test": lambda x, y: d.homogeneity.energy_test(
                    x, y, num_resamples=0)}
    if kind == "partial":
        return {"pdcov": lambda x, y: d.partial_distance_covariance(x, y, y[::-1]),
                "pdcov (z)": lambda x, y: d.partial_distance_covariance(y[::-1], x, y)}
    if kind == "tests":
        def rs():
            return c.rng(perms=P)
        return {"dcov test": lambda x, y: d.independence.distance_covariance_test(
                    x, y, num_resamples=1, random_state=rs()),
                "energy test": lambda x, y: d.homogeneity.energy_test(
                    x[:2], y[:2], num_resamples=1, random_state=rs())}
    if kind == "row":
        return {"rowwise " + f: (lambda x, y, f=f: d.rowwise(getattr(d, f), [x, x], [y, x]))
                for f in ("distance_covariance_sqr", "u_distance_covariance_sqr",
                          "distance_correlation_sqr")}
    if kind == "t":
        return {"t statistic":
                lambda x, y: d.independence.distance_correlation_t_statistic(x, y)}
    raise ValueError(kind)


MATS = {
    "double_centered": lambda d, a, b: d.double_centered(a),
    "u_centered": lambda d, a, b: d.u_centered(a),
    "mean_product": lambda d, a, b: d.mean_product(a, b),
    "u_product": lambda d, a, b: d.u_product(a, b),
    "u_projection": lambda d, a, b: d.u_projection(a)(b),
    "u_complementary_projection": lambda d, a, b: d.u_complementary_projection(a)(b),
}


# ------------------------------------------------------------------ C23
LAY = ("strided", "reversed", "column", "slice", "readonly")


@harness("C23", quick=[dict(kind="cov", m=m, lay=la) for m in (None, "naive", "mergesort", "avl")
                       for la in LAY]
         + [dict(kind="cor", m=m, lay=la) for m in (None, "naive", "mergesort")
            for la in ("strided", "readonly")]
         + [dict(kind="cov", m=None, lay=la, p=2) for la in ("strided", "reversed", "fortran",
                                                             "readonly")]
         + [dict(kind=k, lay=la, p=p) for k in ("dist", "energy")
            for la in ("slice", "readonly", "fortran") for p in (0, 2)]
         + [dict(kind="af", lay="readonly"), dict(kind="af", lay="strided"),
            dict(kind="partial", lay="readonly"), dict(kind="partial", lay="strided"),
            dict(kind="tests", lay="readonly"), dict(kind="tests", lay="slice"),
            dict(kind="t", lay="readonly"), dict(kind="t", lay="reversed")],
         attrs=ATOMS, engine=NRA, jit=True)
def arguments_untouched(c, kind, lay, m=None, p=0):
    """The call leaves its arguments as they were, and the result does not depend
    on their memory layout."""
    if p:
        x, y = samp(c, "x", 3, p), samp(c, "y", 3, p)
    else:
        x, y = samp(c, "x", 4, 0, ORD4[2]), samp(c, "y", 4, 0, ORD4[6])
    if kind in ("cor", "af", "t"):
        if c.sym or lay != "plain":
            _v(c, x, y)
            _u(c, x, y)
        f = _v(c, x, y)
        c.guard(f[0] * f[1])
        if kind == "t":
            f = _u(c, x, y)
            c.guard(f[0] * f[1] - f[2] * f[2])
    bx, vx = layout(c, x, lay)
    by, vy = layout(c, y, lay)
    before = [cells(b) for b in (x, y, bx, by)]
    with c.quiet():
        for name, f in calls(c, kind, m).items():
            want = values(f(x, y))
            got = values(f(vx, vy))
            c.eq(f"{name}: number of values", len(got), len(want))
            for i, (g, w) in enumerate(zip(got, want)):
                c.eq(f"{name} ({lay}) [{i}]", g, w)
    for b, old in zip((x, y, bx, by), before):
        for i, (u, v) in enumerate(zip(cells(b), old)):
            c.eq(f"argument unchanged [{i}]", u, v)


@harness("C23", quick=[dict(f=f, lay=la) for f in MATS for la in ("fortran", "strided", "readonly")])
def matrices_untouched(c, f, lay):
    n = 4
    a = c.array([[c.const(0)] * n] * n)
    A = [[0] * n for _ in range(n)]
    B = [[0] * n for _ in range(n)]
    for M, nm in ((A, "a"), (B, "b")):
        for i in range(n):
            for j in range(i + 1):
                M[i][j] = M[j][i] = c.real(f"{nm}{i}{j}") if i != j else c.const(0)
    a, b = c.array(A), c.array(B)
    if "projection" in f:
        s = ref.total(A[i][j] * A[i][j] for i in range(n) for j in range(n))
        c.assume(s > 1)
    ba, va = layout(c, a, lay)
    bb, vb = layout(c, b, lay)
    before = [cells(v) for v in (a, b, ba, bb)]
    d = c.dcor
    want, got = values(MATS[f](d, a, b)), values(MATS[f](d, va, vb))
    c.eq("number of values", len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        c.eq(f"{f} [{i}]", g, w)
    for v, old in zip((a, b, ba, bb), before):
        for i, (u, w) in enumerate(zip(cells(v), old)):
            c.eq(f"argument unchanged [{i}]", u, w)


@harness("C23", quick=[dict(kind="cov", m=m) for m in (None, "naive", "mergesort", "avl")]
         + [dict(kind="cor", m=None), dict(kind="dist"), dict(kind="energy"),
            dict(kind="partial"), dict(kind="tests"), dict(kind="t"), dict(kind="af")],
         attrs=ATOMS, engine=NRA)
def vector_or_column(c, kind, m=None):
    """A vector and the matrix with that single column are the same sample."""
    x, y = samp(c, "x", 4, 0, ORD4[4]), samp(c, "y", 4, 0, ORD4[3])
    if kind in ("cor", "af", "t"):
        _u(c, x, y)
        f = _v(c, x, y)
        c.guard(f[0] * f[1])
        if kind == "t":
            f = _u(c, x, y)
            c.guard(f[0] * f[1] - f[2] * f[2])
    X, Y = x.reshape(4, 1), y.reshape(4, 1)
    with c.quiet():
        for name, f in calls(c, kind, m).items():
            want = values(f(x, y))
            for how, (u, v) in dict(both=(X, Y), x=(X, y), y=(x, Y)).items():
                if kind in ("partial",) and how != "both":
                    continue
                got = values(f(u, v))
                c.eq(f"{name}: number of values", len(got), len(want))
                for i, (g, w) in enumerate(zip(got, want)):
                    c.eq(f"{name} (column: {how}) [{i}]", g, w)


# ------------------------------------------------------------------ C24
def typed(c, name, order, dt):
    """(array of the given type, the same sample in double precision)."""
    if dt == "frac":
        x = c.sorted_reals(name, order)
        if c.sym:
            v = c.reals(name + "_unused", 1, dtype=object)
            return c.arr.SArr(np.array(cells(x), dtype=object), v.dtype), x
        return np.array([Fraction(float(v)) for v in x], dtype=object), x
    if dt == "float32":
        x = c.sorted_reals(name, order)
        y = c.single(x)
        return y, y.astype(np.float64)
    wide = dict(lo=-2**20, hi=2**20) if dt == "int64" else \
        dict(lo=2**62, hi=2**62 + 2**20) if dt == "uint64!" else \
        dict(lo=0, hi=2**20) if dt == "uint64" else {}
    x = c.sorted_ints(name, order, dt, **wide)
    return x, x.astype(np.float64)


def _cond(c, kind, x, y):
    if kind in ("cor", "af", "t", "row"):
        _u(c, x, y)
        f = _v(c, x, y)
        c.guard(f[0] * f[1])
        if kind == "t":
            f = _u(c, x, y)
            c.guard(f[0] * f[1] - f[2] * f[2])


INTS = ("int8", "uint8", "int64", "uint64")
MS = (None, "naive", "mergesort", "avl")


@harness("C24", quick=[dict(kind="cov", m=m, dt=t) for m in MS for t in INTS + ("frac",)]
         + [dict(kind="cov", m=m, dt=t) for m in MS[:2] for t in
            ("int16", "uint16", "int32", "uint32", "float32")]
         + [dict(kind="cor", m=m, dt=t) for m in MS for t in ("int8", "uint64", "frac")]
         + [dict(kind=k, dt=t) for k in ("dist", "energy", "partial", "tests")
            for t in INTS + ("float32",)]
         + [dict(kind=k, dt="frac") for k in ("dist", "energy")]
         + [dict(kind=k, dt=t) for k in ("t", "row") for t in ("int8", "uint64", "float32")],
         attrs=ATOMS, engine=NRA, jit=True)
def same_as_double(c, kind, dt, m=None, ox=ORD4[2], oy=ORD4[5]):
    """Samples of other numeric types give the result for the same numbers as doubles."""
    (x, fx), (y, fy) = typed(c, "x", ox, dt), typed(c, "y", oy, dt)
    _cond(c, kind, fx, fy)
    tol = None if dt != "float32" or c.sym else 1e-3 * max(
        1.0, max(map(abs, fx)) * max(map(abs, fy)), max(map(abs, fx)), max(map(abs, fy)))
    with c.quiet():
        for name, f in calls(c, kind, m).items():
            want = values(f(fx, fy))
            for how, (u, v) in dict(both=(x, y), x=(x, fy), y=(fx, y)).items():
                if dt == "frac" and how != "both":
                    continue
                got = values(f(u, v))
                c.eq(f"{name}: number of values", len(got), len(want))
                for i, (g, w) in enumerate(zip(got, want)):
                    c.eq(f"{name} ({dt}: {how}) [{i}]", g, w, tol)


@harness("C24", quick=[dict(kind=k, dt=t) for k in ("cov", "dist", "energy")
                       for t in ("int8", "uint8", "int64", "frac", "float32")]
         + [dict(kind="af", dt=t, p=0) for t in ("int8", "uint64", "float32")],
         attrs=ATOMS, engine=NRA, jit=True)
def vectors_same_as_double(c, kind, dt, p=2):
    """The same for samples of vectors (and for the affinely invariant correlation)."""
    if p == 0:
        (x, fx), (y, fy) = typed(c, "x", ORD4[2], dt), typed(c, "y", ORD4[5], dt)
        _cond(c, kind, fx, fy)
    elif dt in ("frac", "float32"):
        fx, fy = c.reals("x", 3, p), c.reals("y", 3, p)
        if dt == "frac":
            if c.sym:
                o = c.reals("unused", 1, dtype=object).dtype
                x, y = (c.arr.SArr(np.asarray(v.view(np.ndarray)), o) for v in (fx, fy))
            else:
                x, y = (np.array([[Fraction(float(w)) for w in r] for r in v], dtype=object)
                        for v in (fx, fy))
        else:
            x, y = c.single(fx), c.single(fy)
            fx, fy = x.astype(np.float64), y.astype(np.float64)
    else:
        w = dict(lo=-2**20, hi=2**20) if dt == "int64" else {}
        x, y = c.ints("x", 3, p, dtype=dt, **w), c.ints("y", 3, p, dtype=dt, **w)
        fx, fy = x.astype(np.float64), y.astype(np.float64)
    tol = None
    if dt == "float32" and not c.sym:
        mx, my = max(map(abs, cells(fx))), max(map(abs, cells(fy)))
        tol = 1e-3 * max(1.0, mx * my, mx * mx, my * my)
    with c.quiet():
        for name, f in calls(c, kind).items():
            if name.startswith("u_"):
                continue
            want = values(f(fx, fy))
            got = values(f(x, y))
            c.eq(f"{name}: number of values", len(got), len(want))
            for i, (g, w) in enumerate(zip(got, want)):
                c.eq(f"{name} ({dt}) [{i}]", g, w, tol)


# ------------------------------------------------------------------ C25
def strict(c, a):
    """The array as an array of the array_api_strict namespace."""
    import array_api_strict as xs
    if c.sym:
        from array_api_strict import _array_object as o
        return o.Array._new(a, device=None)
    return xs.asarray(a)


def numpy_of(v):
    return getattr(v, "_array", v)


@harness("C25", quick=[dict(kind="cov", m=m, p=p, q=q) for m in (None, "naive")
                       for p, q in ((0, 0), (0, 2), (2, 2))]
         + [dict(kind="cor", m=None), dict(kind="dist"), dict(kind="dist", p=2, q=2),
            dict(kind="energy"), dict(kind="energy", p=2, q=2), dict(kind="partial"),
            dict(kind="tests"), dict(kind="t"), dict(kind="row"), dict(kind="af")],
         attrs=ATOMS, engine=NRA)
def array_api(c, kind, m=None, p=0, q=0):
    """Arrays of another array library give the results of the same NumPy arrays."""
    n = 3 if p or q else 4
    x = samp(c, "x", n, p, None if p or q else ORD4[2])
    y = samp(c, "y", n, q, None if p or q else ORD4[5])
    _cond(c, kind, x, y)
    with c.quiet():
        for name, f in calls(c, kind, m).items():
            if n < 4 and name.startswith("u_"):
                continue
            want = values(f(x, y))
            r = f(strict(c, x), strict(c, y))
            if kind in ("cov", "dist", "energy") and not hasattr(r, "pvalue"):
                c.true(f"{name}: same kind of array", hasattr(r, "_array"))
            got = [numpy_of(v) for v in values(numpy_of(r))]
            c.eq(f"{name}: number of values", len(got), len(want))
            for i, (g, w) in enumerate(zip(got, want)):
                c.eq(f"{name} [{i}]", g, w)


def sym_matrix(c, name, n):
    M = [[c.const(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            M[i][j] = M[j][i] = c.real(f"{name}{i}{j}")
    return M


@harness("C25", quick=[dict(f=f, n=4) for f in MATS] + [dict(f="double_centered", n=3)],
         thorough=[dict(f=f, n=6) for f in MATS])
def array_api_matrices(c, f, n):
    A, B = sym_matrix(c, "a", n), sym_matrix(c, "b", n)
    if "projection" in f:
        c.assume(ref.total(A[i][j] * A[i][j] for i in range(n) for j in range(n)) > 1)
    a, b = c.array(A), c.array(B)
    d = c.dcor
    want = values(MATS[f](d, a, b))
    r = MATS[f](d, strict(c, a), strict(c, b))
    c.true("same kind of array", hasattr(r, "_array"))
    got = values(numpy_of(r))
    c.eq("number of values", len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        c.eq(f"{f} [{i}]", g, w)


@harness("C25", quick=[dict(kind="cov", e=e) for e in (0.5, 1.5)]
         + [dict(kind="cov", col=True), dict(kind="cor", col=True), dict(kind="energy", col=True),
            dict(kind="dist", col=True), dict(kind="partial", col=True),
            dict(kind="energy", e=1.5)],
         attrs=ATOMS, engine=NRA)
def array_api_options(c, kind, e=1, col=False):
    """The same with exponents, and with single-column matrices."""
    x, y = samp(c, "x", 4, 1 if col else 0, ORD4[5]), samp(c, "y", 4, 0, ORD4[3])
    _cond(c, kind, x, y)
    d = c.dcor
    fs = calls(c, kind)
    if e != 1 and kind == "cov":
        fs = {f: (lambda x, y, f=f: getattr(d, f)(x, y, exponent=e)) for f in COV}
    elif e != 1:
        fs = {"energy": lambda x, y: d.energy_distance(x, y, exponent=e)}
    with c.quiet():
        for name, f in fs.items():
            want = values(f(x, y))
            got = [numpy_of(v) for v in values(numpy_of(f(strict(c, x), strict(c, y))))]
            c.eq(f"{name}: number of values", len(got), len(want))
            for i, (g, w) in enumerate(zip(got, want)):
                c.eq(f"{name} [{i}]", g, w)


# ------------------------------------------------------------------ C26
SIZES = ((4, 5), (5, 4), (4, 1), (1, 4), (3, 2))
ALL = COV + COR + ("distance_correlation_af_inv_sqr", "distance_correlation_af_inv")


@harness("C26", quick=[dict(m=m, a=a, b=b) for m in MS for a, b in SIZES], attrs=ATOMS,
         engine=NRA, jit=True)
def different_sizes(c, m, a, b):
    """Samples of different size are refused by every function and method."""
    d = c.dcor
    x, y = samp(c, "x", a, 0, list(range(a))), samp(c, "y", b, 0, list(range(b))[::-1])
    kw = {} if m is None else dict(method=m)
    for f in ALL if min(a, b) > 1 else ALL[:-2]:
        c.raises(f"{f} {m} {a} {b}", Exception, lambda: getattr(d, f)(x, y, **kw))
        if m == "naive":
            c.raises(f"{f} {m} {a} {b} exponent", Exception,
                     lambda: getattr(d, f)(x, y, exponent=1.5))


@harness("C26", quick=[dict(a=a, b=b, p=p) for a, b in SIZES for p in (0, 2)], attrs=ATOMS,
         engine=NRA, jit=True)
def different_sizes_tests(c, a, b, p):
    d = c.dcor
    x, y = samp(c, "x", a, p), samp(c, "y", b, p)
    I = d.independence
    for nm, f in (("dcov test", I.distance_covariance_test),
                  ("t test", lambda u, v, **k: I.distance_correlation_t_test(u, v)),
                  ("t statistic", lambda u, v, **k: I.distance_correlation_t_statistic(u, v))):
        c.raises(f"{nm} {a} {b}", Exception,
                 lambda: f(x, y, num_resamples=1, random_state=c.rng()))
    for nm, f in (("pdcov", d.partial_distance_covariance),
                  ("pdcor", d.partial_distance_correlation),
                  ("pdcov test", lambda *s: I.partial_distance_covariance_test(
                      *s, num_resamples=1, random_state=c.rng()))):
        for how, s in (("x y x", (x, y, x)), ("x x y", (x, x, y)), ("y x x", (y, x, x))):
            c.raises(f"{nm} {how} {a} {b}", Exception, lambda: f(*s))


@harness("C26", quick=[dict(p=1, q=2), dict(p=2, q=1), dict(p=0, q=2), dict(p=2, q=3)],
         attrs=ATOMS, engine=NRA, jit=True)
def different_dimensions(c, p, q):
    """Distances between points of different dimension are refused."""
    d = c.dcor
    x, y = samp(c, "x", 3, p), samp(c, "y", 3, q)
    S = d.EstimationStatistic
    H = d.homogeneity
    for nm, f in (("pairwise_distances", d.distances.pairwise_distances),
                  ("pairwise_distances (exponent)",
                   lambda u, v: d.distances.pairwise_distances(u, v, exponent=1.5)),
                  ("energy_distance", d.energy_distance),
                  ("energy_distance U", lambda u, v: d.energy_distance(
                      u, v, estimation_stat=S.U_STATISTIC)),
                  ("energy_test_statistic", H.energy_test_statistic),
                  ("energy_test", lambda u, v: H.energy_test(
                      u, v, num_resamples=1, random_state=c.rng()))):
        c.raises(f"{nm} {p} {q}", Exception, lambda: f(x, y))


@harness("C26", quick=[dict(m="avl"), dict(m="mergesort")], attrs=ATOMS, engine=NRA, jit=True)
def fast_methods_refuse(c, m):
    """The fast methods refuse exponents other than 1, vectors and other arrays."""
    d = c.dcor
    x, y = samp(c, "x", 4, 0, ORD4[2]), samp(c, "y", 4, 0, ORD4[5])
    e = c.real("e")
    c.assume(e > 0)
    c.assume(e < 3)
    c.assume((e - 1) * (e - 1) > c.const(Fraction(1, 10**6)))
    for f in COV + COR:
        fn = getattr(d, f)
        c.raises(f"{f}: exponent", ValueError, lambda: fn(x, y, exponent=e, method=m))
    v = samp(c, "v", 4, 2)
    for f in ALL[:-2]:
        fn = getattr(d, f)
        for s in ((v, y), (x, v), (v, v)):
            c.raises(f"{f}: vectors", Exception, lambda: fn(*s, method=m))
        c.raises(f"{f}: other array", Exception,
                 lambda: fn(strict(c, x), strict(c, y), method=m))


@harness("C26", quick=[dict(m=m) for m in MS], attrs=ATOMS, engine=NRA, jit=True)
def unsupported_modes(c, m):
    """Compile modes that a method does not have are refused, not ignored."""
    d = c.dcor
    C = d.CompileMode
    x, y = samp(c, "x", 4, 0, ORD4[2]), samp(c, "y", 4, 0, ORD4[5])
    v = samp(c, "v", 4, 2)
    kw = {} if m is None else dict(method=m)
    for f in ALL:
        fn = getattr(d, f)
        c.raises(f"{f}: parallel", NotImplementedError,
                 lambda: fn(x, y, compile_mode=C.COMPILE_PARALLEL, **kw))
        if m == "naive":
            c.raises(f"{f}: cpu", NotImplementedError,
                     lambda: fn(x, y, compile_mode=C.COMPILE_CPU, **kw))
        if m in (None, "naive"):
            c.raises(f"{f}: cpu vectors", NotImplementedError,
                     lambda: fn(v, v, compile_mode=C.COMPILE_CPU, **kw))
        c.raises(f"{f}: unknown method", Exception, lambda: fn(x, y, method="fastest"))
    R = d.RowwiseMode.OPTIMIZED
    for nm, f in (("energy", d.energy_distance), ("stats", d.distance_stats),
                  ("af inv", d.distance_correlation_af_inv)):
        c.raises(f"rowwise {nm}", NotImplementedError,
                 lambda: d.rowwise(f, [x, y], [y, x], rowwise_mode=R))
    for f in FUNS6:
        fn = getattr(d, f)
        c.raises(f"rowwise {f} vectors", NotImplementedError,
                 lambda: d.rowwise(fn, [v, v], [v, v], rowwise_mode=R))
        c.raises(f"rowwise {f} naive", NotImplementedError,
                 lambda: d.rowwise(fn, [x, y], [y, x], rowwise_mode=R, method="naive"))
    c.raises("estimation statistic", Exception,
             lambda: d.energy_distance(x, y, estimation_stat="w_statistic"))


FUNS6 = ("distance_covariance_sqr", "u_distance_covariance_sqr", "distance_covariance",
         "distance_correlation_sqr", "u_distance_correlation_sqr", "distance_correlation")


@harness("C26", quick=[dict(which=w, p=p) for w in ("dcov", "dcor", "energy", "test") for p in
                       (0, 2)], attrs=ATOMS, engine=NRA)
def exponent_warning(c, which, p):
    """A warning is given exactly for exponents outside (0, 2)."""
    d = c.dcor
    x, y = samp(c, "x", 3, p), samp(c, "y", 3, p)
    e = c.real("e")
    c.assume(e >= c.const(Fraction(1, 10)))
    c.assume(e <= 4)
    f = {"dcov": lambda: d.distance_covariance_sqr(x, y, exponent=e),
         "dcor": lambda: d.distance_stats_sqr(x, y, exponent=e),
         "energy": lambda: d.energy_distance(x, y, exponent=e),
         "test": lambda: d.independence.distance_covariance_test(
             x, y, exponent=e, num_resamples=0, random_state=c.rng())}[which]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        f()
    warned = any("exponent" in str(v.message) for v in w)
    c.true(f"{which}: warns iff outside", warned == bool(e >= 2))


@harness("C26", quick=[dict(which=w, p=p) for w in ("dcov", "dcor", "energy") for p in (0, 2)],
         attrs=ATOMS, engine=NRA)
def exponent_warning_low(c, which, p):
    """The same for exponents that are not positive."""
    d = c.dcor
    x, y = samp(c, "x", 3, p), samp(c, "y", 3, p)
    e = c.real("e")
    c.assume(e <= 0)
    c.assume(e >= -2)
    f = {"dcov": lambda: d.distance_covariance_sqr(x, y, exponent=e),
         "dcor": lambda: d.distance_stats_sqr(x, y, exponent=e),
         "energy": lambda: d.energy_distance(x, y, exponent=e)}[which]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        warnings.filterwarnings("error", message=".*exponent")
        try:
            f()
            warned = False
        except UserWarning:
            warned = True
    c.true(f"{which}: warns", warned)
