"""C21 rowwise computation, C22 affinely invariant correlation."""
from __future__ import annotations

from fractions import Fraction

import numpy as np

from symx import ref
from . import harness
from ._h import samp
from .dcov import ATOMS, ORD4, ORD5, exps
from .corr import NRA, _lemmas, _u, _v

FUNS = ("distance_covariance_sqr", "u_distance_covariance_sqr", "distance_covariance",
        "distance_correlation_sqr", "u_distance_correlation_sqr", "distance_correlation")


def rows(c, name, orders, p=0):
    return [samp(c, f"{name}{i}", len(o), p, o) for i, o in enumerate(orders)]


def stack(c, rs, how):
    """A list of samples, or one array with a leading axis."""
    if how == "list":
        return rs
    cells = [[v for v in np.asarray(r, dtype=object).reshape(-1)] if not c.sym else
             [r.reshape(-1)[k] for k in range(r.reshape(-1).shape[0])] for r in rs]
    a = c.array(cells)
    return a if how == "array" else a.reshape(len(rs), len(cells[0]), 1)


def want_of(c, f, xs, ys, e=1):
    """Expected value per row, from the definitions (squares for the roots)."""
    out = []
    for x, y in zip(xs, ys):
        a, b = ref.dmat(c, x, None, e), ref.dmat(c, y, None, e)
        if "covariance" in f:
            out.append(ref.udcov2(a, b) if f[0] == "u" else ref.dcov2(a, b))
        else:
            va, vb, cov = (_u if f[0] == "u" else _v)(c, x, y, e)[:3]
            out.append(ref.corr2(c, cov, va, vb))
    return out


def check(c, label, got, want, root):
    c.eq(f"{label}: length", got.shape[0], len(want))
    for i, w in enumerate(want):
        v = got[i]
        c.eq(f"{label}: row {i}", v * v if root else v, c.max0(w) if root else w)


O2 = [ORD4[2], ORD4[5]]
P2 = [ORD4[3], ORD4[6]]


# ------------------------------------------------------------------ C21
@harness("C21", quick=[dict(f=f, mode=m, how=h) for i, f in enumerate(FUNS)
                       for m, h in (("AUTO", "list"), ("OPTIMIZED", "array"),
                                    ("AUTO", "column"), ("NAIVE", "array"))]
         + [dict(f=f, mode="AUTO", how="array", ox=[ORD5[2], ORD5[4]], oy=[ORD5[3], ORD5[1]])
            for f in FUNS[:2]]
         + [dict(f=f, mode="AUTO", how="list", ox=[ORD5[0]], oy=[ORD5[3]]) for f in FUNS[3:5]]
         + [dict(f=f, mode="AUTO", how="mixed") for f in (FUNS[0], FUNS[3], FUNS[5])],
         thorough=[dict(f=f, mode="AUTO", how="array", ox=[ORD4[a], ORD4[b], ORD4[0]],
                        oy=[ORD4[b], ORD4[k], ORD4[a]])
                   for f in FUNS[:2] for a in range(0, 8, 2) for b in range(1, 8, 3)
                   for k in (2, 5)],
         attrs=ATOMS, engine=NRA, jit=True)
def rowwise_is_elementwise(c, f, mode, how, ox=O2, oy=P2):
    """Entry i is the function of x[i] and y[i], in every mode and input layout."""
    xs, ys = rows(c, "x", ox), rows(c, "y", oy)
    d = c.dcor
    fn = getattr(d, f)
    want = want_of(c, f, xs, ys)
    hx, hy = ("column", "array") if how == "mixed" else (how, how)
    got = d.rowwise(fn, stack(c, xs, hx), stack(c, ys, hy),
                    rowwise_mode=getattr(d.RowwiseMode, mode))
    check(c, f, got, want, f in ("distance_covariance", "distance_correlation"))


@harness("C21", quick=[dict(f=f, mode=m) for f in FUNS for m in ("AUTO", "NAIVE")],
         exact=True, engine=NRA, attrs=ATOMS, jit=True)
def rowwise_degenerate(c, f, mode):
    """A constant element does not disturb its own or the other entries."""
    d = c.dcor
    k = c.integer("k", 1, 60) / 10
    y = c.array([[c.integer(f"y{i}", 0, 3) for i in range(4)],
                 [c.const(v) for v in (3, 1, 2, 2)]])
    x = c.array([[k] * 4, [c.const(v) for v in (0, 1, 3, 4)]])
    fn = getattr(d, f)
    if c.sym:
        for i in range(2):
            _v(c, x[i], y[i])
            _u(c, x[i], y[i])
    got = d.rowwise(fn, x, y, rowwise_mode=getattr(d.RowwiseMode, mode))
    c.eq("constant element", got[0], 0)
    other = d.rowwise(fn, x[1:], y[1:], rowwise_mode=getattr(d.RowwiseMode, mode))
    c.eq("other entries", got[1], other[0])


@harness("C21", quick=[
    dict(f="distance_covariance_sqr", n=3), dict(f="distance_correlation_sqr", n=2),
    dict(f="distance_covariance_sqr", n=3, p=2), dict(f="u_distance_covariance_sqr", n=4, p=2),
    dict(f="distance_covariance_sqr", n=4, e=1.5), dict(f="distance_covariance", n=2, e=0.5),
    dict(f="energy_distance", n=3), dict(f="energy_distance", n=2, p=2),
    dict(f="custom", n=3)],
    thorough=[dict(f="distance_covariance_sqr", n=5, p=2)], attrs=ATOMS, engine=NRA)
def rowwise_generic(c, f, n, p=0, e=1):
    """Vectors, other exponents and functions with no optimized version."""
    d = c.dcor
    xs = [samp(c, f"x{i}", n, p) for i in range(2)]
    ys = [samp(c, f"y{i}", n, p) for i in range(2)]
    if f == "custom":
        def fn(u, v, w=1):
            return (u * v).sum() * w
        got = d.rowwise(fn, xs, ys, w=3)
        want = [3 * ref.total(x[i] * y[i] for i in range(n)) for x, y in zip(xs, ys)]
        return check(c, f, got, want, False)
    fn = getattr(d, f)
    if f == "energy_distance":
        want = [ref.energy(c, x, y) for x, y in zip(xs, ys)]
    else:
        want = want_of(c, f, xs, ys, e)
    root = f in ("distance_covariance", "distance_correlation")
    check(c, f, d.rowwise(fn, xs, ys, **exps(e)), want, root)
    if p == 0 or f == "energy_distance" or e != 1:
        # also as keyword of a one-array input
        if p == 0:
            got = d.rowwise(fn, stack(c, xs, "array"), stack(c, ys, "array"), **exps(e))
            check(c, f + " (array)", got, want, root)
    c.raises("no optimized version", NotImplementedError, lambda: d.rowwise(
        fn, xs, ys, rowwise_mode=d.RowwiseMode.OPTIMIZED, **exps(e)))


@harness("C21", quick=[dict(m=m, cm=cm) for m in ("AUTO", "AVL", "MERGESORT", "NAIVE", "avl")
                       for cm in ("AUTO", "COMPILE_CPU", "NO_COMPILE")
                       if not (m == "NAIVE" and cm == "COMPILE_CPU")]
         + [dict(m="AUTO", cm="COMPILE_PARALLEL", mode="OPTIMIZED"),
            dict(m="AVL", cm="COMPILE_PARALLEL", mode="OPTIMIZED")], jit=True)
def rowwise_options(c, m, cm, mode="AUTO"):
    """method and compile_mode are honoured and do not change the values."""
    xs, ys = rows(c, "x", O2), rows(c, "y", P2)
    d = c.dcor
    me = m if m.islower() else getattr(d.DistanceCovarianceMethod, m)
    kw = dict(method=me, compile_mode=getattr(d.CompileMode, cm),
              rowwise_mode=getattr(d.RowwiseMode, mode))
    for f in FUNS[:2]:
        check(c, f, d.rowwise(getattr(d, f), xs, ys, **kw), want_of(c, f, xs, ys), False)


@harness("C21", quick=[dict(f=f) for f in (FUNS[0], FUNS[1])] + [dict(f=FUNS[3])],
         attrs=ATOMS, engine=NRA, jit=True)
def rowwise_lengths(c, f):
    """Elements with different numbers of observations."""
    d = c.dcor
    xs, ys = rows(c, "x", [ORD4[2], ORD5[3]]), rows(c, "y", [ORD4[3], ORD5[2]])
    check(c, f, d.rowwise(getattr(d, f), xs, ys), want_of(c, f, xs, ys), False)


# ------------------------------------------------------------------ C22
def _corr_of(c, a, b, pos=""):
    """Squared distance correlation of two distance matrices, by the definition.

    pos: matrices of fixed numbers, whose variance is known to be positive."""
    n = len(a)
    va, vb, cov = _lemmas(c, ref.dcenter(a), ref.dcenter(b), n * n)[:3]
    if "a" in pos:
        c.assume(va > 0)
    if "b" in pos:
        c.assume(vb > 0)
    return ref.corr2(c, cov, va, vb)


def _af(c, x, y, want, methods=("auto",), root=True):
    d = c.dcor
    for m in methods:
        kw = {} if m == "auto" else dict(method=m)
        c.eq(f"af_inv^2 {m}", d.distance_correlation_af_inv_sqr(x, y, **kw), want)
    if root:
        r = d.distance_correlation_af_inv(x, y)
        c.eq("af_inv root", r * r, want)


@harness("C22", quick=[dict(ox=ORD4[2], oy=ORD4[3]), dict(ox=ORD4[4], oy=ORD4[1]),
                       dict(ox=[0, 1, 1], oy=[1, 2, 0]), dict(ox=[0, 1], oy=[1, 0])],
         thorough=[dict(ox=ORD5[2], oy=ORD5[4])], attrs=ATOMS, engine=NRA)
def af_inv_variables(c, ox, oy):
    """One-dimensional samples: scaling removes nothing, so it is the distance
    correlation itself."""
    x, y = samp(c, "x", len(ox), 0, ox), samp(c, "y", len(oy), 0, oy)
    want = _corr_of(c, ref.dmat(c, x), ref.dmat(c, y))
    _af(c, x, y, want, ("auto", "naive") if len(ox) < 4 else ("auto", "naive", "mergesort"))
    _af(c, x.reshape(len(ox), 1), y, want)


@harness("C22", quick=[dict(side=s, n=n) for s in (0, 1) for n in (3, 4)], exact=True,
         attrs=ATOMS, engine=NRA)
def af_inv_constant(c, side, n):
    """A constant variable has correlation 0."""
    k = c.integer("k", 1, 60) / 10
    x = c.array([k] * n)
    y = c.array([c.const(v) for v in (0, 1, 3, 7)[:n]])
    a, b = (x, y) if side == 0 else (y, x)
    c.eq("af_inv^2", c.dcor.distance_correlation_af_inv_sqr(a, b), 0)
    c.eq("af_inv", c.dcor.distance_correlation_af_inv(a, b), 0)


# Designs with mean 0 and covariance k^2 I (n = 5).
ZS = [(1, [(1, 1), (1, -1), (-1, 1), (-1, -1), (0, 0)]),
      (4, [(-6, 2), (-1, -5), (1, -3), (1, 5), (5, 1)]),
      (3, [(-3, 3), (-1, -5), (-1, 1), (0, 0), (5, 1)])]


def _affine(c, name, zi, swap=False):
    """Z R1 diag(a, b) R2 + t: every affine image of the design Z."""
    k, Z = ZS[zi]
    a, b = c.real(name + "_a"), c.real(name + "_b")
    c.assume(a > 0)
    c.assume(b > 0)
    c.guard(a, 1e-2)
    c.guard(b, 1e-2)
    c1, s1 = c.rotation(name + "_r")
    c2, s2 = c.rotation(name + "_q")
    t, u = c.real(name + "_t"), c.real(name + "_u")
    out = []
    for p, q in Z:
        v, w = (p * c1 + q * s1) * a, (q * c1 - p * s1) * b
        out.append([v * c2 - w * s2 + t, v * s2 + w * c2 + u])
    c.eigh_hint(a * k, b * k, c2, s2)
    dz = ref.dmat(c, np.array(Z, dtype=float) if not c.sym else c.array(
        [[c.const(p), c.const(q)] for p, q in Z]))
    return c.array(out), dz


@harness("C22", quick=[dict(zi=0, oy=ORD5[2]), dict(zi=1, oy=ORD5[4]),
                       dict(zi=2, oy=ORD5[3])],
         thorough=[dict(zi=1, oy=o) for o in (ORD5[1], ORD5[3])], attrs=dict(ATOMS, reduced_signs=True), engine=NRA)
def af_inv_plane(c, zi, oy):
    """Samples in the plane: the distance correlation of the Mahalanobis distances,
    the same for every affine image."""
    x, dz = _affine(c, "x", zi)
    y = samp(c, "y", 5, 0, oy)
    want = _corr_of(c, dz, ref.dmat(c, y), "a")
    if c.choose(2):
        x, y = y, x
    _af(c, x, y, want, root=zi == 0)


@harness("C22", quick=[dict(zi=0, zj=1), dict(zi=2, zj=0)], attrs=dict(ATOMS, reduced_signs=True), engine=NRA)
def af_inv_planes(c, zi, zj):
    """Both samples in the plane."""
    x, dx = _affine(c, "x", zi)
    k, Z = ZS[zj]
    m, t = c.real("m"), c.real("t")
    c.assume(m > 0)
    c.guard(m, 1e-2)
    y = c.array([[p * m + t, q * m - t] for p, q in Z])
    c.eigh_hint(m * k, m * k, c.const(1), c.const(0))
    dy = ref.dmat(c, c.array([[c.const(p), c.const(q)] for p, q in Z]))
    _af(c, x, y, _corr_of(c, dx, dy, "ab"), root=False)
