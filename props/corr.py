"""C05 correlation, C06 bounds, C07 symmetry, C08 invariance."""
from __future__ import annotations

from symx import ref
from . import harness
from ._h import samp, some_orders, weak_orders
from .dcov import ATOMS, ORD4, ORD5, exps, pairs

NRA = dict(branch_ms=300)


def _lemmas(c, ca, cb, scale):
    """Cauchy-Schwarz facts about two centered matrices, proved by identities."""
    up_a, up_b = ref.upper(ca), ref.upper(cb)
    ms = [w for w, _ in up_a]
    A, B = [v for _, v in up_a], [v for _, v in up_b]
    va = ref.total(w * v * v for w, v in up_a) / scale
    vb = ref.total(w * v * v for w, v in up_b) / scale
    k = c.const(1) / scale
    c.nonneg(va, [(w * k, v) for w, v in up_a])
    c.nonneg(vb, [(w * k, v) for w, v in up_b])
    c.nonneg(va * vb)
    cov = ref.total(w * u * v for w, u, v in zip(ms, A, B)) / scale
    return va, vb, cov, ms, A, B, k


def _cs(c, va, vb, cov, ms, A, B, k):
    c.nonneg(va * vb - cov * cov, [(w * k * k, t) for w, t in ref.lagrange(ms, A, B)])


def _v(c, x, y, e=1):
    a, b = ref.dmat(c, x, None, e), ref.dmat(c, y, None, e)
    n = len(a)
    return _lemmas(c, ref.dcenter(a), ref.dcenter(b), n * n)


def _u(c, x, y, e=1):
    a, b = ref.dmat(c, x, None, e), ref.dmat(c, y, None, e)
    n = len(a)
    return _lemmas(c, ref.ucenter(a), ref.ucenter(b), n * (n - 3))


# ------------------------------------------------------------------ C05
@harness("C05", quick=[
    dict(n=2, ox="any", oy="any"), dict(n=3, ox="any", oy=[0, 2, 1]),
    dict(n=4, ox=ORD4[2], oy=ORD4[3]), dict(n=4, ox=ORD4[4], oy=ORD4[1]),
    dict(n=5, ox=ORD5[2], oy=ORD5[4]), dict(n=3, p=2, q=0), dict(n=3, p=2, q=2, e=1.5),
    dict(n=4, p=2, q=2), dict(n=3, e=0.5)],
    thorough=[dict(n=4, ox=o, oy="any") for o in weak_orders(4)[::6]]
    + [dict(n=5, p=2, q=2)], attrs=ATOMS, engine=NRA)
def dcor_is_definition(c, n, ox=None, oy=None, p=0, q=0, e=1):
    x, y = samp(c, "x", n, p, ox), samp(c, "y", n, q, oy)
    d = c.dcor
    va, vb, cov = _v(c, x, y, e)[:3]
    want = ref.corr2(c, cov, va, vb)
    got = d.distance_correlation_sqr(x, y, **exps(e))
    c.eq("dcor^2", got, want)
    s = d.distance_stats_sqr(x, y, **exps(e))
    c.eq("stats_sqr.correlation", s.correlation_xy, want)
    c.eq("stats_sqr.covariance", s.covariance_xy, cov)
    c.eq("stats_sqr.variance_x", s.variance_x, va)
    c.eq("stats_sqr.variance_y", s.variance_y, vb)
    g = d.distance_correlation_sqr(x, y, method="naive", **exps(e))
    c.eq("dcor^2 naive", g, want)


@harness("C05", quick=[
    dict(n=2, ox="any", oy="any"), dict(n=3, ox="any", oy=[0, 2, 1]),
    dict(n=4, ox=ORD4[2], oy=ORD4[3]), dict(n=3, p=2, q=0)],
    thorough=[dict(n=4, ox=o, oy=p) for o in ORD4 for p in ORD4[:4]],
    attrs=ATOMS, engine=NRA)
def dcor_roots(c, n, ox=None, oy=None, p=0, q=0, e=1):
    x, y = samp(c, "x", n, p, ox), samp(c, "y", n, q, oy)
    d = c.dcor
    va, vb, cov = _v(c, x, y, e)[:3]
    want = ref.corr2(c, cov, va, vb)
    r = d.distance_correlation(x, y)
    c.eq("dcor * dcor", r * r, want)
    s = d.distance_stats(x, y)
    c.eq("stats.correlation", s.correlation_xy, r)
    c.eq("stats.variance_x squared", s.variance_x * s.variance_x, va)
    c.eq("stats.variance_y squared", s.variance_y * s.variance_y, vb)
    c.eq("stats.covariance squared", s.covariance_xy * s.covariance_xy, cov)
    t = list(s)
    c.eq("stats iterates cov", t[0], s.covariance_xy)
    c.eq("stats iterates cor", t[1], s.correlation_xy)
    c.eq("stats iterates var x", t[2], s.variance_x)
    c.eq("stats iterates var y", t[3], s.variance_y)


@harness("C05", quick=[
    dict(n=4, ox=ORD4[2], oy=ORD4[3]), dict(n=4, ox=ORD4[4], oy=ORD4[0]),
    dict(n=4, ox=ORD4[5], oy=ORD4[6]), dict(n=5, ox=ORD5[2], oy=ORD5[3]),
    dict(n=4, p=2, q=0), dict(n=4, p=2, q=2)],
    thorough=[dict(n=4, ox=o, oy=p) for o in ORD4 for p in ORD4]
    + [dict(n=5, p=2, q=2), dict(n=4, p=2, q=2, e=1.5)], attrs=ATOMS, engine=NRA)
def u_dcor_is_definition(c, n, ox=None, oy=None, p=0, q=0, e=1):
    x, y = samp(c, "x", n, p, ox), samp(c, "y", n, q, oy)
    d = c.dcor
    va, vb, cov = _u(c, x, y, e)[:3]
    want = ref.corr2(c, cov, va, vb)
    c.eq("u-dcor^2", d.u_distance_correlation_sqr(x, y, **exps(e)), want)
    s = d.u_distance_stats_sqr(x, y, **exps(e))
    c.eq("u-stats.correlation", s.correlation_xy, want)
    c.eq("u-stats.covariance", s.covariance_xy, cov)
    c.eq("u-stats.variance_x", s.variance_x, va)
    c.eq("u-stats.variance_y", s.variance_y, vb)


@harness("C05", quick=[dict(n=n, m=m, side=s) for n in (2, 4, 5)
                       for m in ("naive", "avl", "mergesort", "auto")
                       for s in ("x", "y", "xy") if n > 3 or m in ("naive", "auto")],
         exact=True, attrs=ATOMS, engine=NRA, jit=True)
def degenerate_is_zero(c, n, m, side):
    """A constant sample gives correlation 0 (not NaN), in every method."""
    d = c.dcor
    k = c.integer("k", 1, 60) / 10      # mean not exact in floats
    x = c.array([k] * n) if "x" in side else c.array([c.integer(f"x{i}") for i in range(n)])
    k2 = c.integer("k2", 1, 60) / 7
    y = c.array([k2] * n) if "y" in side else c.array([c.integer(f"y{i}") for i in range(n)])
    c.eq("dcor^2", d.distance_correlation_sqr(x, y, method=m), 0)
    c.eq("dcor", d.distance_correlation(x, y, method=m), 0)
    s = d.distance_stats_sqr(x, y, method=m)
    c.eq("stats dcor^2", s.correlation_xy, 0)
    c.eq("stats dcov^2", s.covariance_xy, 0)
    if n > 3:
        c.eq("u-dcor^2", d.u_distance_correlation_sqr(x, y, method=m), 0)
        c.eq("u-dcov^2", d.u_distance_covariance_sqr(x, y, method=m), 0)


# ------------------------------------------------------------------ C06
@harness("C06", quick=[
    dict(n=2, ox="any", oy="any"), dict(n=3, ox="any", oy="any"),
    dict(n=4, ox=ORD4[0], oy="any"), dict(n=4, ox=ORD4[3], oy="any"),
    dict(n=5, ox=ORD5[2], oy=ORD5[3]), dict(n=6, ox=[3, 1, 4, 0, 5, 2], oy=[0, 2, 2, 1, 4, 3])],
    thorough=[dict(n=4, ox=o, oy="any") for o in weak_orders(4)]
    + [dict(n=5, ox=o, oy=p) for o in ORD5 for p in ORD5]
    + pairs(7, 4) + pairs(8, 3))
def dcov_nonneg(c, n, ox, oy):
    """dcov^2 and distance variances of one-dimensional samples are >= 0."""
    x, y = samp(c, "x", n, 0, ox), samp(c, "y", n, 0, oy)
    d = c.dcor
    for m in (("auto", "naive", "avl", "mergesort") if n > 3 else ("auto", "naive")):
        c.le(f"0 <= dcov^2 {m}", 0, d.distance_covariance_sqr(x, y, method=m))
    s = d.distance_stats_sqr(x, y)
    c.le("0 <= dvar x", 0, s.variance_x)
    c.le("0 <= dvar y", 0, s.variance_y)
    c.le("0 <= dcor^2", 0, s.correlation_xy)


@harness("C06", quick=[
    dict(n=2, ox="any", oy="any"), dict(n=3, ox="any", oy=[0, 2, 1]),
    dict(n=4, ox=ORD4[2], oy=ORD4[3]), dict(n=4, ox=ORD4[4], oy=ORD4[0]),
    dict(n=3, p=2, q=0), dict(n=3, p=2, q=2), dict(n=4, p=2, q=0)],
    thorough=[dict(n=4, ox=o, oy=p) for o in ORD4 for p in ORD4]
    + [dict(n=5, ox=o, oy=p) for o in ORD5[:3] for p in ORD5[3:]]
    + [dict(n=4, p=2, q=2), dict(n=3, p=2, q=2, e=1.5)], attrs=ATOMS, engine=NRA)
def dcor_at_most_one(c, n, ox=None, oy=None, p=0, q=0, e=1):
    """|dcor^2| <= 1 for samples of any dimension."""
    x, y = samp(c, "x", n, p, ox), samp(c, "y", n, q, oy)
    d = c.dcor
    f = _v(c, x, y, e)
    _cs(c, *f)
    r = d.distance_correlation_sqr(x, y, **exps(e))
    c.le("dcor^4 <= 1", r * r, 1)
    g = d.distance_correlation_sqr(x, x, **exps(e))
    if bool(c.guard(f[0]) == 0):
        c.eq("dcor^2(x, x)", g, 0)
    else:
        c.eq("dcor^2(x, x)", g, 1)


@harness("C06", quick=[
    dict(n=4, ox=ORD4[2], oy=ORD4[3]), dict(n=4, ox=ORD4[4], oy=ORD4[0]),
    dict(n=5, ox=ORD5[2], oy=ORD5[3]), dict(n=4, p=2, q=0)],
    thorough=[dict(n=4, ox=o, oy=p) for o in ORD4 for p in ORD4]
    + [dict(n=5, ox=o, oy=p) for o in ORD5[:3] for p in ORD5[3:]]
    + [dict(n=4, p=2, q=2)], attrs=ATOMS, engine=NRA)
def u_dcor_bounds(c, n, ox=None, oy=None, p=0, q=0, e=1):
    x, y = samp(c, "x", n, p, ox), samp(c, "y", n, q, oy)
    d = c.dcor
    f = _u(c, x, y, e)
    _cs(c, *f)
    r = d.u_distance_correlation_sqr(x, y, **exps(e))
    c.le("u-dcor^4 <= 1", r * r, 1)
    s = d.u_distance_stats_sqr(x, y, **exps(e))
    c.le("0 <= u-dvar x", 0, s.variance_x)
    c.le("0 <= u-dvar y", 0, s.variance_y)
    g = d.u_distance_correlation_sqr(x, x, **exps(e))
    if bool(c.guard(f[0]) == 0):
        c.eq("u-dcor^2(x, x)", g, 0)
    else:
        c.eq("u-dcor^2(x, x)", g, 1)


# ------------------------------------------------------------------ C07
def _perm(x, p):
    return x[list(p)]


@harness("C07", quick=[
    dict(n=4, ox=ORD4[2], oy="any"), dict(n=4, ox=ORD4[5], oy="any"),
    dict(n=5, ox=ORD5[2], oy=ORD5[3]), dict(n=5, ox=ORD5[4], oy=ORD5[1]),
    dict(n=6, ox=[3, 1, 4, 0, 5, 2], oy=[0, 2, 2, 1, 4, 3]),
    dict(n=9, ox=[3, 1, 4, 0, 5, 2, 8, 7, 6], oy=[0, 2, 2, 1, 4, 3, 6, 5, 5])],
    thorough=[dict(n=4, ox=o, oy="any") for o in weak_orders(4)]
    + [dict(n=5, ox=o, oy=p) for o in ORD5 for p in ORD5] + pairs(17, 2))
def fast_symmetric(c, n, ox, oy):
    x, y = samp(c, "x", n, 0, ox), samp(c, "y", n, 0, oy)
    d = c.dcor
    for m in ("avl", "mergesort", "auto"):
        c.eq(f"dcov^2(x,y) = dcov^2(y,x) {m}", d.distance_covariance_sqr(x, y, method=m),
             d.distance_covariance_sqr(y, x, method=m))
        c.eq(f"u-dcov^2 symmetric {m}", d.u_distance_covariance_sqr(x, y, method=m),
             d.u_distance_covariance_sqr(y, x, method=m))


@harness("C07", quick=[
    dict(n=4, ox=ORD4[2], oy=ORD4[3]), dict(n=4, ox=ORD4[5], oy=ORD4[6]),
    dict(n=5, ox=ORD5[2], oy=ORD5[3], ps=[[4, 2, 0, 1, 3], [1, 0, 2, 3, 4]]),
    dict(n=7, ox=[3, 1, 4, 0, 5, 2, 6], oy=[0, 2, 2, 1, 4, 3, 3],
         ps=[[6, 5, 4, 3, 2, 1, 0], [2, 4, 6, 1, 3, 5, 0]])],
    thorough=[dict(n=4, ox=o, oy=p) for o in weak_orders(4)[::5] for p in weak_orders(4)[::7]])
def fast_reordering(c, n, ox, oy, ps=None):
    """Reordering the observations jointly changes nothing."""
    x, y = samp(c, "x", n, 0, ox), samp(c, "y", n, 0, oy)
    p = c.perm(n, ps)
    x2, y2 = _perm(x, p), _perm(y, p)
    d = c.dcor
    for m in ("avl", "mergesort", "auto"):
        c.eq(f"dcov^2 {m}", d.distance_covariance_sqr(x2, y2, method=m),
             d.distance_covariance_sqr(x, y, method=m))
        c.eq(f"u-dcov^2 {m}", d.u_distance_covariance_sqr(x2, y2, method=m),
             d.u_distance_covariance_sqr(x, y, method=m))


@harness("C07", quick=[dict(n=3, p=2, q=0), dict(n=3, p=2, q=3), dict(n=4, p=2, q=2),
                       dict(n=4, p=0, q=0), dict(n=5, p=0, q=2)],
         thorough=[dict(n=6, p=2, q=2), dict(n=8, p=0, q=0)], attrs=ATOMS)
def naive_symmetric_reordering(c, n, p, q):
    x, y = samp(c, "x", n, p), samp(c, "y", n, q)
    d = c.dcor
    k = c.choose(3)
    o = [list(range(n))[::-1], list(range(1, n)) + [0], [1, 0] + list(range(2, n))][k]
    x2, y2 = _perm(x, o), _perm(y, o)
    fs = [("dcov^2", d.distance_covariance_sqr)]
    if n > 3:
        fs.append(("u-dcov^2", d.u_distance_covariance_sqr))
    for lab, f in fs:
        v = f(x, y, method="naive")
        c.eq(lab + " symmetric", f(y, x, method="naive"), v)
        c.eq(lab + " reordered", f(x2, y2, method="naive"), v)
    c.eq("energy within-sample order", d.energy_distance(x[:2], x[2:]),
         d.energy_distance(_perm(x[:2], [1, 0]), x[2:]))


@harness("C07", quick=[dict(n=4, ox=ORD4[2], oy=ORD4[3]), dict(n=3, p=2, q=0),
                       dict(n=3, p=2, q=2), dict(n=4, p=2, q=0)],
         thorough=[dict(n=5, ox=ORD5[2], oy=ORD5[3]), dict(n=4, p=2, q=2)],
         attrs=ATOMS, engine=NRA)
def correlation_symmetric(c, n, ox=None, oy=None, p=0, q=0):
    x, y = samp(c, "x", n, p, ox), samp(c, "y", n, q, oy)
    d = c.dcor
    f = _v(c, x, y)
    o = list(range(1, n)) + [0]
    s = d.distance_stats_sqr(x, y)
    t = d.distance_stats_sqr(y, x)
    w = d.distance_stats_sqr(_perm(x, o), _perm(y, o))
    c.guard(f[0] * f[1])
    c.eq("dcor^2 symmetric", s.correlation_xy, t.correlation_xy)
    c.eq("dcov^2 symmetric", s.covariance_xy, t.covariance_xy)
    c.eq("variances swap (x)", s.variance_x, t.variance_y)
    c.eq("variances swap (y)", s.variance_y, t.variance_x)
    c.eq("dcor^2 reordered", s.correlation_xy, w.correlation_xy)
    c.eq("var x reordered", s.variance_x, w.variance_x)
    if n > 3:
        _u(c, x, y)
        s = d.u_distance_correlation_sqr(x, y)
        c.eq("u-dcor^2 symmetric", s, d.u_distance_correlation_sqr(y, x))
        c.eq("u-dcor^2 reordered", s, d.u_distance_correlation_sqr(_perm(x, o), _perm(y, o)))


# ------------------------------------------------------------------ C08
@harness("C08", quick=[
    dict(n=4, ox=ORD4[2], oy=ORD4[3]), dict(n=4, ox=ORD4[5], oy=ORD4[6]),
    dict(n=5, ox=ORD5[2], oy=ORD5[3]), dict(n=3, ox="any", oy=[0, 2, 1]),
    dict(n=7, ox=[3, 1, 4, 0, 5, 2, 6], oy=[0, 2, 2, 1, 4, 3, 3])],
    thorough=[dict(n=4, ox=o, oy="any") for o in weak_orders(4)[::3]] + pairs(9, 3))
def fast_translation_scale(c, n, ox, oy):
    """1-D samples: translations change nothing, factors multiply dcov^2."""
    x, y = samp(c, "x", n, 0, ox), samp(c, "y", n, 0, oy)
    d = c.dcor
    t = c.real("t")
    k = c.real("k")
    if bool(c.guard(k) > 0):
        ak = k
    else:
        c.assume(k < 0)
        ak = -k
    for m in (("avl", "mergesort", "naive") if n > 3 else ("naive",)):
        v = d.distance_covariance_sqr(x, y, method=m)
        c.eq(f"translated {m}", d.distance_covariance_sqr(x + t, y, method=m), v)
        c.eq(f"translated y {m}", d.distance_covariance_sqr(x, y - t, method=m), v)
        c.eq(f"scaled {m}", d.distance_covariance_sqr(x * k, y, method=m), v * ak)
        c.eq(f"scaled y {m}", d.distance_covariance_sqr(x, k * y, method=m), v * ak)
        if n > 3:
            u = d.u_distance_covariance_sqr(x, y, method=m)
            c.eq(f"u translated {m}", d.u_distance_covariance_sqr(x + t, y - t, method=m), u)
            c.eq(f"u scaled {m}", d.u_distance_covariance_sqr(x * k, y, method=m), u * ak)


@harness("C08", quick=[dict(n=3, p=2, q=0), dict(n=4, p=2, q=2), dict(n=3, p=0, q=0, e=1.5),
                       dict(n=4, p=2, q=2, e=0.5), dict(n=3, p=3, q=2, e=1.25)],
         thorough=[dict(n=5, p=2, q=2), dict(n=5, p=2, q=0, e=1.75)], attrs=ATOMS, engine=NRA)
def naive_translation_scale(c, n, p, q, e=1):
    """Any dimension and exponent: dcov^2(k x + t, y) = k**e dcov^2(x, y)."""
    x, y = samp(c, "x", n, p), samp(c, "y", n, q)
    d = c.dcor
    k = c.real("k")
    c.assume(k > 0)
    t = c.reals("t", p) if p else c.real("t")
    ke = k if e == 1 else c.pow(k, e)
    v = d.distance_covariance_sqr(x, y, method="naive", **exps(e))
    c.eq("dcov^2(k x + t, y)",
         d.distance_covariance_sqr(x * k + t, y, method="naive", **exps(e)), v * ke)
    c.eq("dcov^2(y, k x + t)",
         d.distance_covariance_sqr(y, x * k + t, method="naive", **exps(e)), v * ke)
    if n > 3:
        u = d.u_distance_covariance_sqr(x, y, method="naive", **exps(e))
        c.eq("u-dcov^2(k x + t, y)",
             d.u_distance_covariance_sqr(x * k + t, y, method="naive", **exps(e)), u * ke)
    m = d.energy_distance(x[:1], x[1:], **exps(e))
    c.eq("energy(k x + t, k y + t)",
         d.energy_distance(x[:1] * k + t, x[1:] * k + t, **exps(e)), m * ke)


@harness("C08", quick=[dict(n=3, q=0), dict(n=3, q=2), dict(n=4, q=0), dict(n=4, q=2)],
         thorough=[dict(n=5, q=2), dict(n=6, q=0)], attrs=ATOMS)
def rotation_translation(c, n, q):
    """Rotating or reflecting plane samples and translating them changes nothing."""
    x, y = samp(c, "x", n, 2), samp(c, "y", n, q)
    co, si = c.rotation("r")
    t, u = c.real("t"), c.real("u")
    s = 1 if c.choose(2) == 0 else -1
    x2 = c.array([[co * x[i][0] - si * x[i][1] + t, (si * x[i][0] + co * x[i][1]) * s + u]
                  for i in range(n)])
    d = c.dcor
    a, b = ref.dmat(c, x), ref.dmat(c, y)
    v = d.distance_covariance_sqr(x, y)
    c.eq("dcov^2 of the rotated sample", d.distance_covariance_sqr(x2, y), v)
    c.eq("dcov^2(y, .)", d.distance_covariance_sqr(y, x2), v)
    if n > 3:
        c.eq("u-dcov^2 of the rotated sample", d.u_distance_covariance_sqr(x2, y),
             d.u_distance_covariance_sqr(x, y))
    # distances between two samples rotated together
    e = d.energy_distance(x[:2], x[2:])
    c.eq("energy of samples moved together", d.energy_distance(x2[:2], x2[2:]), e)


@harness("C08", quick=[dict(n=4, ox=ORD4[2], oy=ORD4[3]), dict(n=3, p=2, q=0),
                       dict(n=4, p=2, q=0)],
         thorough=[dict(n=5, ox=ORD5[2], oy=ORD5[3]), dict(n=4, p=2, q=2)],
         attrs=ATOMS, engine=NRA)
def dcor_scale_free(c, n, ox=None, oy=None, p=0, q=0):
    x, y = samp(c, "x", n, p, ox), samp(c, "y", n, q, oy)
    d = c.dcor
    f = _v(c, x, y)
    c.guard(f[0] * f[1])
    k = c.real("k")
    c.assume(k > 0)
    c.guard(k, 1e-3)
    t = c.real("t")
    r = d.distance_correlation_sqr(x, y)
    c.eq("dcor^2(k x + t, y)", d.distance_correlation_sqr(x * k + t, y), r)
    c.eq("dcor^2(-x, y)", d.distance_correlation_sqr(-x, y), r)
    c.eq("dcor^2(x, k y + t)", d.distance_correlation_sqr(x, y * k + t), r)
    if n > 3:
        _u(c, x, y)
        u = d.u_distance_correlation_sqr(x, y)
        c.eq("u-dcor^2(k x + t, y)", d.u_distance_correlation_sqr(x * k + t, y), u)
        c.eq("u-dcor^2(-x, y)", d.u_distance_correlation_sqr(x, -y), u)
