"""C01 C02 C03 C04: values of the distance covariance."""
from __future__ import annotations

from symx import ref
from . import harness
from ._h import samp, some_orders, weak_orders, perms, METHODS

ATOMS = dict(abs_atoms=True)


def _mats(c, x, y, e):
    return ref.dmat(c, x, None, e), ref.dmat(c, y, None, e)


def exps(e):
    return dict() if e == 1 else dict(exponent=e)


@harness("C01", quick=[
    dict(n=2, p=0, q=0), dict(n=3, p=0, q=0), dict(n=4, p=0, q=0), dict(n=5, p=1, q=0),
    dict(n=6, p=0, q=1), dict(n=3, p=2, q=0), dict(n=3, p=2, q=3), dict(n=4, p=2, q=2),
    dict(n=3, p=0, q=0, e=1.5), dict(n=4, p=1, q=0, e=0.5), dict(n=3, p=2, q=1, e=1.5),
    dict(n=3, p=2, q=2, e=2), dict(n=1, p=0, q=0)],
    thorough=[dict(n=8, p=0, q=0), dict(n=12, p=0, q=1), dict(n=5, p=2, q=2),
              dict(n=6, p=2, q=3), dict(n=5, p=2, q=2, e=0.25)], attrs=ATOMS)
def naive_is_definition(c, n, p, q, e=1):
    x, y = samp(c, "x", n, p), samp(c, "y", n, q)
    d = c.dcor
    a, b = _mats(c, x, y, e)
    want = ref.dcov2(a, b)
    c.eq("dcov^2 naive", d.distance_covariance_sqr(x, y, method="naive", **exps(e)), want)
    if n < 4 or p > 1 or q > 1 or e != 1:
        c.eq("dcov^2 default", d.distance_covariance_sqr(x, y, **exps(e)), want)


@harness("C01", quick=[
    dict(n=2, p=0, q=0), dict(n=3, p=0, q=0), dict(n=3, p=0, q=2),
    dict(n=3, p=0, q=0, e=1.5)], thorough=[dict(n=4, p=2, q=2)], attrs=ATOMS,
    engine=dict(branch_ms=400))
def root_is_root(c, n, p, q, e=1):
    x, y = samp(c, "x", n, p), samp(c, "y", n, q)
    d = c.dcor
    s = d.distance_covariance_sqr(x, y, **exps(e))
    r = d.distance_covariance(x, y, **exps(e))
    c.le("dcov >= 0", 0, r)
    c.eq("dcov*dcov", r * r, c.max0(s))
    st = d.distance_stats(x, y, **exps(e))
    sq = d.distance_stats_sqr(x, y, **exps(e))
    c.eq("stats cov", st.covariance_xy, r)
    c.eq("stats_sqr cov", sq.covariance_xy, s)


ORD4 = some_orders(4, 8)
ORD5 = some_orders(5, 6)


@harness("C01", quick=[dict(n=4, ox=o, oy='any') for o in ORD4[:3]]
         + [dict(n=5, ox=o, oy=p) for o in ORD5[2:4] for p in ORD5[3:6]],
         thorough=[dict(n=4, ox=o, oy='any') for o in weak_orders(4)])
def default_is_definition(c, n, ox, oy):
    """The default (fast) method on one-dimensional samples."""
    x, y = samp(c, "x", n, 0, ox), samp(c, "y", n, 0, oy)
    a, b = _mats(c, x, y, 1)
    want = ref.dcov2(a, b)
    c.eq("dcov^2", c.dcor.distance_covariance_sqr(x, y), want)
    r = c.dcor.distance_covariance(x, y)
    c.eq("dcov", r * r, want)
    c.le("dcov >= 0", 0, r)


# ------------------------------------------------------------------ C02
@harness("C02", quick=[
    dict(n=4, p=0, q=0), dict(n=5, p=1, q=0), dict(n=6, p=0, q=1), dict(n=4, p=2, q=0),
    dict(n=4, p=2, q=3), dict(n=5, p=2, q=2), dict(n=4, p=0, q=0, e=1.5),
    dict(n=5, p=1, q=0, e=0.5), dict(n=4, p=2, q=1, e=1.5), dict(n=4, p=2, q=2, e=2)],
    thorough=[dict(n=8, p=0, q=0), dict(n=12, p=0, q=1), dict(n=6, p=2, q=2),
              dict(n=7, p=2, q=3), dict(n=5, p=2, q=2, e=0.25)], attrs=ATOMS)
def u_naive_is_definition(c, n, p, q, e=1):
    x, y = samp(c, "x", n, p), samp(c, "y", n, q)
    d = c.dcor
    a, b = _mats(c, x, y, e)
    want = ref.udcov2(a, b)
    c.eq("u-dcov^2 naive", d.u_distance_covariance_sqr(x, y, method="naive", **exps(e)), want)
    ua, ub = d.u_centered(d.distances.pairwise_distances(x, **exps(e))), \
        d.u_centered(d.distances.pairwise_distances(y, **exps(e)))
    c.eq("u-product of the u-centered matrices", d.u_product(ua, ub), want)
    if p > 1 or q > 1 or e != 1:
        c.eq("u-dcov^2 default", d.u_distance_covariance_sqr(x, y, **exps(e)), want)


@harness("C02", quick=[dict(n=4, ox=o, oy='any') for o in ORD4[:3]]
         + [dict(n=5, ox=o, oy=p) for o in ORD5[2:4] for p in ORD5[3:6]],
         thorough=[dict(n=4, ox=o, oy='any') for o in weak_orders(4)])
def u_default_is_definition(c, n, ox, oy):
    x, y = samp(c, "x", n, 0, ox), samp(c, "y", n, 0, oy)
    a, b = _mats(c, x, y, 1)
    c.eq("u-dcov^2", c.dcor.u_distance_covariance_sqr(x, y), ref.udcov2(a, b))
    s = c.dcor.u_distance_stats_sqr(x, y)
    c.eq("stats cov", s.covariance_xy, ref.udcov2(a, b))
    c.eq("stats var x", s.variance_x, ref.udcov2(a, a))
    c.eq("stats var y", s.variance_y, ref.udcov2(b, b))


# ------------------------------------------------------------------ C03
def _fast(c, x, y, full):
    d = c.dcor
    a, b = _mats(c, x, y, 1)
    cov, ucov = ref.dcov2_flat(a, b), ref.udcov2_flat(a, b)
    for m in ("avl", "mergesort", "auto"):
        c.eq(f"dcov^2 {m}", d.distance_covariance_sqr(x, y, method=m), cov)
        c.eq(f"u-dcov^2 {m}", d.u_distance_covariance_sqr(x, y, method=m), ucov)
    if full:
        w = [ref.dcov2_flat(a, a), ref.dcov2_flat(b, b), ref.udcov2_flat(a, a),
             ref.udcov2_flat(b, b)]
        for m in ("avl", "mergesort"):
            s = d.distance_stats_sqr(x, y, method=m)
            u = d.u_distance_stats_sqr(x, y, method=m)
            c.eq(f"cov {m}", s.covariance_xy, cov)
            c.eq(f"u-cov {m}", u.covariance_xy, ucov)
            for lab, g, v in zip(("var x", "var y", "u-var x", "u-var y"),
                                 (s.variance_x, s.variance_y, u.variance_x, u.variance_y), w):
                c.eq(f"{lab} {m}", g, v)


@harness("C03", quick=[dict(n=4, ox=o) for o in ORD4],
         thorough=[dict(n=4, ox=o) for o in weak_orders(4)], jit=True)
def fast_small(c, n, ox):
    x, y = samp(c, "x", n, 0, ox), samp(c, "y", n, 0, "any")
    _fast(c, x, y, False)


def pairs(n, k, seed=1):
    o = some_orders(n, 2 * k, seed)
    return [dict(n=n, ox=o[i], oy=o[(i * 7 + 3) % (2 * k)]) for i in range(k)]


@harness("C03", quick=pairs(4, 4) + pairs(5, 8) + pairs(6, 6) + pairs(7, 6) + pairs(8, 5)
         + [dict(p, _w=3) for p in pairs(9, 5)] + [dict(p, _w=5) for p in pairs(16, 1)]
         + [dict(p, _w=9) for p in pairs(17, 2)],
         thorough=pairs(5, 60, 2) + pairs(6, 60, 2) + pairs(7, 40, 2) + pairs(8, 30, 2)
         + pairs(9, 30, 2) + pairs(12, 10, 2) + pairs(17, 6, 2) + pairs(33, 2, 2), jit=True)
def fast_large(c, n, ox, oy):
    x, y = samp(c, "x", n, 0, ox), samp(c, "y", n, 0, oy)
    _fast(c, x, y, n < 8)


# ------------------------------------------------------------------ C04
@harness("C04", quick=[dict(n=4, ox=o) for o in ORD4[:6]],
         thorough=[dict(n=4, ox=o) for o in weak_orders(4)], jit=True)
def modes_small(c, n, ox):
    x, y = samp(c, "x", n, 0, ox), samp(c, "y", n, 0, "any")
    _modes(c, x, y)


@harness("C04", quick=pairs(5, 6, 3) + pairs(6, 4, 3) + pairs(7, 4, 3) + pairs(8, 4, 3)
         + pairs(9, 4, 3) + [dict(p, _w=9) for p in pairs(17, 2, 3) + pairs(33, 1, 3)],
         thorough=pairs(5, 40, 4) + pairs(6, 40, 4) + pairs(7, 30, 4) + pairs(8, 30, 4)
         + pairs(9, 30, 4) + pairs(16, 6, 4) + pairs(17, 6, 4) + pairs(33, 3, 4)
         + pairs(65, 2, 4), jit=True)
def modes_large(c, n, ox, oy):
    x, y = samp(c, "x", n, 0, ox), samp(c, "y", n, 0, oy)
    _modes(c, x, y)


def _modes(c, x, y):
    d = c.dcor
    M = d.CompileMode
    w = d.distance_covariance_sqr(x, y, method="naive", compile_mode=M.NO_COMPILE)
    u = d.u_distance_covariance_sqr(x, y, method="naive", compile_mode=M.AUTO)
    for m in ("avl", "mergesort"):
        for k in (M.AUTO, M.NO_COMPILE, M.COMPILE_CPU):
            c.eq(f"dcov^2 {m} {k.name}",
                 d.distance_covariance_sqr(x, y, method=m, compile_mode=k), w)
            c.eq(f"u-dcov^2 {m} {k.name}",
                 d.u_distance_covariance_sqr(x, y, method=m, compile_mode=k), u)


@harness(("C01", "C02"), quick=[dict(n=3, p=0, q=0), dict(n=3, p=2, q=0), dict(n=4, p=0, q=2),
                                dict(n=4, p=2, q=2)],
         thorough=[dict(n=5, p=2, q=2), dict(n=6, p=0, q=0)], attrs=ATOMS)
def any_exponent(c, n, p, q):
    """The same for a free exponent in (0, 2)."""
    x, y = samp(c, "x", n, p), samp(c, "y", n, q)
    e = c.real("e")
    c.assume(e > 0)
    c.assume(e < 2)
    d = c.dcor
    a, b = _mats(c, x, y, e)
    f = {"dcov^2": (d.distance_covariance_sqr, ref.dcov2(a, b))}
    if n > 3:
        f["u dcov^2"] = (d.u_distance_covariance_sqr, ref.udcov2(a, b))
    for nm, (fn, want) in f.items():
        c.eq(f"{nm} naive", fn(x, y, method="naive", exponent=e), want)
        if p > 1 or q > 1 or n < 4:
            c.eq(f"{nm} default", fn(x, y, exponent=e), want)
