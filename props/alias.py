"""The same array, or overlapping views of one array, passed as several arguments."""
from __future__ import annotations

from symx import ref
from . import harness
from ._h import samp
from .corr import NRA, ORD4, _u, _v
from .dcov import ATOMS
from .misc import calls, values, cells
from .energy import coef

VIEWS = {"same": lambda b: (b[:4], None),
         "equal views": lambda b: (b[:4], b[:4]),
         "reversed": lambda b: (b[:4], b[3::-1]),
         "shifted": lambda b: (b[:4], b[1:])}


@harness("C23", quick=[dict(kind="cov", m=m, how=h) for m in (None, "naive", "mergesort", "avl")
                       for h in ("same", "reversed", "shifted")]
         + [dict(kind=k, how=h) for k in ("dist", "energy", "tests", "row")
            for h in ("same", "equal views", "reversed", "shifted")]
         + [dict(kind=k, how=h) for k in ("cor", "partial") for h in ("same", "shifted")],
         attrs=ATOMS, engine=NRA)
def shared_memory(c, kind, how, m=None):
    """f(x, x), or f of two views of one array, is f of two separate copies."""
    b = samp(c, "b", 5, 0, [2, 0, 3, 4, 1])
    x, y = VIEWS[how](b)
    y = x if y is None else y
    if kind in ("cor", "row"):
        _u(c, x, y)
        f = _v(c, x, y)
        c.guard(f[0] * f[1])
    old = cells(b)
    u, v = x + 0, y + 0
    with c.quiet():
        for name, f in calls(c, kind, m).items():
            want, got = values(f(u, v)), values(f(x, y))
            c.eq(f"{name}: number of values", len(got), len(want))
            for i, (g, w) in enumerate(zip(got, want)):
                c.eq(f"{name} ({how}) [{i}]", g, w)
    for i, (p, q) in enumerate(zip(cells(b), old)):
        c.eq(f"argument unchanged [{i}]", p, q)


@harness(["C14", "C15"], quick=[dict(n=n, p=p, e=e) for n, p, e in (
    (2, 0, 1), (3, 2, 1), (3, 0, 1.5), (4, 0, 1))], attrs=ATOMS)
def energy_with_itself(c, n, p, e):
    """The definition also holds when both samples are the same object."""
    x = samp(c, "x", n, p)
    kw = {} if e == 1 else dict(exponent=e)
    f = c.dcor.energy_distance
    for s in ("V", "U"):
        c.eq("energy(x, x) " + s, f(x, x, estimation_stat=s, **kw), ref.energy(c, x, x, e, s))
    c.eq("energy(x, x)", f(x, x, **kw), 0)


@harness("C16", quick=[dict(n=2, p=0), dict(n=3, p=2)], attrs=ATOMS)
def repeated_samples(c, n, p):
    """The same object several times among the samples."""
    x, y = samp(c, "x", n, p), samp(c, "y", 2, p)
    h = c.dcor.homogeneity
    for s in ("V", "U"):
        kw = dict(estimation_stat=s)
        xx, xy = ref.energy(c, x, x, 1, s), ref.energy(c, x, y, 1, s)
        c.eq("statistic(x, x) " + s, h.energy_test_statistic(x, x, **kw), coef(c, n, n) * xx)
        c.eq("test(x, x) " + s, h.energy_test(x, x, **kw).statistic, coef(c, n, n) * xx)
        c.eq("test(x, y, x) " + s, h.energy_test(x, y, x, **kw).statistic,
             coef(c, n, n) * xx + coef(c, n, 2) * xy * 2)
