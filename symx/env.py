"""Loads dcor from /repo for symbolic execution and models its environment.

* numba: ``njit``/``jit`` return the undecorated Python function behind a check
  of the declared signature (wrong dtype/ndim/layout raises TypeError as the
  real dispatcher does); ``guvectorize`` loops over rows.
* joblib.Parallel: runs the tasks in an order chosen by the explorer.
* numpy.random.RandomState: permutations are chosen by the explorer.
* scipy.stats.t.cdf, numpy.linalg.eigh, scipy cdist: models below.
"""
from __future__ import annotations

import importlib
import math
import os
import sys
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import arr
from .arr import SArr, F64, active, handles
from .ref import allowed
from .core import (Engine, NAN, PathAbort, Sym, SymBool, Unsupported, eng)

REPO = os.environ.get("DCOR_REPO", "/repo")


# ---------------------------------------------------------------- numba
def _arg_ok(v, t):
    from numba import types
    if isinstance(t, types.Array):
        if isinstance(v, (Sym,)) or not isinstance(v, np.ndarray):
            return False
        if v.ndim != t.ndim:
            return False
        try:
            want = np.dtype(str(t.dtype)) if not isinstance(t.dtype, types.Boolean) else np.dtype(bool)
        except TypeError:
            return True
        if v.dtype != want:
            return False
        if t.layout == "C" and not v.flags.c_contiguous:
            return False
        if t.layout == "F" and not v.flags.f_contiguous:
            return False
        if t.mutable and not v.flags.writeable:
            return False
        return True
    if isinstance(t, (types.Float, types.Integer, types.Boolean)):
        if isinstance(v, np.ndarray):
            return False
        if isinstance(v, Sym):
            return isinstance(t, types.Float) or v.dt is not None
        return isinstance(v, (int, float, bool, np.number, np.bool_, SymBool))
    return True


def _sigs(a):
    from numba.core.typing.templates import Signature
    out = []
    for s in (a if isinstance(a, (list, tuple)) else [a]):
        if isinstance(s, Signature):
            out.append(s)
    return out


COMPILED = []


def _jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not _sigs(a[0]) and hasattr(a[0], "__code__"):
        return _model(a[0], [])

    def deco(f):
        return _model(f, _sigs(a[0]) if a else [])
    return deco


def _model(f, sigs):
    import functools
    import inspect
    try:
        ps = inspect.signature(f)
    except (TypeError, ValueError):
        ps = None
    COMPILED.append(getattr(f, "__qualname__", str(f)))

    @functools.wraps(f)
    def g(*a, **k):
        if ps is not None and k:
            b = ps.bind(*a, **k)
            b.apply_defaults()
            vals = list(b.arguments.values())
        else:
            vals = list(a)
            if ps is not None:
                ps_ = list(ps.parameters.values())
                for p in ps_[len(vals):]:
                    if p.default is not inspect.Parameter.empty:
                        vals.append(p.default)
        if active() and sigs:
            if not any(len(s.args) == len(vals)
                       and all(_arg_ok(v, t) for v, t in zip(vals, s.args))
                       for s in sigs):
                raise TypeError(
                    "No matching definition for argument type(s) "
                    + ", ".join(str(getattr(v, "dtype", type(v).__name__)) for v in vals))
        return f(*vals)
    g.py_func = f
    g.__wrapped__ = f
    return g


def _guvectorize(*a, **k):
    sig_layout = [x for x in a if isinstance(x, str) and "->" in x]
    layout = sig_layout[0] if sig_layout else k.get("signature")
    ftys = a[0] if a and not isinstance(a[0], str) else []

    def deco(f):
        COMPILED.append(getattr(f, "__qualname__", str(f)))
        ins, outs = layout.replace(" ", "").split("->")
        ins = [tuple(c for c in p.strip("()").split(",") if c)
               for p in ins.replace("),(", ")|(").split("|")]
        outs = [tuple(c for c in p.strip("()").split(",") if c)
                for p in outs.replace("),(", ")|(").split("|")]

        def g(*args, **kw):
            args = list(args)
            n_in = len(ins)
            vals = args[:n_in]
            given = args[n_in:]
            if kw.get("out") is not None:
                o = kw["out"]
                given = list(o) if isinstance(o, tuple) else [o]
            vs = []
            for v, t in zip(vals, ftys[0][:n_in] if ftys else [None] * n_in):
                if not isinstance(v, np.ndarray):
                    v = arr.REAL["array"](v) if not arr.has_sym(v) else np.asarray(v)
                from numba import types
                if isinstance(t, types.Array) or t is None:
                    want = np.dtype(str(t.dtype)) if t is not None else v.dtype
                    if v.dtype != want:
                        if not np.can_cast(v.dtype, want, "same_kind"):
                            raise TypeError(f"ufunc cannot cast {v.dtype} to {want}")
                        v = v.astype(want)
                vs.append(v)
            dims = {}
            loops = []
            for v, core in zip(vs, ins):
                cs = v.shape[len(v.shape) - len(core):]
                if len(cs) != len(core):
                    raise ValueError("does not have enough dimensions")
                for c, s in zip(core, cs):
                    if dims.setdefault(c, s) != s:
                        raise ValueError("mismatch in its core dimension")
                loops.append(v.shape[:len(v.shape) - len(core)])
            loop = np.broadcast_shapes(*loops)
            res = []
            for i, core in enumerate(outs):
                shp = loop + tuple(dims[c] for c in core)
                if i < len(given):
                    o = given[i]
                    if o.dtype != F64 and not np.can_cast(F64, o.dtype, "same_kind"):
                        raise np.core._exceptions._UFuncOutputCastingError(
                            np.add, "same_kind", F64, o.dtype, i)
                    if o.shape != shp:
                        raise ValueError("non-broadcastable output operand")
                    res.append(o)
                else:
                    res.append(arr._make(shp, F64, arr.GARBAGE) if active() else np.zeros(shp))
            for ix in arr.ndindex(*loop):
                sub = []
                for v, core in zip(vs, ins):
                    full = loop + v.shape[len(v.shape) - len(core):]
                    w = np.broadcast_to(v.view(np.ndarray), full)[ix]
                    if isinstance(v, SArr):
                        w = SArr(w, v.dtype) if isinstance(w, np.ndarray) else w
                    sub.append(w)
                tmp = []
                for o, core in zip(res, outs):
                    shp = tuple(dims[c] for c in core)
                    t = arr._make(shp or (1,), F64, 0) if active() else np.zeros(shp or (1,))
                    t[:] = o[ix]
                    tmp.append(t)
                f(*sub, *tmp)
                for o, t, core in zip(res, tmp, outs):
                    if core:
                        o[ix] = t
                    else:
                        o[ix] = t[0]
            return res[0] if len(res) == 1 else tuple(res)
        g.__name__ = getattr(f, "__name__", "gufunc")
        g.py_func = f
        g.__wrapped__ = f
        return g
    return deco


def _vectorize(*a, **k):
    def deco(f):
        COMPILED.append(getattr(f, "__qualname__", str(f)))

        def g(*args):
            A = [arr._obj(x) for x in args]
            A = np.broadcast_arrays(*A)
            out = np.empty(A[0].shape, dtype=object)
            for i in arr.ndindex(*out.shape):
                out[i] = f(*[x[i] for x in A])
            return SArr(arr._norm(out, F64), F64) if out.ndim else out[()]
        return g
    if len(a) == 1 and hasattr(a[0], "__code__"):
        return deco(a[0])
    return deco


# ---------------------------------------------------------------- joblib
class Parallel:
    """Tasks run in an order chosen by the explorer; results in task order."""

    def __init__(self, n_jobs=None, *a, **k):
        self.n_jobs = n_jobs

    def __call__(self, iterable):
        nj = 1 if self.n_jobs in (None, 1) else 2
        e = Engine.cur
        if e is None or nj == 1:
            return [f(*a, **k) for f, a, k in iterable]
        # several workers: a window of pre-dispatched tasks, run in any order,
        # each on its own copy of the arguments when workers are processes
        import copy
        tasks = list(iterable)
        results = [None] * len(tasks)
        left = list(range(len(tasks)))
        copied = bool(getattr(e, "copy_tasks", True))
        while left:
            i = left.pop(e.choose(min(len(left), 3), "schedule"))
            f, a, k = tasks[i]
            if copied:
                a, k = copy.deepcopy((a, k))
            results[i] = f(*a, **k)
        return results

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ---------------------------------------------------------------- random
_PERMS = {}


def all_perms(n):
    import itertools
    if n not in _PERMS:
        _PERMS[n] = list(itertools.permutations(range(n)))
    return _PERMS[n]


class _Perms:
    """permutation/shuffle with the result chosen by the explorer.

    Objects with the same integer seed give the same sequence; others give a
    sequence of their own, which copies of the object (worker processes)
    continue from the point where they were copied."""

    def _setup(self, seed, perms):
        self.seed_ = seed
        self.key_ = ("seed", type(self).__name__, int(seed)) \
            if isinstance(seed, (int, np.integer)) else ("obj", object())
        self.log = []
        self.allowed = perms

    def permutation(self, x, axis=0):
        e = Engine.cur
        if e is None:
            return super().permutation(x)
        n = x if isinstance(x, (int, np.integer)) else x.shape[axis] \
            if hasattr(x, "shape") else len(x)
        p = _draw(e, (self.key_, len(self.log), n), n, allowed(self.allowed, len(self.log)))
        self.log.append(p)
        p = arr.REAL["array"](p, dtype=np.int64)
        if isinstance(x, (int, np.integer)):
            return p
        return np.take(x, p, axis=axis)

    def shuffle(self, x, axis=0):
        p = self.permutation(len(x))
        c = x.copy() if hasattr(x, "copy") else list(x)
        for i, j in enumerate(p):
            x[i] = c[j]

    def permuted(self, x, axis=None):
        raise Unsupported("Generator.permuted")

    def __deepcopy__(self, memo):
        o = type(self)(self.seed_, self.allowed)
        o.key_ = self.key_
        o.log = list(self.log)
        return o


def _draw(e, key, n, allowed=None):
    table = e.__dict__.setdefault("rng_table", {})
    if key not in table:
        cands = allowed or getattr(e, "perm_set", None) or all_perms(n)
        cands = [p for p in cands if len(p) == n] or all_perms(n)
        table[key] = cands[e.choose(len(cands), "permutation")]
    return table[key]


_RS, _GEN = np.random.RandomState, np.random.Generator


class RandomState(_Perms, _RS):
    def __init__(self, seed=None, perms=None):
        if seed is not None and not isinstance(seed, (int, np.integer)):
            _RS.__init__(self, seed)      # its own checks
        else:
            _RS.__init__(self, 0 if seed is None else seed)
        self._setup(seed, perms)


class Generator(_Perms, _GEN):
    def __init__(self, seed=None, perms=None):
        _GEN.__init__(self, np.random.PCG64(0))
        self._setup(seed, perms)


def default_rng(seed=None):
    if isinstance(seed, np.random.Generator):
        return seed
    return Generator(seed)


class _Singleton(RandomState):
    """numpy.random.mtrand._rand."""

    def permutation(self, x, axis=0):
        e = Engine.cur
        if e is None:
            return super().permutation(x)
        e.__dict__["global_used"] = True
        g = e.__dict__.get("global_rng")
        if g is None:
            g = e.__dict__["global_rng"] = RandomState()
        return g.permutation(x, axis)

    def __deepcopy__(self, memo):
        return self


class _GlobalRandom:
    """numpy.random.permutation, .shuffle, .seed and ._rand: hidden global state."""

    def cur(self):
        return np.random.mtrand._rand

    def permutation(self, x):
        return self.cur().permutation(x) if active() else self._p(x)

    def shuffle(self, x):
        return self.cur().shuffle(x) if active() else self._s(x)

    def seed(self, k=None):
        if not active():
            return self._k(k)
        Engine.cur.__dict__["global_rng"] = RandomState(k)
        Engine.cur.__dict__["global_used"] = True

    def install(self):
        np.random.mtrand._rand = np.random._rand = _Singleton()
        np.random.mtrand.RandomState = RandomState
        self._p, self._s, self._k = np.random.permutation, np.random.shuffle, np.random.seed
        np.random.permutation, np.random.shuffle, np.random.seed = \
            self.permutation, self.shuffle, self.seed


# ---------------------------------------------------------------- scipy
T_CDF = z3.Function("t_cdf", z3.RealSort(), z3.RealSort(), z3.RealSort())


def t_cdf_model(q, df):
    """Student-t distribution function: uninterpreted, in [0, 1]."""
    e = eng()
    if isinstance(q, np.ndarray):
        q = q.view(np.ndarray).item() if q.ndim == 0 else q
    if not isinstance(q, Sym):
        if isinstance(q, (float, np.floating)):
            if q != q:
                return NAN
            if math.isinf(q):
                return Sym.const(Fraction(1 if q > 0 else 0))
        q = Sym.of(q)
    df = Sym.of(df)
    if q is None or df is None or isinstance(df, float):
        raise Unsupported("t.cdf arguments")
    if q.d is not None:
        # name the quotient so that equal quotients give equal values
        for n0, d0, r in e.__dict__.setdefault("quots", []):
            if e._algebra((n0 * q.d, q.n * d0, "==")):
                break
        else:
            r = e.fresh("quot")
            e.add(r * q.d == q.n)
            e.quots.append((q.n, q.d, r))
        qn = r
    else:
        qn = q.n
    v = T_CDF(qn, df.term())
    e.add(z3.And(v >= 0, v <= 1))
    return Sym(v, None, None, True)


class _TDist:
    def __init__(self, real):
        self._real = real

    def cdf(self, x, df=None, *a, **k):
        if active() and (arr.has_sym(x) or arr.has_sym(df)):
            if a or k:
                raise Unsupported("t.cdf with loc/scale")
            return t_cdf_model(x, df)
        return self._real.cdf(x, df, *a, **k)

    def sf(self, x, df=None, *a, **k):
        if active() and (arr.has_sym(x) or arr.has_sym(df)):
            if a or k:
                raise Unsupported("t.sf with loc/scale")
            return 1 - t_cdf_model(x, df)
        return self._real.sf(x, df, *a, **k)

    def __call__(self, df, *a, **k):
        if a or k:
            return self._real(df, *a, **k)
        t = self

        class Frozen:
            def cdf(self, x):
                return t.cdf(x, df)

            def sf(self, x):
                return t.sf(x, df)
        return Frozen()

    def __getattr__(self, n):
        return getattr(self._real, n)


def _cdist(xa, xb, metric="euclidean", **k):
    if k and any(v is not None for v in k.values()):
        raise Unsupported("cdist options")
    if not isinstance(metric, str):
        raise Unsupported("cdist metric")
    if getattr(xa, "ndim", 0) != 2 or getattr(xb, "ndim", 0) != 2:
        raise ValueError("XA must be a 2-dimensional array.")
    if xa.shape[1] != xb.shape[1]:
        raise ValueError("XA and XB must have the same number of columns")
    A, B = arr._obj(xa), arr._obj(xb)
    out = np.empty((A.shape[0], B.shape[0]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[0]):
            d = [A[i, k] - B[j, k] for k in range(A.shape[1])]
            s = arr.sum_cells([v * v for v in d])
            if metric == "sqeuclidean":
                out[i, j] = s
            elif metric == "euclidean":
                out[i, j] = s.sqrt() if isinstance(s, Sym) else math.sqrt(s)
            elif metric in ("cityblock",):
                out[i, j] = arr.sum_cells([abs(v) for v in d])
            else:
                raise Unsupported(f"cdist metric {metric}")
    return SArr(arr._norm(out, F64), F64)


EIGH = {}


def _hinted(e, p, q, r):
    """The decomposition announced by the harness, if it is one of this matrix."""
    for a, b, c, s in e.__dict__.get("eig_hints", []):
        w1, w2 = a * a, b * b
        pairs = ((p, w1 * c * c + w2 * s * s), (r, w1 * s * s + w2 * c * c),
                 (q, (w1 - w2) * c * s))
        if all(e.identical(u, v) for u, v in pairs):
            w1.sq, w2.sq = a, b
            sg = Sym.const(Fraction(1 if e.choose(2) == 0 else -1))
            if bool(w1 <= w2):
                return [w1, w2], [[c, -s * sg], [s, c * sg]]
            return [w2, w1], [[-s * sg, c], [c * sg, s]]
    return None


def eigh_model(m):
    """Eigen-decomposition of a symmetric matrix (1x1 and 2x2, exact)."""
    b = arr._obj(m)
    if b.ndim != 2 or b.shape[0] != b.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    n = b.shape[0]
    e = eng()
    if n == 1:
        w, v = [b[0, 0]], [[Sym.const(Fraction(1))]]
    elif n == 2:
        # w1 <= w2, unit eigenvectors; sign and degenerate basis are free
        p, q, r = b[0, 0], b[1, 0], b[1, 1]
        if (hint := _hinted(e, p, q, r)) is not None:
            w, v = hint
        elif bool(q == 0):
            if bool(p <= r):
                w, v = [p, r], [[1, 0], [0, 1]]
            else:
                w, v = [r, p], [[0, 1], [1, 0]]
            v = [[Sym.const(Fraction(x)) for x in row] for row in v]
        else:
            l1, l2 = e.fresh("eig"), e.fresh("eig")
            c, s = e.fresh("cos"), e.fresh("sin")
            pt, qt, rt = (x.term() for x in (p, q, r))
            e.add(z3.And(l1 < l2, l1 + l2 == pt + rt, l1 * l2 == pt * rt - qt * qt,
                         c * c + s * s == 1,
                         pt == l1 * c * c + l2 * s * s,
                         rt == l1 * s * s + l2 * c * c,
                         qt == (l1 - l2) * c * s))
            w = [Sym(l1), Sym(l2)]
            v = [[Sym(c), Sym(-s)], [Sym(s), Sym(c)]]
            e.__dict__.setdefault("eigs", []).append((b, l1, l2, c, s))
    else:
        raise Unsupported("eigh beyond 2x2")
    return arr.sarr(w), arr.sarr(v)


@handles("linalg.eigh")
def _eigh(a, UPLO="L"):
    w, v = eigh_model(a)
    from collections import namedtuple
    R = namedtuple("EighResult", ["eigenvalues", "eigenvectors"])
    return R(w, v)


@handles("linalg.eigvalsh")
def _eigvalsh(a, UPLO="L"):
    return eigh_model(a)[0]


# ---------------------------------------------------------------- loading
LOADED = {}


def load():
    """Import dcor from /repo with the models installed; returns the module."""
    if LOADED:
        return LOADED["dcor"]
    sys.setrecursionlimit(200000)
    import numba
    import joblib
    import scipy.stats
    import scipy.spatial.distance as ssd
    import array_api_compat  # noqa: F401 (before numpy's functions are replaced)
    arr.install()
    # modules that copied numpy's functions by name
    for name, mod in list(sys.modules.items()):
        if name.startswith(("array_api_compat", "array_api_strict")):
            _rebind(mod)
    import array_api_compat.numpy as xpn
    _rebind(xpn)
    numba.njit = numba.jit = _jit
    numba.guvectorize = _guvectorize
    numba.vectorize = _vectorize
    numba.prange = range
    joblib.Parallel = Parallel
    np.random.RandomState_real = np.random.RandomState
    np.random.RandomState = RandomState
    np.random.default_rng = default_rng
    _GlobalRandom().install()
    scipy.stats.t = _TDist(scipy.stats.t)
    rc, rp = ssd.cdist, ssd.pdist

    def cdist(xa, xb, metric="euclidean", **k):
        if active() and (arr.has_sym(xa) or arr.has_sym(xb)):
            return _cdist(xa, xb, metric, **k)
        return rc(xa, xb, metric, **k)
    ssd.cdist = cdist

    def pdist(x, metric="euclidean", **k):
        if active() and arr.has_sym(x):
            d = _cdist(x, x, metric, **k)
            iu = np.triu_indices(x.shape[0], 1)
            return d[iu]
        return rp(x, metric, **k)
    ssd.pdist = pdist
    rsq = ssd.squareform

    def squareform(x, force="no", checks=True):
        if active() and arr.has_sym(x):
            if x.ndim == 1:
                n = int((1 + math.isqrt(1 + 8 * len(x))) // 2)
                out = arr._make((n, n), F64, 0)
                iu = np.triu_indices(n, 1)
                out[iu] = x
                out[iu[1], iu[0]] = x
                return out
            iu = np.triu_indices(x.shape[0], 1)
            return x[iu]
        return rsq(x, force, checks)
    ssd.squareform = squareform
    _strict()
    sys.path.insert(0, REPO)
    for k in [k for k in sys.modules if k == "dcor" or k.startswith("dcor.")]:
        del sys.modules[k]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dcor = importlib.import_module("dcor")
    assert os.path.realpath(dcor.__file__).startswith(os.path.realpath(REPO)), dcor.__file__
    LOADED["dcor"] = dcor
    return dcor


def _strict():
    """array_api_strict wraps (and unwraps) NumPy arrays: here, symbolic ones."""
    try:
        import array_api_strict
        from array_api_strict import _array_object as o
    except ImportError:
        return
    for name, mod in list(sys.modules.items()):
        if name.startswith("array_api_strict"):
            _rebind(mod)
    new = o.Array._new.__func__

    def _new(cls, x, /, device):
        if active() and not isinstance(x, arr.SArr):
            if isinstance(x, Sym):
                x = arr.wrap_scalar(x)
            elif isinstance(x, (np.ndarray, np.generic)) and arr.symbolic_dtype(x.dtype):
                x = arr.p_array(x, x.dtype)
                if not isinstance(x, arr.SArr):
                    x = arr.SArr(np.asarray(x).astype(object), x.dtype)
        return new(cls, x, device)
    o.Array._new = classmethod(_new)


def _rebind(mod):
    for n, real in arr.REAL.items():
        if getattr(mod, n, None) is real:
            setattr(mod, n, getattr(np, n))
