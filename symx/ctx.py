"""The two contexts a harness runs in.

A harness is one Python function ``h(ctx, **params)``.  Under ``SymCtx`` its
inputs are symbolic and its claims become solver obligations; under
``ConcCtx`` the same function runs on concrete numbers against the unpatched
dcor (replay of counterexamples and of per-path witnesses).
"""
from __future__ import annotations

import math
import warnings
from fractions import Fraction

import numpy as np

from .ref import allowed

RTOL = 1e-6
ATOL = 1e-7


class Skip(Exception):
    """Concrete run cannot decide (ill-conditioned in floating point)."""


class Violated(Exception):
    pass


def cells(v):
    """Flat list of the scalar cells of any result, and its shape."""
    if hasattr(v, "_array"):            # array_api_strict
        v = v._array
    if isinstance(v, np.ndarray):
        b = v.view(np.ndarray)
        return [b[i] for i in np.ndindex(*b.shape)] if b.ndim else [b.item()], b.shape
    if isinstance(v, (list, tuple)):
        if v and isinstance(v[0], (list, tuple, np.ndarray)):
            parts = [cells(x) for x in v]
            return [c for p in parts for c in p[0]], (len(v),) + parts[0][1]
        return list(v), (len(v),)
    return [v], ()


def isnan(v):
    return isinstance(v, (float, np.floating)) and v != v


class Base:
    sym = False

    def quiet(self):
        c = warnings.catch_warnings()
        return c

    def perm(self, n, cands=None):
        from itertools import permutations
        cands = list(permutations(range(n))) if cands is None else [tuple(c) for c in cands]
        return cands[self.choose(len(cands))]


class SymCtx(Base):
    sym = True

    def __init__(self, engine, dcor):
        from . import core, arr, env
        self.e = engine
        self.dcor = dcor
        self.core, self.arr, self.env = core, arr, env
        engine.int_claims = set()

    # -- inputs ---------------------------------------------------------------
    def real(self, name, dt=None):
        import z3
        v = z3.Real(name)
        self.e.inputs[name] = v
        return self.core.Sym(v, dt=dt)

    def reals(self, name, *shape, dtype=np.float64):
        dt = np.dtype(dtype)
        if dt.kind == "O":
            self.e.int_claims.add(dt)
        return self.arr.SArr(self._fill(name, shape, lambda nm: self.real(nm)), dt)

    def _fill(self, name, shape, mk):
        b = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            b[ix] = mk(name + "_" + "_".join(map(str, ix)) if ix else name)
        return b

    def ints(self, name, *shape, dtype=np.int64, lo=None, hi=None):
        """Integer array of a fixed-width dtype (all its values)."""
        import z3
        dt = np.dtype(dtype)
        self.e.int_claims.add(dt)
        ii = np.iinfo(dt)
        lo = ii.min if lo is None else lo
        hi = ii.max if hi is None else hi

        def mk(nm):
            k = z3.Int(nm)
            self.e.inputs[nm] = k
            self.e.int_inputs.add(nm)
            self.e.add(z3.And(k >= lo, k <= hi))
            return self.core.Sym(z3.ToReal(k), dt=dt)
        return self.arr.SArr(self._fill(name, shape, mk), dt)

    def integer(self, name, lo=-6, hi=6):
        """An integer-valued real (its float computations are exact)."""
        import z3
        k = z3.Int(name)
        self.e.inputs[name] = k
        self.e.int_inputs.add(name)
        self.e.add(z3.And(k >= lo, k <= hi))
        return self.core.Sym(z3.ToReal(k))

    def array(self, nested, dtype=np.float64):
        return self.arr.sarr(nested, dtype)

    def const(self, v):
        return self.core.Sym.of(Fraction(v) if not isinstance(v, float) else v)

    def sorted_reals(self, name, order, n=None):
        """Values in a fixed weak order.

        ``order[i]`` is the rank of observation i; equal ranks are ties and
        other ranks are separated by a free positive gap.
        """
        ranks = sorted(set(order))
        base = self.real(name + "_base")
        val = {}
        cur = base
        for r in ranks:
            if r != ranks[0]:
                g = self.real(f"{name}_gap{r}")
                self.e.add(g.n > 0)
                self.e.know_sign(g.n, self.core.rv(Fraction(0)), 4)
                g.nonneg = True
                cur = cur + g
            val[r] = cur
        return self.arr.sarr([val[r] for r in order])

    def sorted_ints(self, name, order, dtype, lo=None, hi=None):
        """Integers of a fixed-width dtype in a fixed weak order."""
        import z3
        dt = np.dtype(dtype)
        self.e.int_claims.add(dt)
        ii = np.iinfo(dt)
        lo, hi = ii.min if lo is None else lo, ii.max if hi is None else hi
        zero = self.core.rv(Fraction(0))

        def mk(nm, low):
            k = z3.Int(nm)
            self.e.inputs[nm] = k
            self.e.int_inputs.add(nm)
            self.e.add(k >= low)
            return z3.ToReal(k)
        cur, val, ranks = None, {}, sorted(set(order))
        for r in ranks:
            if cur is None:
                cur = self.core.Sym(mk(name + "_base", lo))
            else:
                g = self.core.Sym(mk(f"{name}_gap{r}", 1))
                self.e.know_sign(g.n, zero, 4)
                g.nonneg = True
                cur = cur + g
            val[r] = cur
        self.e.add(cur.n <= hi)
        out = np.empty(len(order), dtype=object)
        for i, r in enumerate(order):
            v = val[r]
            out[i] = self.core.Sym(v.n, v.d, v.c, v.nonneg, v.sq, dt)
        return self.arr.SArr(out, dt)

    def rotation(self, name):
        """Cosine and sine of an arbitrary angle."""
        co, si = self.real(name + "_cos"), self.real(name + "_sin")
        self.e.add(co.n * co.n + si.n * si.n == 1)
        (ka,), (kb,) = list(self.core.poly_of(co.n))[0], list(self.core.poly_of(si.n))[0]
        self.e.rewrite[kb] = {(): Fraction(1), (ka, ka): Fraction(-1)}
        return co, si

    def eigh_hint(self, a, b, co, si):
        """Announces eigenvalues a*a (along (co, si)) and b*b of a 2 x 2 matrix; the
        model of eigh uses them for a matrix that it can show to be this one."""
        self.e.__dict__.setdefault("eig_hints", []).append((a, b, co, si))

    def choose(self, k):
        return self.e.choose(k)

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise self.core.PathAbort
            return
        self.e.assume(c)

    def single(self, x):
        """The sample in single precision (an input: no rounding is modelled)."""
        self.e.lossless = True
        try:
            return x.astype(np.float32)
        finally:
            self.e.lossless = False

    def guard(self, v, tol=1e-6):
        return v

    def sqrt(self, v):
        if isinstance(v, self.core.Sym):
            return v.sqrt()
        return self.core.Sym.of(v).sqrt()

    def pow(self, v, e):
        return self.core.Sym.of(v) ** e

    def max0(self, v):
        """max(v, 0)"""
        if bool(v < 0):
            return self.core.Sym.const(Fraction(0))
        return v

    def name(self, name, v):
        """An unknown standing for v; later sums equal to v use it (a cut)."""
        v = self.core.Sym.of(v)
        if isinstance(v, float) or v.c is not None or v.d is not None:
            return v
        return self.e.name_poly(name, v)

    def nonneg(self, v, squares=None):
        """Lemma: v >= 0 because it is the sum of the given squares.

        The identity is an obligation of the path; the sign is then available
        to later truth tests and obligations."""
        v = self.core.Sym.of(v)
        if isinstance(v, float) or v.c is not None or v.d is not None:
            return
        if squares is not None:
            t = 0
            for q, s in squares:
                t = (s * s) * q + t
            self._eq1("lemma: sum of squares", v, t)
        self.e.lemma(v.n, 6)

    def t_sf(self, t, df):
        """P(T > t) of Student's t with df degrees of freedom."""
        return 1 - self.env.t_cdf_model(t, df)

    # -- claims ---------------------------------------------------------------
    def eq(self, label, got, want, tol=None):
        g, gs = cells(got)
        w, ws = cells(want)
        if gs != ws and not (len(g) == len(w) == 1):
            self.e.claim(f"{label}: shape {gs} instead of {ws}", False)
            return
        for i, (a, b) in enumerate(zip(g, w)):
            self._eq1(label if len(g) == 1 else f"{label}[{i}]", a, b)

    def _eq1(self, label, a, b):
        Sym = self.core.Sym
        if isinstance(a, (str, bytes)) or a is None or isinstance(b, str) or b is None:
            self.e.claim(label, a == b)
            return
        a, b = Sym.of(a), Sym.of(b)
        if a is None or b is None:
            raise self.core.Unsupported(f"{label}: comparing non-numbers")
        sa, sb = isinstance(a, float), isinstance(b, float)
        if sa or sb:
            ok = sa and sb and (a == b or (a != a and b != b))
            self.e.claim(label if ok else f"{label}: {a} vs {b}", ok)
            return
        r = a == b
        if isinstance(r, bool):
            self.e.claim(label, r)
        else:
            d = a.term() - b.term()
            self.e.claim(label, r, margin=d)

    def le(self, label, a, b, tol=None):
        Sym = self.core.Sym
        (a,), _ = cells(a)
        (b,), _ = cells(b)
        a, b = Sym.of(a), Sym.of(b)
        if isinstance(a, float) or isinstance(b, float):
            self.e.claim(label, bool(a <= b))
            return
        r = a <= b
        if isinstance(r, bool):
            self.e.claim(label, r)
        else:
            self.e.claim(label, r, margin=a.term() - b.term())

    def true(self, label, c):
        if isinstance(c, self.core.SymBool):
            self.e.claim(label, c)
        else:
            self.e.claim(label, bool(c))

    def raises(self, label, exc, fn):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn()
        except exc:
            self.e.claim(label, True)
            return
        except Exception as ex:
            self.e.claim(f"{label}: raised {type(ex).__name__} instead", False)
            return
        self.e.claim(f"{label}: nothing raised", False)

    def rng(self, perms=None, seed=None):
        return self.env.RandomState(seed, perms=perms)

    def generator(self, perms=None):
        return self.env.Generator(None, perms=perms)

    def perm_set(self, perms):
        """Permutations the explorer picks from (default: all of them)."""
        self.e.perm_set = [tuple(p) for p in perms] if perms else None

    def copy_tasks(self, v):
        """Workers get copies of the arguments (processes) or share them (threads)."""
        self.e.copy_tasks = v

    def global_random_used(self):
        return bool(self.e.__dict__.get("global_used"))

    def draws(self, rng):
        return list(rng.log)

    def raw(self, v):
        return v


class ConcCtx(Base):
    sym = False

    def __init__(self, dcor, inputs, choices, exact=False):
        self.dcor = dcor
        self.inputs = {k: Fraction(v) for k, v in inputs.items()}
        self.choices = list(choices)
        self.failed = []
        self.n_claims = 0
        self.exact = exact
        self.rng_table, self.perm_set_, self.copy_tasks_ = {}, None, True
        self.global_rng, self.global_used = None, False
        CUR[:] = [self]

    def real(self, name, dt=None):
        v = self.inputs.get(name, Fraction(0))
        return np.float64(float(v))

    def _v(self, name):
        return self.inputs.get(name, Fraction(0))

    def reals(self, name, *shape, dtype=np.float64):
        dt = np.dtype(dtype)
        out = np.empty(shape, dtype=dt)
        for ix in np.ndindex(*shape):
            v = self._v(name + "_" + "_".join(map(str, ix)) if ix else name)
            out[ix] = v if dt.kind == "O" else float(v)
        return out

    def ints(self, name, *shape, dtype=np.int64, lo=None, hi=None):
        out = np.empty(shape, dtype=dtype)
        for ix in np.ndindex(*shape):
            out[ix] = int(self._v(name + "_" + "_".join(map(str, ix)) if ix else name))
        return out

    def integer(self, name, lo=-6, hi=6):
        return np.float64(int(self._v(name)))

    def array(self, nested, dtype=np.float64):
        return np.array(nested, dtype=dtype)

    def const(self, v):
        return np.float64(float(v))

    def sorted_reals(self, name, order, n=None):
        ranks = sorted(set(order))
        cur = self._v(name + "_base")
        val = {}
        for r in ranks:
            if r != ranks[0]:
                cur = cur + self._v(f"{name}_gap{r}")
            val[r] = float(cur)
        return np.array([val[r] for r in order])

    def sorted_ints(self, name, order, dtype, lo=None, hi=None):
        cur, val = int(self._v(name + "_base")), {}
        for r in sorted(set(order)):
            if r != min(order):
                cur += int(self.inputs.get(f"{name}_gap{r}", 1))
            val[r] = cur
        return np.array([val[r] for r in order], dtype=dtype)

    def rotation(self, name):
        co, si = float(self._v(name + "_cos")), float(self._v(name + "_sin"))
        h = math.hypot(co, si) or 1.0
        return np.float64(co / h), np.float64(si / h)

    def eigh_hint(self, a, b, co, si):
        pass

    def choose(self, k):
        if not self.choices:
            return 0
        return self.choices.pop(0) % k

    def assume(self, c):
        if not bool(c):
            raise Skip("assumption does not hold for the rounded values")

    def single(self, x):
        return x.astype(np.float32)

    def guard(self, v, tol=1e-6):
        if not self.exact and abs(float(v)) < tol:
            raise Skip("ill-conditioned")
        return v

    def sqrt(self, v):
        v = float(v)
        return np.float64(math.sqrt(v)) if v >= 0 else np.float64("nan")

    def pow(self, v, e):
        return np.float64(v) ** np.float64(e)

    def max0(self, v):
        return v if v > 0 else np.float64(0)

    def name(self, name, v):
        return v

    def nonneg(self, v, squares=None):
        pass

    def t_sf(self, t, df):
        import scipy.stats
        return scipy.stats.t.sf(float(t), df)

    def _fail(self, label, detail):
        self.failed.append((label, detail))

    def eq(self, label, got, want, tol=None):
        self.n_claims += 1
        g, gs = cells(got)
        w, ws = cells(want)
        if gs != ws and not (len(g) == len(w) == 1):
            self._fail(label, f"shape {gs} instead of {ws}")
            return
        for a, b in zip(g, w):
            if isinstance(a, str) or a is None or isinstance(b, str) or b is None:
                ok = a == b
            else:
                a, b = float(a), float(b)
                if a != a or b != b:
                    ok = a != a and b != b
                elif math.isinf(a) or math.isinf(b):
                    ok = a == b
                else:
                    t = tol if tol is not None else ATOL + RTOL * max(abs(a), abs(b))
                    ok = abs(a - b) <= t
            if not ok:
                self._fail(label, f"got {a!r}, expected {b!r}")
                return

    def le(self, label, a, b, tol=1e-6):
        self.n_claims += 1
        (a,), _ = cells(a)
        (b,), _ = cells(b)
        if not float(a) <= float(b) + (tol or 1e-6) * max(1.0, abs(float(b))):
            self._fail(label, f"{float(a)!r} > {float(b)!r}")

    def true(self, label, c):
        self.n_claims += 1
        if not bool(c):
            self._fail(label, "false")

    def raises(self, label, exc, fn):
        self.n_claims += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn()
        except exc:
            return
        except Exception as ex:
            self._fail(label, f"raised {type(ex).__name__}: {ex}")
            return
        self._fail(label, f"nothing raised; returned {r!r}")

    def rng(self, perms=None, seed=None):
        return REPLAY["RandomState"](seed, perms)

    def generator(self, perms=None):
        return REPLAY["Generator"](None, perms)

    def perm_set(self, perms):
        self.perm_set_ = [tuple(p) for p in perms] if perms else None

    def copy_tasks(self, v):
        self.copy_tasks_ = v

    def global_random_used(self):
        return self.global_used

    def draws(self, rng):
        return list(rng.log)


# Replay: numpy's generators and joblib's scheduler, steered by the choices of
# the counterexample.
REPLAY = {}
CUR = []


class _ReplayPerms:
    def _setup(self, seed, perms):
        self.seed_, self.allowed, self.log = seed, perms, []
        self.key_ = ("seed", type(self).__name__, int(seed)) \
            if isinstance(seed, (int, np.integer)) else ("obj", _serial())

    def permutation(self, x, axis=0):
        if not CUR:
            return super().permutation(x)
        ctx = CUR[-1]
        n = x if isinstance(x, (int, np.integer)) else np.shape(x)[axis]
        key = (self.key_, len(self.log), n)
        if key not in ctx.rng_table:
            c = allowed(self.allowed, len(self.log)) or ctx.perm_set_
            c = [tuple(p) for p in c if len(p) == n] if c else None
            ctx.rng_table[key] = ctx.perm(n, c or None)
        p = ctx.rng_table[key]
        self.log.append(p)
        p = np.array(p, dtype=np.int64)
        return p if isinstance(x, (int, np.integer)) else np.take(x, p, axis=axis)

    def shuffle(self, x, axis=0):
        p = self.permutation(len(x))
        x[...] = np.asarray(x)[p]

    def __reduce__(self):
        return (_rebuild, (type(self).__name__, self.seed_, self.allowed, self.key_,
                           list(self.log)))


def _serial():
    _serial.k = getattr(_serial, "k", 0) + 1
    return _serial.k


def _rebuild(kind, seed, allowed, key, log):
    o = REPLAY[kind](seed, allowed)
    o.key_, o.log = key, log
    return o


def install_replay():
    """Before dcor is imported in the replay process."""
    import joblib
    import pickle
    from cloudpickle import dumps

    RS = np.random.RandomState

    class RandomState(_ReplayPerms, RS):
        def __init__(self, seed=None, perms=None):
            RS.__init__(self, 0 if seed is None else seed)
            self._setup(seed, perms)

    class Generator(_ReplayPerms, np.random.Generator):
        def __init__(self, seed=None, perms=None):
            np.random.Generator.__init__(self, np.random.PCG64(0))
            self._setup(seed, perms)
    REPLAY.update(RandomState=RandomState, Generator=Generator)
    np.random.RandomState = RandomState
    np.random.default_rng = lambda s=None: s if isinstance(s, np.random.Generator) \
        else Generator(s)

    class Singleton(RandomState):
        def permutation(self, x, axis=0):
            ctx = CUR[-1]
            ctx.global_used = True
            if ctx.global_rng is None:
                ctx.global_rng = RandomState()
            return ctx.global_rng.permutation(x, axis)

        def __reduce__(self):
            return (cur, ())

    def cur():
        return np.random.mtrand._rand
    np.random.mtrand._rand = np.random._rand = Singleton()
    np.random.mtrand.RandomState = RandomState

    def seed(k=None):
        CUR[-1].global_used = True
        CUR[-1].global_rng = RandomState(k)
    np.random.permutation = lambda x: cur().permutation(x)
    np.random.shuffle = lambda x: cur().shuffle(x)
    np.random.seed = seed

    class Parallel:
        """joblib with several workers: tasks finish in the chosen order, each
        on a pickled copy of its arguments when the workers are processes."""

        def __init__(self, n_jobs=None, *a, **k):
            self.n_jobs = n_jobs

        def __call__(self, iterable):
            if self.n_jobs in (None, 1):
                return [f(*a, **k) for f, a, k in iterable]
            ctx = CUR[-1]
            tasks = list(iterable)
            out, left = [None] * len(tasks), list(range(len(tasks)))
            while left:
                i = left.pop(ctx.choose(min(len(left), 3)))
                f, a, k = tasks[i]
                if ctx.copy_tasks_:
                    f, a, k = pickle.loads(dumps((f, a, k)))
                out[i] = f(*a, **k)
            return out

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    joblib.Parallel = Parallel
