"""NumPy arrays of symbolic values.

``SArr`` is a NumPy array (object cells, each a :class:`Sym` or a NaN/inf
float) that *claims* a C dtype, so that dtype-dependent code in dcor takes the
branch it takes for real arrays of that dtype.  NumPy functions run on the
object cells; the claimed dtype of each result is found by running the same
NumPy function on a dummy array of the claimed dtypes.
Comparisons and masks are resolved at once (path forks), so boolean and index
arrays are ordinary NumPy arrays.
"""
from __future__ import annotations

import functools
import itertools
import math
import sys
import warnings
from fractions import Fraction

import numpy as np
import z3

from .core import (NAN, INF, Engine, Sym, SymBool, Unsupported, const_of, eng,
                   is_special, t_sum)

F64 = np.dtype(np.float64)
OBJ = np.dtype(object)

REAL = {}          # original numpy functions, filled by install()


def active():
    return Engine.cur is not None


def ndindex(*shape):
    return itertools.product(*map(range, shape))


def _internal_caller():
    """Called from NumPy's or SciPy's own code (two frames up)?"""
    return sys._getframe(2).f_globals.get("__name__", "").startswith(("numpy", "scipy", "symx"))


# --------------------------------------------------------------------------
# cells
# --------------------------------------------------------------------------

def to_cell(v, dt):
    """A value as stored into an array that claims dtype dt."""
    if type(v) is Sym:
        if dt.kind in "iu":
            if v.dt == dt:
                return v
            if v.dt is not None or v.c is not None:
                return v._cast_int(dt)
            raise Unsupported("storing a symbolic real into an integer array")
        if v.dt is not None and dt.kind == "f":
            return Sym(v.n, v.d, v.c, v.nonneg, v.sq)
        return v
    if isinstance(v, SymBool):
        v = bool(v)
    c = const_of(v)
    if c is None:
        if isinstance(v, np.ndarray) and v.ndim == 0:
            return to_cell(v.item() if not isinstance(v, SArr) else
                           v.view(np.ndarray).item(), dt)
        raise Unsupported(f"cell of type {type(v).__name__}")
    if isinstance(c, float):
        if dt.kind in "iu":
            raise Unsupported("storing nan/inf into an integer array")
        return np.float64(c)
    if dt.kind in "iu":
        return Sym.const(c)._cast_int(dt)
    return Sym.const(c)


def _norm(base, dt):
    """Make every cell canonical, in place; returns base."""
    flat = base.reshape(-1) if base.flags.c_contiguous else None
    if flat is None:
        base = base.copy()
        flat = base.reshape(-1)
    isint = dt.kind in "iu"
    for i in range(flat.shape[0]):
        v = flat[i]
        if type(v) is Sym and (v.dt is None if not isint else v.dt == dt):
            continue
        flat[i] = to_cell(v, dt)
    return base


class SArr(np.ndarray):
    _cdt = F64

    def __new__(cls, base, dt=F64):
        obj = base.view(cls)
        obj._cdt = np.dtype(dt)
        return obj

    def __array_finalize__(self, obj):
        if obj is None:
            return
        self._cdt = getattr(obj, "_cdt", F64)

    # -- look like an array of the claimed dtype ------------------------------
    @property
    def dtype(self):
        return self._cdt

    @property
    def itemsize(self):
        return self._cdt.itemsize

    @property
    def nbytes(self):
        return self._cdt.itemsize * self.size

    @property
    def base_(self):
        return self.view(np.ndarray)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return do_function(func, args, kwargs)

    def __array_namespace__(self, *, api_version=None):
        import array_api_compat.numpy as xp
        return xp

    # -- indexing -------------------------------------------------------------
    def __getitem__(self, k):
        r = self.view(np.ndarray)[_index(k)]
        if isinstance(r, np.ndarray):
            return SArr(r, self._cdt)
        return r

    def __setitem__(self, k, v):
        b = self.view(np.ndarray)
        b[_index(k)] = _cells_of(v, self._cdt)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return bool(np.any(self == v))

    # -- conversions ----------------------------------------------------------
    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dtype)
        if not np.can_cast(self._cdt, dt, casting):
            raise TypeError(f"Cannot cast array data from {self._cdt} to {dt} "
                            f"according to the rule '{casting}'")
        return cast(self, dt, copy)

    def copy(self, order="C"):
        return SArr(self.view(np.ndarray).copy(order=order), self._cdt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def fill(self, v):
        self[...] = v

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, a[0])
        if not a and not k:
            return SArr(np.ndarray.view(self, np.ndarray), self._cdt)
        raise Unsupported("view with another dtype")

    def flatten(self, order="C"):
        return SArr(self.view(np.ndarray).flatten(order), self._cdt)

    def ravel(self, order="C"):
        return SArr(self.view(np.ndarray).ravel(order), self._cdt)

    def reshape(self, *a, **k):
        return SArr(self.view(np.ndarray).reshape(*a, **k), self._cdt)

    def transpose(self, *a):
        return SArr(self.view(np.ndarray).transpose(*a), self._cdt)

    def squeeze(self, axis=None):
        return SArr(self.view(np.ndarray).squeeze(axis), self._cdt)

    def swapaxes(self, a, b):
        return SArr(self.view(np.ndarray).swapaxes(a, b), self._cdt)

    @property
    def T(self):
        return self.transpose()

    @property
    def mT(self):
        return self.swapaxes(-1, -2)

    @property
    def flat(self):
        return self.view(np.ndarray).flat

    @property
    def real(self):
        return self

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = np.sort(self, axis=axis, kind=kind)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one "
                             "element is ambiguous. Use a.any() or a.all()")
        v = self.view(np.ndarray).reshape(-1)[0]
        return bool(v)

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self.view(np.ndarray).reshape(-1)[0])

    def __int__(self):
        return int(self.view(np.ndarray).reshape(-1)[0])

    def __index__(self):
        if self._cdt.kind not in "iu" or self.ndim != 0:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self.view(np.ndarray).item().__index__()

    def __repr__(self):
        return f"SArr(shape={self.shape}, dtype={self._cdt})"
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _delegate(name):
    f = getattr(np, name)

    def m(self, *a, **k):
        return f(self, *a, **k)
    m.__name__ = name
    return m


for _nm in ("sum mean var std prod cumsum cumprod max min argmax argmin argsort "
            "any all dot take repeat diagonal trace clip round nonzero compress "
            "searchsorted ptp").split():
    setattr(SArr, _nm, _delegate(_nm))


def _index(k):
    if isinstance(k, tuple):
        return tuple(_index1(x) for x in k)
    return _index1(k)


def _index1(k):
    if isinstance(k, SArr):
        if k._cdt.kind in "iu":
            b = k.view(np.ndarray)
            out = np.empty(b.shape, dtype=k._cdt)
            for i in ndindex(*b.shape):
                out[i] = b[i].__index__()
            return out
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(k, Sym):
        if k.dt is not None or k.c is not None:
            if k.dt is None:
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                                 "numpy.newaxis (`None`) and integer or boolean "
                                 "arrays are valid indices")
            return k.__index__()
        raise IndexError("symbolic real used as an index")
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, list):
        return [_index1(x) for x in k]
    return k


def _cells_of(v, dt):
    if isinstance(v, SArr):
        b = v.view(np.ndarray)
        if v._cdt == dt:
            return b
        return _narrowed(_norm(b.copy(), dt), v._cdt, dt) if b.ndim else to_cell(b.item(), dt)
    if isinstance(v, np.ndarray):
        b = v.astype(object)
        return _norm(b, dt) if b.ndim else to_cell(v.item(), dt)
    if isinstance(v, (list, tuple)):
        b = np.empty(np.shape(v) if not _has_sym(v) else _shape(v), dtype=object)
        b[...] = REAL["array"](v, dtype=object)
        return _norm(b, dt)
    return to_cell(v, dt)


def _has_sym(v):
    if isinstance(v, (Sym, SArr, SymBool)):
        return True
    if isinstance(v, (list, tuple)):
        return any(_has_sym(x) for x in v)
    return False


def _shape(v):
    return REAL["array"](_strip(v), dtype=object).shape


def _strip(v):
    if isinstance(v, SArr):
        return v.view(np.ndarray)
    if isinstance(v, (list, tuple)):
        return [_strip(x) for x in v]
    return v


def wrap_scalar(v, dt=None):
    b = np.empty((), dtype=object)
    b[()] = v
    if dt is None:
        dt = v.dtype if isinstance(v, Sym) else F64
    return SArr(b, dt)


def sarr(values, dt=F64):
    """SArr from nested lists of values."""
    b = REAL.get("array", np.array)(values, dtype=object)
    return SArr(_norm(b, np.dtype(dt)), dt)


def _narrowed(b, src, dt):
    """Cells of type src after a conversion to the float type dt (in place)."""
    e = Engine.cur
    if e is None or e.lossless or dt.kind != "f" or dt.itemsize >= 8:
        return b
    if src.kind in "iu" and src.itemsize * 8 <= np.finfo(dt).nmant + 1:
        return b
    if src.kind == "f" and src.itemsize <= dt.itemsize or src.kind in "bO":
        return b
    for i in ndindex(*b.shape):
        b[i] = e.narrow(b[i], dt, src.kind in "iu")
    return b


def cast(a, dt, copy=True):
    b = a.view(np.ndarray)
    if dt == a._cdt:
        return SArr(b.copy(), dt) if copy else a
    if dt.kind == "O":
        # exact objects: keep the symbolic cells, claim object
        return SArr(b.copy(), dt)
    if dt.kind == "b":
        out = np.empty(b.shape, dtype=bool)
        for i in ndindex(*b.shape):
            out[i] = bool(b[i] != 0)
        return out
    if dt.kind == "f":
        return SArr(_narrowed(_norm(b.copy(), dt), a._cdt, dt), dt)
    if dt.kind in "iu":
        if all(type(v) is Sym and v.c is not None for v in b.reshape(-1)):
            out = np.empty(b.shape, dtype=dt)
            for i in ndindex(*b.shape):
                out[i] = math.trunc(b[i].c)
            return out
        if a._cdt.kind in "iu":
            return SArr(_norm(b.copy(), dt), dt)
    raise Unsupported(f"astype({dt}) of a symbolic {a._cdt} array")


# --------------------------------------------------------------------------
# result dtypes by dummies
# --------------------------------------------------------------------------

_PATTERN = [1, 2, 3, 1, 5, 2, 7, 3, 4, 1, 6]


def dummy(v):
    if isinstance(v, SArr):
        if v._cdt.kind == "O":
            d = REAL["empty"](v.shape, dtype=object)
            d[...] = Fraction(1)
            return d
        d = REAL["empty"](v.shape, dtype=v._cdt)
        if d.ndim:
            f = d.reshape(-1)
            for i in range(f.shape[0]):
                f[i] = _PATTERN[i % 11]
        else:
            d[()] = 1
        return d
    if isinstance(v, Sym):
        if v.dtype.kind == "O":
            return Fraction(1)
        return v.dtype.type(1)
    if isinstance(v, SymBool):
        return np.bool_(True)
    if type(v) in (list, tuple):
        return type(v)(dummy(x) for x in v)
    if type(v) is dict:
        return {k: dummy(x) for k, x in v.items()}
    return v


def strip(v):
    if isinstance(v, SArr):
        return v.view(np.ndarray)
    if isinstance(v, Sym):
        b = np.empty((), dtype=object)
        b[()] = v
        return b
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, np.ndarray) and v.dtype.kind == "f":
        return _norm(v.astype(object), F64)
    if isinstance(v, (float, np.floating)):
        b = np.empty((), dtype=object)
        b[()] = to_cell(v, F64)
        return b
    if type(v) in (list, tuple):
        return type(v)(strip(x) for x in v)
    if type(v) is dict:
        return {k: strip(x) for k, x in v.items()}
    return v


def has_sym(v):
    if isinstance(v, (SArr, Sym, SymBool)):
        return True
    if isinstance(v, (list, tuple)):
        return any(has_sym(x) for x in v)
    if isinstance(v, dict):
        return any(has_sym(x) for x in v.values())
    return False


def dress(r, d):
    """Give result r (on objects) the dtypes of the dummy result d."""
    if isinstance(r, (list, tuple)) and isinstance(d, (list, tuple)):
        items = [dress(x, y) for x, y in zip(r, d)]
        if hasattr(r, "_fields"):
            return type(r)(*items)
        return type(r)(items)
    dt = getattr(d, "dtype", None)
    if isinstance(r, np.ndarray) and r.dtype == OBJ:
        if dt is None:
            dt = F64
        if dt.kind == "b":
            out = np.empty(r.shape, dtype=bool)
            for i in ndindex(*r.shape):
                out[i] = bool(r[i])
            return out if out.ndim or isinstance(d, np.ndarray) else out[()]
        if dt.kind not in "fiuO":
            raise Unsupported(f"result dtype {dt}")
        if r.ndim == 0 and not isinstance(d, np.ndarray):
            return to_cell(r.item(), dt)
        return SArr(_norm(r.view(np.ndarray), dt), dt)
    if isinstance(r, np.ndarray):
        return r
    if isinstance(r, SymBool):
        return np.bool_(bool(r))
    if type(r) is Sym or is_special(r):
        if dt is not None and dt.kind == "b":
            return np.bool_(bool(r))
        return to_cell(r, dt if dt is not None and dt.kind in "fiu" else F64)
    if isinstance(r, (int, float, Fraction)) and dt is not None and dt.kind == "f":
        return to_cell(r, dt)
    return r


_quiet = dict(divide="ignore", invalid="ignore", over="ignore", under="ignore")


def _dummy_call(f, args, kw):
    with warnings.catch_warnings(), REAL["errstate"](**_quiet):
        warnings.simplefilter("ignore")
        tok = Engine.cur
        Engine.cur = None
        try:
            return f(*args, **kw)
        finally:
            Engine.cur = tok


# --------------------------------------------------------------------------
# ufuncs
# --------------------------------------------------------------------------

def sum_cells(cells):
    """Sum of a list of cells with one n-ary z3 addition."""
    r = _sum_cells(cells)
    e = Engine.cur
    if e is not None and e.named and type(r) is Sym and r.c is None and r.d is None:
        return e.use_name(r)
    return r


def _sum_cells(cells):
    terms, const, rest = [], Fraction(0), []
    nonneg = True
    for v in cells:
        if type(v) is not Sym or v.dt is not None:
            rest.append(v)
        elif v.c is not None:
            const += v.c
        elif v.d is None:
            terms.append(v.n)
            nonneg = nonneg and v.nonneg
        else:
            rest.append(v)
    if not terms:
        r = Sym.const(const)
    else:
        if const:
            from .core import rv
            terms.append(rv(const))
            nonneg = nonneg and const >= 0
        r = Sym(terms[0] if len(terms) == 1 else t_sum(terms), None, None, nonneg)
    for v in rest:
        r = r + v
    if rest and all(type(v) is Sym and v.dt is not None for v in rest) and not terms and not const:
        r = rest[0]
        for v in rest[1:]:
            r = r + v
    return r


def _cells_nd(v):
    if isinstance(v, SArr):
        return v.view(np.ndarray)
    b = strip(v)
    if not isinstance(b, np.ndarray):
        b = REAL["asarray"](b, dtype=object)
    return b


def _matmul(a, b):
    a, b = _cells_nd(a), _cells_nd(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim > 2 or b.ndim > 2:
        return REAL["matmul"](a, b)
    A = a[None, :] if a.ndim == 1 else a
    B = b[:, None] if b.ndim == 1 else b
    if A.shape[1] != B.shape[0]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core "
                         f"dimension 0 (size {B.shape[0]} is different from {A.shape[1]})")
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = sum_cells([A[i, k] * B[k, j] for k in range(A.shape[1])])
    e = Engine.cur
    if e is not None and e.noise and a.ndim == b.ndim == 1:
        out[0, 0] = e.rounded(out[0, 0])
    if a.ndim == 1:
        out = out[0]
    if b.ndim == 1:
        out = out[..., 0]
    if not isinstance(out, np.ndarray):
        o = np.empty((), dtype=object)
        o[()] = out
        out = o
    return out


def _reduce_add(b, axis, keepdims):
    if axis is None:
        axes = tuple(range(b.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % b.ndim for x in axis)
    else:
        if not -b.ndim <= axis < b.ndim:
            raise np.AxisError(axis, b.ndim)
        axes = (axis % b.ndim,)
    keep = [i for i in range(b.ndim) if i not in axes]
    t = b.transpose(keep + list(axes))
    shp = tuple(b.shape[i] for i in keep)
    t = t.reshape(shp + (-1,)) if axes else t[..., None]
    out = np.empty(shp, dtype=object)
    for i in ndindex(*shp):
        out[i] = sum_cells(list(t[i]))
    if keepdims:
        out = out.reshape([1 if i in axes else b.shape[i] for i in range(b.ndim)])
    return out


_NOOBJ = {}


def _elementwise_special(name):
    def test(v):
        if type(v) is Sym:
            return name == "isfinite"
        v = float(v)
        return bool(getattr(math, name)(v))
    return test


def do_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    outs = kw.pop("out", None)
    name = ufunc.__name__
    if method == "at":
        return _ufunc_at(ufunc, inputs)
    if outs is not None and any(isinstance(o, np.ndarray) and not isinstance(o, SArr)
                                for o in outs) and not has_sym(inputs):
        # only the output is ... not symbolic at all
        pass
    dargs = [dummy(v) for v in inputs]
    dkw = dict(kw)
    if outs is not None:
        dkw["out"] = tuple(dummy(o).copy() if isinstance(o, np.ndarray) else o for o in outs)
    key = None
    d = _dummy_call(getattr(ufunc, method), dargs, dkw)   # also raises what NumPy raises
    where = kw.pop("where", True)
    ddt = getattr(d, "dtype", None)
    if ddt is not None and ddt.kind in "fiu" and (
            method in ("reduce", "accumulate") or kw.get("dtype") is not None):
        # the operands are converted first
        inputs = tuple(cast(v, ddt) if isinstance(v, SArr) and v._cdt.kind in "iu"
                       and v._cdt != ddt and (i == 0 or method == "__call__") else v
                       for i, v in enumerate(inputs))
    kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    kw.pop("signature", None)
    if where is not True:
        where = strip(where)
    if method == "__call__":
        if name in ("isnan", "isinf", "isfinite"):
            b = _cells_nd(inputs[0])
            t = _elementwise_special(name)
            r = np.empty(b.shape, dtype=bool)
            for i in ndindex(*b.shape):
                r[i] = t(b[i])
            if not isinstance(d, np.ndarray):
                r = r[()]
        elif name == "matmul":
            r = _matmul(*inputs)
        elif name in ("sqrt", "square", "absolute", "fabs", "negative", "positive",
                      "reciprocal", "conjugate", "sign"):
            b = _cells_nd(inputs[0])
            r = np.empty(b.shape, dtype=object)
            f = _UNARY[name]
            for i in ndindex(*b.shape):
                r[i] = f(b[i])
        elif name in _BINARY:
            r = _binary(_BINARY[name], *inputs, where=where,
                        outs=outs, shape=getattr(d, "shape", ()))
            where = True
        elif name in ("floor", "ceil", "rint", "trunc"):
            b = _cells_nd(inputs[0])
            r = np.empty(b.shape, dtype=object)
            for i in ndindex(*b.shape):
                v = b[i]
                if type(v) is Sym and v.c is not None:
                    v = Sym.const(Fraction({"floor": math.floor, "ceil": math.ceil,
                                            "rint": round, "trunc": math.trunc}[name](v.c)))
                elif not is_special(v):
                    raise Unsupported(f"{name} of a symbolic value")
                r[i] = v
        elif "O" * ufunc.nin in [t.split("->")[0] for t in ufunc.types]:
            ins = [strip(v) for v in inputs]
            r = ufunc(*ins)
            if not isinstance(r, (np.ndarray, tuple)):
                o = np.empty((), dtype=object)
                o[()] = r
                r = o if type(r) is Sym or is_special(r) else r
        else:
            raise Unsupported(f"ufunc {name} on symbolic values")
        if where is not True and not isinstance(where, (bool, np.bool_)):
            raise Unsupported("where= on a ufunc")
    elif method == "reduce":
        b = _cells_nd(inputs[0])
        axis = kw.pop("axis", inputs[1] if len(inputs) > 1 else 0)
        keep = kw.pop("keepdims", False)
        init = kw.pop("initial", None)
        if where is not True:
            w = np.broadcast_to(where, b.shape)
            ident = ufunc.identity if init is None else init
            if ident is None:
                raise Unsupported("where reduction without identity")
            bb = np.empty(b.shape, dtype=object)
            for i in ndindex(*b.shape):
                bb[i] = b[i] if w[i] else Sym.const(Fraction(ident))
            b = bb
        if name == "add":
            r = _reduce_add(b, axis, keep)
            if init is not None and init is not np._NoValue:
                r = r + init
        else:
            k2 = dict(axis=axis, keepdims=keep)
            if init is not None and init is not np._NoValue:
                k2["initial"] = init
            r = ufunc.reduce(b, **k2)
            if not isinstance(r, np.ndarray):
                o = np.empty((), dtype=object)
                o[()] = r
                r = o
    elif method in ("accumulate", "outer", "reduceat"):
        ins = [strip(v) for v in inputs]
        r = getattr(ufunc, method)(*ins, **kw)
    else:
        raise Unsupported(f"ufunc method {method}")
    if outs is not None:
        if isinstance(r, tuple):
            raise Unsupported("multiple outputs")
        o = outs[0]
        if not isinstance(o, SArr):
            if isinstance(r, np.ndarray) and r.dtype != OBJ:
                o[...] = r
                return o
            if o.dtype.kind == "b":
                o[...] = dress(r, d)
                return o
            raise Unsupported("symbolic result written into a concrete array")
        o.view(np.ndarray)[...] = _norm(REAL["asarray"](r, dtype=object).copy(), o._cdt) \
            if isinstance(r, np.ndarray) and r.ndim else to_cell(
                r.item() if isinstance(r, np.ndarray) else r, o._cdt)
        return o
    return dress(r, d)


def _sqrt_cell(v):
    if type(v) is Sym:
        return v.sqrt()
    return np.float64(NAN if v != v or v < 0 else v)


def _sign_cell(v):
    if type(v) is Sym:
        if bool(v == 0):
            return Sym.const(Fraction(0))
        return Sym.const(Fraction(1 if bool(v > 0) else -1))
    return np.sign(v)


_UNARY = {
    "sqrt": _sqrt_cell, "square": lambda v: v * v, "absolute": abs, "fabs": abs,
    "negative": lambda v: -v, "positive": lambda v: v, "conjugate": lambda v: v,
    "reciprocal": lambda v: 1 / v if type(v) is Sym else np.float64(1) / v,
    "sign": _sign_cell,
}


def _max(a, b):
    if is_special(a) and a != a:
        return a
    if is_special(b) and b != b:
        return b
    return a if bool(a >= b) else b


def _min(a, b):
    if is_special(a) and a != a:
        return a
    if is_special(b) and b != b:
        return b
    return a if bool(a <= b) else b


def _hyp(a, b):
    return (a * a + b * b).sqrt()


def _b(f):
    return lambda a, b: bool(f(a, b))


_BINARY = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b, "divide": lambda a, b: a / b,
    "true_divide": lambda a, b: a / b, "power": lambda a, b: a ** b,
    "float_power": lambda a, b: a ** b,
    "maximum": _max, "minimum": _min, "fmax": _max, "fmin": _min, "hypot": _hyp,
    "less": _b(lambda a, b: a < b), "less_equal": _b(lambda a, b: a <= b),
    "greater": _b(lambda a, b: a > b), "greater_equal": _b(lambda a, b: a >= b),
    "equal": _b(lambda a, b: a == b), "not_equal": _b(lambda a, b: a != b),
    "logical_and": _b(lambda a, b: bool(a != 0) and bool(b != 0)),
    "logical_or": _b(lambda a, b: bool(a != 0) or bool(b != 0)),
    "logical_xor": _b(lambda a, b: bool(a != 0) != bool(b != 0)),
}
_CMP = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal",
        "logical_and", "logical_or", "logical_xor"}


def _obj(v):
    """object ndarray of Sym cells for any numeric operand."""
    if isinstance(v, SArr):
        return v.view(np.ndarray)
    if isinstance(v, np.ndarray):
        b = v.astype(object)
        dt = v.dtype
        f = b.reshape(-1)
        for i in range(f.shape[0]):
            f[i] = _operand(f[i], dt)
        return f.reshape(v.shape)
    o = np.empty((), dtype=object)
    o[()] = _operand(v, getattr(v, "dtype", None))
    return o


def _operand(v, dt):
    if type(v) is Sym:
        return v
    if isinstance(v, SymBool):
        v = bool(v)
    c = const_of(v)
    if c is None:
        raise Unsupported(f"operand of type {type(v).__name__}")
    if isinstance(c, float):
        return np.float64(c)
    # integers of a concrete array: no dtype tag needed, they act as exact ints
    return Sym.const(c)


def _binary(f, a, b, where=True, outs=None, shape=()):
    A, B = _obj(a), _obj(b)
    A, B = np.broadcast_arrays(A, B)
    boolean = f in _CMPF
    r = np.empty(A.shape, dtype=bool if boolean else object)
    if where is not True:
        W = np.broadcast_to(where, A.shape)
        if outs is None:
            raise Unsupported("where= without out=")
        prev = np.broadcast_to(_obj(outs[0]), A.shape)
    for i in ndindex(*A.shape):
        if where is not True and not W[i]:
            r[i] = prev[i]
        else:
            u, v = A[i], B[i]
            if type(v) is Sym and isinstance(u, np.floating):
                u = float(u)    # NaN or infinity: NumPy would dispatch back to here
            r[i] = f(u, v)
    return r


_CMPF = {_BINARY[k] for k in _CMP}


def _ufunc_at(ufunc, inputs):
    a, idx = inputs[0], inputs[1]
    if not isinstance(a, SArr):
        raise Unsupported("ufunc.at on a concrete array with symbolic values")
    b = a.view(np.ndarray)
    args = [_index(idx)]
    if len(inputs) > 2:
        args.append(_cells_of(inputs[2], a._cdt) if not isinstance(inputs[2], Sym)
                    else inputs[2])
    ufunc.at(b, *args)
    _norm_inplace(b, a._cdt)


def _norm_inplace(b, dt):
    for i in ndindex(*b.shape):
        v = b[i]
        if not (type(v) is Sym and (v.dt is None or v.dt == dt)):
            b[i] = to_cell(v, dt)


# --------------------------------------------------------------------------
# numpy functions
# --------------------------------------------------------------------------

HANDLERS = {}


def handles(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


def do_function(func, args, kwargs):
    mod = getattr(func, "__module__", "") or ""
    name = func.__name__
    full = ("linalg." if "linalg" in mod else "") + name
    h = HANDLERS.get(full)
    if h is not None:
        return h(*args, **kwargs)
    if full in _INPLACE:
        return func(*[strip(a) for a in args], **{k: strip(v) for k, v in kwargs.items()})
    d = _dummy_call(func, [_copyd(dummy(a)) for a in args],
                    {k: _copyd(dummy(v)) for k, v in kwargs.items()})
    out = kwargs.pop("out", None)
    if "dtype" in kwargs:
        kwargs = {k: v for k, v in kwargs.items() if k != "dtype"}
    r = func(*[strip(a) for a in args], **{k: strip(v) for k, v in kwargs.items()})
    r = dress(r, d)
    if out is not None:
        out[...] = r
        return out
    return r


def _copyd(v):
    return v


_INPLACE = {"fill_diagonal", "put", "putmask", "place", "put_along_axis"}


def _res(out, r):
    if out is not None:
        out[...] = r
        return out
    return r


def _like_dt(a, dtype):
    if dtype is not None:
        return np.dtype(dtype)
    return a.dtype if isinstance(a, (SArr, Sym)) else np.asarray(a).dtype


def _make(shape, dt, value):
    if symbolic_dtype(dt):
        b = REAL["empty"](shape, dtype=object)
        if value is GARBAGE:
            for i in ndindex(*b.shape):
                b[i] = _garbage(dt)
            return SArr(b, dt)
        c = value if type(value) is Sym or is_special(value) else to_cell(value, dt)
        for i in ndindex(*b.shape):
            b[i] = c
        return SArr(b, dt)
    if type(value) is Sym:
        raise Unsupported("symbolic fill value for a concrete array")
    return REAL["full"](shape, 0 if value is GARBAGE else value, dtype=dt)


GARBAGE = object()


def _garbage(dt):
    """Content of uninitialised memory: an unknown."""
    if dt.kind != "f":
        return to_cell(0, dt)
    e = eng()
    v = e.fresh("garbage")
    e.garbage.append(v)
    return Sym(v)


def symbolic_dtype(dt):
    return dt.kind == "f" or (dt.kind in "iuO" and active()
                              and dt in getattr(eng(), "int_claims", ()))


@handles("empty_like")
def _empty_like(a, dtype=None, order="K", subok=True, shape=None):
    return _make(np.shape(strip(a)) if shape is None else shape, _like_dt(a, dtype), GARBAGE)


@handles("zeros_like")
def _zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    return _make(np.shape(strip(a)) if shape is None else shape, _like_dt(a, dtype), 0)


@handles("ones_like")
def _ones_like(a, dtype=None, order="K", subok=True, shape=None):
    return _make(np.shape(strip(a)) if shape is None else shape, _like_dt(a, dtype), 1)


@handles("full_like")
def _full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    return _make(np.shape(strip(a)) if shape is None else shape, _like_dt(a, dtype), fill_value)


@handles("copy")
def _copy(a, order="K", subok=False):
    return a.copy() if isinstance(a, SArr) else wrap_scalar(a)


@handles("shape")
def _shape_of(a):
    return a.shape


@handles("ndim")
def _ndim(a):
    return a.ndim


@handles("size")
def _size(a, axis=None):
    return a.size if axis is None else a.shape[axis]


@handles("result_type")
def _result_type(*a):
    return REAL["result_type"](*[dummy(x) for x in a])


@handles("can_cast")
def _can_cast(a, to, casting="safe"):
    return REAL["can_cast"](dummy(a), to, casting)


@handles("iscomplexobj")
def _iscomplexobj(x):
    return False


@handles("isrealobj")
def _isrealobj(x):
    return True


@handles("sum")
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    k = {}
    if initial is not None and initial is not np._NoValue:
        k["initial"] = initial
    if keepdims is np._NoValue:
        keepdims = False
    if where is np._NoValue:
        where = True
    kw = dict(axis=axis, keepdims=keepdims, where=where, **k)
    if dtype is not None:
        kw["dtype"] = dtype
    a2 = a if isinstance(a, (SArr, Sym)) else REAL_asarray(a)
    if isinstance(a2, Sym):
        return a2
    r = do_ufunc(np.add, "reduce", (a2,), kw)
    return _res(out, r)


def REAL_asarray(a):
    return p_array(a)


@handles("mean")
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    if isinstance(a, Sym):
        return a
    if not isinstance(a, SArr):
        a = p_array(a)
    if where is not True and where is not np._NoValue:
        raise Unsupported("mean(where=)")
    if keepdims is np._NoValue:
        keepdims = False
    if a._cdt.kind in "iu":
        a = cast(a, F64)
    b = a.view(np.ndarray)
    axes = tuple(range(b.ndim)) if axis is None else (axis if isinstance(axis, tuple) else (axis,))
    n = 1
    for x in axes:
        n *= b.shape[x]
    s = _sum(a, axis=axis, keepdims=keepdims)
    if n == 0:
        return _res(out, s * NAN)
    return _res(out, s / n)


@handles("average")
def _average(a, axis=None, weights=None, returned=False, **k):
    if weights is None and not returned:
        return _mean(a, axis=axis)
    if returned:
        raise Unsupported("average(returned=True)")
    w = weights
    return _sum(a * w, axis=axis) / np.sum(w, axis=axis)


@handles("var")
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, **k):
    if isinstance(a, SArr) and a._cdt.kind in "iu":
        a = cast(a, F64)
    if keepdims is np._NoValue:
        keepdims = False
    m = _mean(a, axis=axis, keepdims=True)
    dlt = a - m
    sq = dlt * dlt
    axes = tuple(range(a.ndim)) if axis is None else (axis if isinstance(axis, tuple) else (axis,))
    n = 1
    for x in axes:
        n *= a.shape[x]
    s = _sum(sq, axis=axis, keepdims=keepdims)
    return _res(out, s / max(n - ddof, 0))


@handles("std")
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, **k):
    return _res(out, np.sqrt(_var(a, axis=axis, ddof=ddof, keepdims=keepdims)))


@handles("cov")
def _np_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, dtype=None):
    if y is not None or fweights is not None or aweights is not None:
        raise Unsupported("np.cov with y or weights")
    X = m if m.ndim == 2 else m.reshape(1, -1)
    if not rowvar and m.ndim == 2:
        X = X.T
    if ddof is None:
        ddof = 0 if bias else 1
    X = X - _mean(X, axis=1, keepdims=True)
    r = (X @ X.T) / (X.shape[1] - ddof)
    return np.squeeze(r)


# --- order ---

def cmp_le(a, b):
    """a <= b for sorting, NaN last."""
    if is_special(a) and a != a:
        return is_special(b) and b != b
    if is_special(b) and b != b:
        return True
    return bool(a <= b)


def argsort_1d(cells, kind=None):
    n = len(cells)
    e = eng()
    order = []
    nondet = kind not in ("stable", "mergesort") and getattr(e, "tie_nondet", False)
    hint = getattr(e, "order_hint", None)
    for i in range(n):
        # insertion into the sorted prefix by binary search from the right
        lo, hi = 0, len(order)
        while lo < hi:
            mid = (lo + hi) // 2
            if cmp_le(cells[order[mid]], cells[i]):
                lo = mid + 1
            else:
                hi = mid
        if nondet and lo > 0:
            # ties may come out in any order
            while lo > 0 and bool(cells[order[lo - 1]] == cells[i]):
                if e.choose(2):
                    lo -= 1
                else:
                    break
        order.insert(lo, i)
    return order


def _along(a, axis, f, dt):
    b = a.view(np.ndarray)
    if axis is None:
        b = b.reshape(-1)
        axis = -1
    if b.ndim == 0:
        b = b.reshape(1)
    t = np.moveaxis(b, axis, -1)
    out = np.empty(t.shape, dtype=dt)
    for i in ndindex(*t.shape[:-1]):
        out[i] = f(list(t[i]))
    return np.moveaxis(out, -1, axis)


@handles("argsort")
def _argsort(a, axis=-1, kind=None, order=None, stable=None):
    if stable:
        kind = "stable"
    return np.ascontiguousarray(_along(a, axis, lambda c: argsort_1d(c, kind), np.int64))


@handles("sort")
def _sort(a, axis=-1, kind=None, order=None, stable=None):
    def f(c):
        o = argsort_1d(c, "stable")
        r = np.empty(len(c), dtype=object)
        for i, j in enumerate(o):
            r[i] = c[j]
        return r
    return SArr(np.ascontiguousarray(_along(a, axis, f, object)), a._cdt)


@handles("lexsort")
def _lexsort(keys, axis=-1):
    ks = [list(_obj(k)) for k in keys]
    n = len(ks[0])
    order = list(range(n))
    for k in ks:
        o = argsort_1d([k[i] for i in order], "stable")
        order = [order[i] for i in o]
    return np.array(order, dtype=np.int64)


@handles("searchsorted")
def _searchsorted(a, v, side="left", sorter=None):
    c = list(_obj(a))
    if sorter is not None:
        c = [c[i] for i in sorter]

    def one(x):
        for i, y in enumerate(c):
            if side == "left":
                if not bool(y < x):
                    return i
            elif bool(y > x):
                return i
        return len(c)
    vv = _obj(v)
    out = np.empty(vv.shape, dtype=np.int64)
    for i in ndindex(*vv.shape):
        out[i] = one(vv[i])
    return out if out.ndim else int(out[()])


@handles("unique")
def _unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if axis is not None:
        raise Unsupported("unique(axis=)")
    c = list(ar.view(np.ndarray).reshape(-1))
    o = argsort_1d(c, "stable")
    vals, idx, cnt = [], [], []
    inv = np.zeros(len(c), dtype=np.int64)
    for i in o:
        if vals and bool(c[i] == vals[-1]):
            cnt[-1] += 1
        else:
            vals.append(c[i])
            idx.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    b = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        b[i] = v
    r = [SArr(b, ar._cdt)]
    if return_index:
        r.append(np.array(idx))
    if return_inverse:
        r.append(inv)
    if return_counts:
        r.append(np.array(cnt))
    return r[0] if len(r) == 1 else tuple(r)


@handles("median")
def _median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    if keepdims:
        raise Unsupported("median(keepdims)")
    s = _sort(a if axis is not None else a.reshape(-1), axis=-1 if axis is None else axis)
    t = s if axis is None else np.moveaxis(s, axis, -1)
    n = t.shape[-1]
    h = n // 2
    r = t[..., h] if n % 2 else (t[..., h - 1] + t[..., h]) / 2
    return _res(out, r)


def _fold(f, a, axis, keepdims, what):
    if isinstance(a, Sym):
        return a
    b = a.view(np.ndarray)
    if axis is None:
        cells = list(b.reshape(-1))
        if not cells:
            raise ValueError(f"zero-size array to reduction operation {what} which has no identity")
        r = functools.reduce(f, cells)
        if keepdims is True:
            o = np.empty((1,) * b.ndim, dtype=object)
            o[...] = r
            return SArr(o, a._cdt)
        return r
    t = np.moveaxis(b, axis, -1)
    out = np.empty(t.shape[:-1], dtype=object)
    for i in ndindex(*out.shape):
        out[i] = functools.reduce(f, list(t[i]))
    if keepdims is True:
        out = np.expand_dims(out, axis)
    return SArr(out, a._cdt) if out.ndim else out[()]


@handles("max", "amax")
def _amax(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return _res(out, _fold(_max, a, axis, keepdims, "maximum"))


@handles("min", "amin")
def _amin(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return _res(out, _fold(_min, a, axis, keepdims, "minimum"))


@handles("ptp")
def _ptp(a, axis=None, out=None, keepdims=False):
    return _res(out, _amax(a, axis) - _amin(a, axis))


@handles("clip")
def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = a
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return _res(out, r)


@handles("any")
def _any(a, axis=None, out=None, keepdims=False, **k):
    return np.any(cast(a, np.dtype(bool)), axis=axis)


@handles("all")
def _all(a, axis=None, out=None, keepdims=False, **k):
    return np.all(cast(a, np.dtype(bool)), axis=axis)


def _boolcast(a):
    if isinstance(a, Sym):
        return np.bool_(bool(a != 0))
    return cast(a, np.dtype(bool)) if isinstance(a, SArr) else a


@handles("nonzero")
def _nonzero(a):
    return np.nonzero(_boolcast(a))


@handles("flatnonzero")
def _flatnonzero(a):
    return np.flatnonzero(_boolcast(a))


@handles("argwhere")
def _argwhere(a):
    return np.argwhere(_boolcast(a))


@handles("count_nonzero")
def _count_nonzero(a, axis=None, **k):
    return np.count_nonzero(_boolcast(a), axis=axis, **k)


@handles("where")
def _where(c, *xy):
    if isinstance(c, (SArr, Sym)):
        c = _boolcast(c)
    if isinstance(c, SymBool):
        c = bool(c)
    if not xy:
        return np.where(c)
    x, y = xy
    d = _dummy_call(REAL["where"], [c, dummy(x), dummy(y)], {})
    r = REAL["where"](c, _obj(x), _obj(y))
    return dress(r, d)


@handles("select")
def _select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = np.where(c, v, r)
    return r


@handles("nan_to_num")
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if isinstance(x, Sym):
        return x
    b = x.view(np.ndarray)
    r = b.copy() if copy else b
    for i in ndindex(*b.shape):
        v = b[i]
        if is_special(v):
            if v != v:
                r[i] = to_cell(nan, x._cdt)
            else:
                w = posinf if v > 0 else neginf
                if w is None:
                    w = np.finfo(x._cdt).max if v > 0 else np.finfo(x._cdt).min
                r[i] = to_cell(float(w), x._cdt)
    return SArr(r, x._cdt)


@handles("isclose")
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    A, B = np.broadcast_arrays(_obj(a), _obj(b))
    r = np.empty(A.shape, dtype=bool)
    for i in ndindex(*A.shape):
        u, v = A[i], B[i]
        if is_special(u) or is_special(v):
            r[i] = (u == v) if (is_special(u) and is_special(v)) else False
            if equal_nan and is_special(u) and is_special(v) and u != u and v != v:
                r[i] = True
        else:
            r[i] = bool(abs(u - v) <= abs(v) * rtol + atol)
    return r if r.ndim else r[()]


@handles("allclose")
def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.all(_isclose(a, b, rtol, atol, equal_nan)))


@handles("array_equal", "array_equiv")
def _array_equal(a, b, equal_nan=False):
    A, B = _obj(a), _obj(b)
    if A.shape != B.shape:
        return False
    return all(bool(u == v) for u, v in zip(A.reshape(-1), B.reshape(-1)))


@handles("sign")
def _sign(a):
    return do_ufunc(np.sign, "__call__", (a,), {})


@handles("round", "around", "round_", "fix")
def _round(a, *k, **kw):
    raise Unsupported("rounding of symbolic values")


@handles("cumsum")
def _cumsum(a, axis=None, dtype=None, out=None):
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    d = _dummy_call(REAL["cumsum"], [dummy(a)], dict(axis=axis, **({"dtype": dtype} if dtype is not None else {})))
    r = np.add.accumulate(a.view(np.ndarray), axis=axis)
    return _res(out, dress(r, d))


@handles("dot")
def _dot(a, b, out=None):
    A = a if isinstance(a, (SArr, np.ndarray)) else _obj(a)
    B = b if isinstance(b, (SArr, np.ndarray)) else _obj(b)
    if A.ndim == 0 or B.ndim == 0:
        return _res(out, np.multiply(a, b))
    return _res(out, do_ufunc(np.matmul, "__call__", (a, b), {}))


@handles("vdot", "inner")
def _vdot(a, b):
    if np.ndim(a) == 2 and np.ndim(b) == 2:
        if _vdot.__name__ == "vdot":
            pass
    a1, b1 = np.reshape(a, (-1,)), np.reshape(b, (-1,))
    return do_ufunc(np.matmul, "__call__", (a1, b1), {})


@handles("inner")
def _inner(a, b):
    if np.ndim(a) == 1 and np.ndim(b) == 1:
        return _vdot(a, b)
    return a @ np.swapaxes(b, -1, -2)


@handles("vecdot")
def _vecdot(a, b, axis=-1):
    return _sum(a * b, axis=axis)


@handles("linalg.norm")
def _norm_(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro"):
        raise Unsupported(f"norm ord={ord}")
    if ord == 2 and axis is None and x.ndim != 1:
        raise Unsupported("spectral norm")
    return np.sqrt(_sum(x * x, axis=axis, keepdims=keepdims))


@handles("linalg.eigh", "linalg.eigvalsh", "linalg.eig", "linalg.svd",
         "linalg.inv", "linalg.pinv", "linalg.cholesky", "linalg.solve", "linalg.det",
         "linalg.matrix_rank", "linalg.qr", "linalg.lstsq")
def _linalg(*a, **k):
    raise Unsupported("numpy.linalg factorisation of a symbolic matrix")


@handles("einsum")
def _einsum(*ops, **kw):
    kw.pop("optimize", None)
    d = _dummy_call(REAL["einsum"], [dummy(o) for o in ops], dict(kw))
    if not isinstance(ops[0], str):
        raise Unsupported("einsum sublist format")
    spec = ops[0].replace(" ", "")
    arrs = [_obj(o) for o in ops[1:]]
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    if "->" in spec:
        ins, outp = spec.split("->")
    else:
        ins = spec
        ls = [c for c in ins if c != ","]
        outp = "".join(sorted(c for c in set(ls) if ls.count(c) == 1))
    ins = ins.split(",")
    size = {}
    for s, a in zip(ins, arrs):
        for c, n in zip(s, a.shape):
            size[c] = n
    inner = [c for c in size if c not in outp]
    out = np.empty([size[c] for c in outp], dtype=object)
    for oi in ndindex(*out.shape):
        env = dict(zip(outp, oi))
        terms = []
        for ii in itertools.product(*[range(size[c]) for c in inner]):
            env.update(zip(inner, ii))
            t = Sym.const(Fraction(1))
            for s, a in zip(ins, arrs):
                t = t * a[tuple(env[c] for c in s)]
            terms.append(t)
        out[oi] = sum_cells(terms)
    return dress(out, d)


@handles("outer")
def _outer(a, b, out=None):
    return _res(out, np.reshape(a, (-1, 1)) * np.reshape(b, (1, -1)))


@handles("array_repr", "array_str", "array2string")
def _array_repr(a, *x, **k):
    return repr(a)


@handles("save", "savetxt")
def _nosave(*a, **k):
    raise Unsupported("saving symbolic arrays")


@handles("asarray", "asanyarray", "array", "ascontiguousarray")
def _h_asarray(*a, **k):
    return p_array(*a, **k)


@handles("copyto")
def _copyto(dst, src, casting="same_kind", where=True):
    if not isinstance(dst, SArr):
        raise Unsupported("copyto a concrete array")
    sdt = getattr(src, "dtype", None)
    if sdt is not None and not np.can_cast(sdt, dst._cdt, casting):
        raise TypeError("Cannot cast array data")
    if where is True:
        dst[...] = src
    else:
        w = np.broadcast_to(np.asarray(where), dst.shape)
        s = np.broadcast_to(_obj(src), dst.shape)
        for i in ndindex(*dst.shape):
            if w[i]:
                dst[i] = s[i]


@handles("may_share_memory", "shares_memory")
def _shares(a, b, *k):
    return REAL["shares_memory"](strip(a), strip(b))


@handles("apply_along_axis")
def _aaa(f, axis, a, *args, **kw):
    t = np.moveaxis(a, axis, -1)
    if t.ndim != 2:
        raise Unsupported("apply_along_axis ndim")
    return p_array([f(t[i], *args, **kw) for i in range(t.shape[0])])


# --------------------------------------------------------------------------
# creation functions (installed over numpy's while exploring)
# --------------------------------------------------------------------------

def _common_dt(v):
    dts = []

    def walk(x):
        if isinstance(x, (SArr, Sym)):
            dts.append(x.dtype)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, (np.ndarray, np.generic)):
            dts.append(x.dtype)
        elif isinstance(x, bool):
            dts.append(np.dtype(bool))
        elif isinstance(x, int):
            dts.append(np.dtype(np.int64))
        elif isinstance(x, float):
            dts.append(F64)
        elif isinstance(x, SymBool):
            dts.append(np.dtype(bool))
        elif isinstance(x, Fraction):
            dts.append(OBJ)
        else:
            raise Unsupported(f"array of {type(x).__name__}")
    walk(v)
    return np.result_type(*dts) if dts else F64


def p_array(obj, dtype=None, *, copy=True, order="K", subok=False, ndmin=0, like=None):
    """np.array for objects holding symbolic values."""
    if isinstance(obj, SArr):
        dt = obj._cdt if dtype is None else np.dtype(dtype)
        if dt == obj._cdt:
            r = obj.copy() if copy else obj
        else:
            r = cast(obj, dt)
    else:
        if isinstance(obj, Sym):
            dt = obj.dtype if dtype is None else np.dtype(dtype)
            r = cast(wrap_scalar(obj), dt, False)
        elif isinstance(obj, SymBool):
            return REAL["array"](bool(obj))
        else:
            if not isinstance(obj, (list, tuple)):
                obj = list(obj)
            dt0 = _common_dt(obj)
            b = REAL["array"](_strip(obj), dtype=object)
            if dt0.kind == "b":
                r = REAL["array"]([bool(v) for v in b.reshape(-1)]).reshape(b.shape)
                return r if dtype is None else r.astype(dtype)
            r = SArr(_norm(b, dt0), dt0)
            if dtype is not None and np.dtype(dtype) != dt0:
                r = cast(r, np.dtype(dtype))
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def install():
    """Replace numpy's creation functions by versions that know SArr."""
    if REAL:
        return
    for n in ("array asarray asanyarray ascontiguousarray asfortranarray zeros ones "
              "empty full eye identity where cumsum einsum matmul errstate result_type "
              "can_cast shares_memory sqrt linspace fromiter require").split():
        REAL[n] = getattr(np, n)

    def conv(name, copy, contiguous=False):
        real = REAL[name]

        @functools.wraps(real)
        def f(obj, dtype=None, *a, **k):
            if active() and has_sym(obj):
                c = k.pop("copy", copy)
                if c is None:
                    c = False
                k.pop("like", None)
                k.pop("order", None)
                r = p_array(obj, dtype, copy=c, **k)
                if contiguous and isinstance(r, SArr):
                    if not r.flags.c_contiguous:
                        r = r.copy()
                    if r.ndim == 0:
                        r = r.reshape(1)
                return r
            r = real(obj, dtype, *a, **k)
            if active() and not _internal_caller() and isinstance(r, np.ndarray) \
                    and not isinstance(obj, np.ndarray) \
                    and r.dtype.kind == "f" and type(r) is np.ndarray:
                # an array created by the program: may later hold symbolic values
                return SArr(_norm(r.astype(object), r.dtype), r.dtype)
            return r
        return f

    np.array = conv("array", True)
    np.asarray = conv("asarray", False)
    np.asanyarray = conv("asanyarray", False)
    np.ascontiguousarray = conv("ascontiguousarray", False, True)
    np.asfortranarray = conv("asfortranarray", False)

    def crea(name, value):
        real = REAL[name]

        @functools.wraps(real)
        def f(shape, dtype=None, *a, **k):
            dt = np.dtype(float if dtype is None else dtype)
            if active() and symbolic_dtype(dt) and not _internal_caller():
                return _make(shape, dt, value)
            return real(shape, dtype if dtype is not None else float, *a, **k)
        return f
    np.zeros = crea("zeros", 0)
    np.ones = crea("ones", 1)
    np.empty = crea("empty", GARBAGE)

    @functools.wraps(REAL["full"])
    def full(shape, fill_value, dtype=None, *a, **k):
        if active() and not _internal_caller():
            if dtype is None:
                dt = np.dtype(fill_value.dtype) if hasattr(fill_value, "dtype") else \
                    REAL["array"](fill_value).dtype
            else:
                dt = np.dtype(dtype)
            if symbolic_dtype(dt):
                return _make(shape, dt, fill_value)
        return REAL["full"](shape, fill_value, dtype, *a, **k)
    np.full = full

    @functools.wraps(REAL["eye"])
    def eye(N, M=None, k=0, dtype=float, *a, **kw):
        r = REAL["eye"](N, M, k, dtype, *a, **kw)
        if active() and symbolic_dtype(r.dtype) and not _internal_caller():
            return SArr(_norm(r.astype(object), r.dtype), r.dtype)
        return r
    np.eye = eye

    @functools.wraps(REAL["identity"])
    def identity(n, dtype=None, **kw):
        return np.eye(n, dtype=float if dtype is None else dtype)
    np.identity = identity

    class Sqrt:
        """np.sqrt: exact for concrete numbers while exploring."""

        def __init__(self, real):
            self.__dict__["_real"] = real
            functools.update_wrapper(self, real)

        def __call__(self, x, *a, **k):
            if active() and not a and not k and isinstance(x, (int, float, np.integer, np.floating)) \
                    and not isinstance(x, bool):
                c = const_of(x)
                if isinstance(c, float):
                    return self._real(x)
                if c < 0:
                    return NAN
                return Sym.const(c).sqrt()
            return self._real(x, *a, **k)

        def __getattr__(self, n):
            return getattr(self.__dict__["_real"], n)
    np.sqrt = Sqrt(REAL["sqrt"])
    _rs = math.sqrt

    def msqrt(x):
        if isinstance(x, Sym):
            return x.sqrt()
        if active() and isinstance(x, (int, float)):
            c = const_of(x)
            if not isinstance(c, float) and c >= 0:
                return Sym.const(c).sqrt()
        return _rs(x)
    math.sqrt = msqrt
