"""Symbolic execution core: symbolic exact numbers, path exploration, z3 queries.

A ``Sym`` is a quotient ``num/den`` of two z3 real terms (``den`` known to be
non-zero on the current path).  It overloads Python's arithmetic, so that
dcor's own source, run by the ordinary interpreter on NumPy object arrays of
``Sym``, builds the z3 term of what it computes.  Truth tests (``if``, ``and``,
sorting comparisons, mask creation, ...) call :meth:`Engine.branch`, which asks
z3 which outcomes are feasible and explores every feasible one (by
re-execution with a recorded decision prefix).
"""
from __future__ import annotations

import math
import os
import sys
import time
import traceback
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
import numpy as np  # noqa: E402

NAN = np.float64("nan")
INF = np.float64("inf")


class Unsupported(BaseException):
    """The executed code did something the symbolic model has no meaning for.

    BaseException so that an ``except Exception`` in the code under test does
    not swallow it.
    """


class PathAbort(BaseException):
    """The current path is infeasible (an assumption failed)."""


class Budget(BaseException):
    """Path or time budget of the task is used up."""


# --------------------------------------------------------------------------
# constants
# --------------------------------------------------------------------------

_float_cache: dict = {}


def rationalize(f: float) -> Fraction:
    """The rational a float constant of the program stands for.

    Float constants that the code computes from sample sizes (``n*m/(n+m)``)
    denote simple rationals: the simplest one within 4 ulp is taken, when it
    has a small denominator; otherwise the float's exact value.
    """
    r = _float_cache.get(f)
    if r is not None:
        return r
    exact = Fraction(f)
    r = exact
    if exact.denominator > 4096:
        cand = exact.limit_denominator(20000)
        if abs(cand - exact) <= 4 * Fraction(math.ulp(f)):
            r = cand
    _float_cache[f] = r
    return r


_rv_cache: dict = {}


def rv(c: Fraction):
    e = _rv_cache.get(c)
    if e is None:
        e = z3.RealVal(str(c))
        _rv_cache[c] = e
    return e


_ONE = Fraction(1)

# -- fast term construction (z3py's operators spend most time on sort checks) --
_ctx = z3.main_ctx()
_cref = _ctx.ref()


class _Raw:
    """z3's C functions without z3py's per-call error check."""

    def __init__(self):
        for n in ("Z3_get_ast_id Z3_mk_add Z3_mk_sub Z3_mk_mul Z3_mk_eq Z3_mk_distinct "
                  "Z3_mk_lt Z3_mk_le Z3_mk_gt Z3_mk_ge").split():
            f = getattr(z3.z3core, n)
            d = f.__defaults__
            setattr(self, n, d[0].f if d and hasattr(d[0], "f") else f)


_lib = _Raw()
_A2 = z3.Ast * 2


def tid(e):
    return _lib.Z3_get_ast_id(_cref, e.ast)


def t_add(a, b):
    return z3.ArithRef(_lib.Z3_mk_add(_cref, 2, _A2(a.ast, b.ast)), _ctx)


def t_sub(a, b):
    return z3.ArithRef(_lib.Z3_mk_sub(_cref, 2, _A2(a.ast, b.ast)), _ctx)


def t_mul(a, b):
    return z3.ArithRef(_lib.Z3_mk_mul(_cref, 2, _A2(a.ast, b.ast)), _ctx)


def t_sum(ts):
    n = len(ts)
    return z3.ArithRef(_lib.Z3_mk_add(_cref, n, (z3.Ast * n)(*[t.ast for t in ts])), _ctx)


def t_cmp(op, a, b):
    if op == "==":
        r = _lib.Z3_mk_eq(_cref, a.ast, b.ast)
    elif op == "!=":
        r = _lib.Z3_mk_distinct(_cref, 2, _A2(a.ast, b.ast))
    else:
        r = getattr(_lib, {"<": "Z3_mk_lt", "<=": "Z3_mk_le", ">": "Z3_mk_gt",
                           ">=": "Z3_mk_ge"}[op])(_cref, a.ast, b.ast)
    return z3.BoolRef(r, _ctx)


# --------------------------------------------------------------------------
# polynomials (canonical forms used as memo keys; not used to decide anything)
# --------------------------------------------------------------------------

class TooBig(Exception):
    pass


_poly_cache: dict = {}
_poly_keep: list = []


def poly_of(e, limit=4000):
    """Canonical polynomial {monomial: coefficient} of a z3 arithmetic term."""
    k = e.get_id()
    p = _poly_cache.get(k)
    if p is not None:
        return p
    if z3.is_rational_value(e) or z3.is_int_value(e):
        c = Fraction(e.as_fraction()) if z3.is_rational_value(e) else Fraction(e.as_long())
        p = {(): c} if c else {}
    elif z3.is_add(e):
        p = {}
        for ch in e.children():
            for m, c in poly_of(ch, limit).items():
                p[m] = p.get(m, 0) + c
        p = {m: c for m, c in p.items() if c}
    elif z3.is_sub(e):
        ch = e.children()
        p = dict(poly_of(ch[0], limit))
        for x in ch[1:]:
            for m, c in poly_of(x, limit).items():
                p[m] = p.get(m, 0) - c
        p = {m: c for m, c in p.items() if c}
    elif z3.is_mul(e):
        p = {(): Fraction(1)}
        for ch in e.children():
            q = poly_of(ch, limit)
            if len(p) * len(q) > limit * 10:
                raise TooBig
            r = {}
            for m1, c1 in p.items():
                for m2, c2 in q.items():
                    m = tuple(sorted(m1 + m2))
                    r[m] = r.get(m, 0) + c1 * c2
            p = {m: c for m, c in r.items() if c}
    elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
        p = {m: -c for m, c in poly_of(e.arg(0), limit).items()}
    elif z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        p = {(e.get_id(),): Fraction(1)}
        _atoms[e.get_id()] = e
    else:
        p = {(e.get_id(),): Fraction(1)}
        _atoms[e.get_id()] = e
    if len(p) > limit:
        raise TooBig
    _poly_cache[k] = p
    _poly_keep.append(e)
    return p


_atoms: dict = {}


def poly_key(p):
    return tuple(sorted(p.items()))


def clear_poly():
    _poly_cache.clear()
    _poly_keep.clear()
    _atoms.clear()


def square_root_linear(p):
    """If p is the square of a linear form, return that form, else None."""
    if not p:
        return {}
    lin = {}
    for m, c in p.items():
        if len(m) == 2 and m[0] == m[1]:
            if c < 0:
                return None
            s = _frac_sqrt(c)
            if s is None:
                return None
            lin[m[0]] = s
        elif m == ():
            if c < 0:
                return None
            s = _frac_sqrt(c)
            if s is None:
                return None
            lin[()] = s
        elif len(m) > 2:
            return None
    if not lin:
        return None
    ks = sorted(lin, key=str)
    # fix signs relative to the first
    k0 = ks[0]
    out = {k0: lin[k0]}
    for k in ks[1:]:
        m = _mk(k0, k)
        c = p.get(m, 0)
        want = 2 * lin[k0] * lin[k]
        if c == want:
            out[k] = lin[k]
        elif c == -want:
            out[k] = -lin[k]
        else:
            return None
    # verify
    chk = {}
    for a, ca in out.items():
        for b, cb in out.items():
            m = _mk(a, b)
            chk[m] = chk.get(m, 0) + ca * cb
    chk = {m: c for m, c in chk.items() if c}
    return out if chk == p else None


def _mk(a, b):
    return tuple(sorted(([] if a == () else [a]) + ([] if b == () else [b])))


def _frac_sqrt(c: Fraction):
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


# --------------------------------------------------------------------------
# engine
# --------------------------------------------------------------------------

_MIRROR = [0, 4, 2, 6, 1, 5, 3, 7]
_OPMASK = {"<": 1, "<=": 3, "==": 2, "!=": 5, ">": 4, ">=": 6}


def _divides(z, m):
    return all(m.count(a) >= z.count(a) for a in z)


def _smul(a, b):
    r = 0
    for x in (-1, 0, 1):
        for y in (-1, 0, 1):
            if a >> (x + 1) & 1 and b >> (y + 1) & 1:
                r |= 1 << (x * y + 1)
    return r


def _sadd(a, b):
    r = 0
    for x in (-1, 0, 1):
        for y in (-1, 0, 1):
            if a >> (x + 1) & 1 and b >> (y + 1) & 1:
                r |= 7 if x * y < 0 else 1 << ((x or y) + 1)
    return r


class Failure:
    def __init__(self, label, kind, model, choices, detail="", garbage=False):
        self.label, self.kind, self.model = label, kind, model
        self.garbage = garbage
        self.choices, self.detail = choices, detail


class Engine:
    """One exploration of one harness."""

    cur: "Engine" = None  # type: ignore
    abs_atoms = False
    reduced_signs = False    # also look signs up modulo rewriting and common factors

    def __init__(self, *, max_paths=100000, deadline=None, branch_ms=2000,
                 query_ms=20000, max_failures=2):
        self.max_failures = max_failures
        self.max_paths = max_paths
        self.deadline = deadline
        self.branch_ms = branch_ms
        self.query_ms = query_ms
        self.stats = dict(paths=0, infeasible=0, branches=0, branch_queries=0,
                          queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0,
                          asserts=0, trivial=0, cells=0)
        self.failures: list[Failure] = []
        self.inconclusive: list[str] = []
        self.witnesses: list = []
        self.want_witnesses = 0

    # ---- per path -------------------------------------------------------
    def _start_path(self, prefix):
        self.prefix = prefix
        self.trail = []          # decisions taken on this path
        self.choices = []        # values of ctx.choose (for replay)
        self.solver = z3.Solver()
        self.solver.set("timeout", self.branch_ms)
        self.pc = []             # all constraints (branch + defs + assumes)
        self.inputs = {}         # name -> z3 const
        self.int_inputs = set()
        self.sqrt_memo = {}
        self.sqrt_poly = []
        self.eqs = []            # (atom, term) equalities usable as rewrites
        self.rewrite = {}        # (v, v) -> polynomial equal to v*v
        self.abs_memo = {}
        self.abs_src = {}
        self.signs = {}
        self.rsigns = {}         # signs of reduced polynomials without common factor
        self.garbage = []
        self.pow_memo = {}
        self.sqrt_src = {}
        self.pow_src = {}
        self.facts = {}          # z3 id -> known truth
        self._keep = []
        self.n_fresh = 0
        self.pending = []        # assertions of this path
        self.cmps = []
        self.lemmas = []
        self.name_ids = set()
        self.zero_monos = []     # monomials known to be 0 on this path
        self.named = {}          # normalised polynomial -> (unknown, leading coefficient)
        self._rule_cache = None
        self.lin_only = True
        self._last_model = None

    def fresh(self, base):
        self.n_fresh += 1
        return z3.Real(f"{base}!{self.n_fresh}")

    noise = False       # inner products carry a small free error

    def rounded(self, v):
        """v with a rounding error of unknown sign."""
        if type(v) is not Sym:
            return v
        d = self.fresh("eps")
        u = Fraction(1, 2 ** 40)
        self.add(z3.And(d >= rv(-u), d <= rv(u)))
        return v + Sym(d)

    lossless = False    # while a harness itself makes inputs of a narrow type

    def narrow(self, v, dt, isint):
        """v stored in a float type narrower than double."""
        if self.lossless or type(v) is not Sym:
            return v
        bits = np.finfo(dt).nmant + 1
        if isint:
            # the nearest number with that many bits (ties: either)
            for j in range(64 - bits):
                if bool(abs(v) <= 2 ** (bits + j)):
                    break
            if j == 0:
                return v
            self.n_fresh += 1
            k = z3.Int(f"narrow!{self.n_fresh}")
            r = Sym(z3.ToReal(k) * rv(Fraction(2 ** j)))
            d = (r - v).n
            h = Fraction(2 ** (j - 1))
            self.add(z3.And(d >= rv(-h), d <= rv(h)))
            return r
        d = self.fresh("narrow")
        u = Fraction(1, 2 ** bits)
        self.add(z3.And(d >= rv(-u), d <= rv(u)))
        return v * (Sym(d) + 1)

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)
        self._last_model = None

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats["branch_queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return r

    def assume(self, cond):
        c = cond.e if isinstance(cond, SymBool) else cond
        if isinstance(cond, SymBool) and cond.cmp is not None:
            self.know_sign(cond.cmp[0], cond.cmp[1], _OPMASK[cond.cmp[2]])
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathAbort
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort
        self.add(c)
        self._remember(c, True)
        if self._check() == z3.unsat:
            raise PathAbort

    def _remember(self, c, val):
        self.facts[c.get_id()] = val
        self._keep.append(c)

    # sign facts about polynomials: bit 1 negative, 2 zero, 4 positive
    def _sign_key(self, l, r):
        try:
            p = dict(poly_of(l, 3000))
            for m, c in poly_of(r, 3000).items():
                v = p.get(m, 0) - c
                if v:
                    p[m] = v
                else:
                    p.pop(m, None)
        except TooBig:
            return None, False
        p = self._drop_zero(p)
        if not p or list(p) == [()]:
            return None, False
        lead = p[min(p)]
        if lead != 1:
            p = {m: c / lead for m, c in p.items()}
        return poly_key(p), lead < 0

    def _primitive(self, key):
        """Reduced, normalised polynomial without common factors of known sign:
        (key, sign of what was removed), or None."""
        try:
            p = self._drop_zero(_reduce_by(self._rules(2), dict(key)))
        except TooBig:
            return None
        if not p:
            return None
        f, q = _content(self, p)
        s = 4
        for a, k in f:
            s = _smul(s, self._atom_sign(a))
        lead = q[min(q)]
        if lead < 0:
            s = _MIRROR[s]
        return poly_key({m: c / lead for m, c in q.items()}), s

    def _know_primitive(self, key, mask):
        r = self._primitive(key)
        if r is not None and r[1] in (1, 4):
            if r[1] == 1:
                mask = _MIRROR[mask]
            self.rsigns[r[0]] = self.rsigns.get(r[0], 7) & mask

    def _content_sign(self, key):
        if not self.reduced_signs:
            return 7
        r = self._primitive(key)
        if r is None or r[0] not in self.rsigns:
            return 7
        return _smul(self.rsigns[r[0]], r[1])

    def _const_diff(self, l, r):
        try:
            p = dict(poly_of(l, 3000))
            for m, c in poly_of(r, 3000).items():
                p[m] = p.get(m, 0) - c
        except TooBig:
            return None
        p = {m: c for m, c in self._drop_zero(p).items() if c}
        if not p:
            return Fraction(0)
        return p[()] if list(p) == [()] else None

    def _drop_zero(self, p):
        if not self.zero_monos:
            return p
        return {m: c for m, c in p.items()
                if not any(_divides(z, m) for z in self.zero_monos)}

    def _learn(self, key, mask):
        self.signs[key] = mask
        if mask == 2 and len(key) == 1:
            self.zero_monos.append(tuple(sorted(set(key[0][0]))))
            self._rule_cache = None

    def _root_src(self, a):
        """The term whose root (or positive power) the atom is, if it is one."""
        src = self.sqrt_src.get(a)
        if src is None and a in self.pow_src:
            b, e = self.pow_src[a]
            if e.c is not None and e.c > 0:
                src = b
        return src if src is not None and src.d is None else None

    def _atom_sign(self, a):
        s = self.signs.get((((a,), Fraction(1)),), 7)
        if a in self.sqrt_src or a in self.abs_src:
            s &= 6
        src = self._root_src(a)
        if src is not None:
            s &= 6
            if s == 6:
                s &= self._term_sign(src.n)
        elif a in self.abs_src and s == 6 and self.abs_src[a].d is None:
            if not self._term_sign(self.abs_src[a].n) & 2:
                s = 4
        return s or 7

    def _term_sign(self, t):
        k, neg = self._sign_key(t, rv(Fraction(0)))
        if k is None:
            return 7
        h = self.signs.get(k, 7)
        if h == 7:
            h = self._poly_sign(k)
        return _MIRROR[h] if neg else h

    def _poly_sign(self, key):
        """Possible signs of a polynomial whose variables have known signs and
        whose monomials all have one sign (bit 1 negative, 2 zero, 4 positive)."""
        acc = 2
        for m, c in key:
            s = 4
            i = 0
            while i < len(m):
                j = i
                while j < len(m) and m[j] == m[i]:
                    j += 1
                t = self._atom_sign(m[i])
                if (j - i) % 2 == 0:
                    t = (t & 2) | (4 if t & 5 else 0)
                s = _smul(s, t)
                i = j
            if c < 0:
                s = _MIRROR[s]
            acc = _sadd(acc, s)
            if acc == 7:
                return 7
        return acc

    def name_poly(self, name, v):
        """An unknown that stands for the polynomial v from now on."""
        p = poly_of(v.n)
        lead = p[min(p)]
        k = poly_key({m: c / lead for m, c in p.items()})
        var = z3.Real("name!" + name)
        self.add(var == v.n)
        out = Sym(var, None, None, v.nonneg)
        self.named[k] = (out, lead)
        self._keep.append(var)
        self.name_ids.add(tid(var))
        return out

    def use_name(self, v):
        try:
            p = poly_of(v.n)
        except TooBig:
            return v
        if len(p) < 2:
            return v
        lead = p[min(p)]
        hit = self.named.get(poly_key({m: c / lead for m, c in p.items()}))
        if hit is None:
            return v
        k = lead / hit[1]
        return hit[0] if k == 1 else hit[0] * Sym.const(k)

    def _dominated(self, key):
        """Sign of p0 + q*M for a product M of roots with q*q*M*M >= p0*p0."""
        p = dict(key)
        if len(p) > 400:
            return 7
        for m, q in key:
            if not m or not all(a in self.sqrt_src for a in m):
                continue
            p0 = {k: c for k, c in p.items() if k != m}
            rules = self._rules(1)
            try:
                D = _reduce_by(rules, {tuple(sorted(m + m)): q * q})
                for k, c in _reduce_by(rules, _pmul(p0, p0)).items():
                    v = D.get(k, 0) - c
                    if v:
                        D[k] = v
                    else:
                        D.pop(k, None)
            except TooBig:
                continue
            sg = self._pol_sign(D)
            if not sg & 1:
                r = 4 if sg == 4 else 6
                return r if q > 0 else _MIRROR[r]
        return 7

    def _pol_sign(self, D):
        if not D:
            return 2
        lead = D[min(D)]
        k = poly_key({m: c / lead for m, c in D.items()})
        h = self.signs.get(k, 7)
        if h == 7:
            h = self._poly_sign(k)
        return _MIRROR[h] if lead < 0 else h

    def _reduced_sign(self, key):
        """Sign of the polynomial after rewriting squares of roots."""
        if not any(m[i] == m[i + 1] and (m[i] in self.sqrt_src or m[i] in self.rewrite)
                   for m, _ in key for i in range(len(m) - 1)):
            return 7
        try:
            return self._pol_sign(_reduce_by(self._rules(1), dict(key)))
        except TooBig:
            return 7

    def know_sign(self, l, r, mask):
        k, neg = self._sign_key(l, r)
        if k is not None:
            if neg:
                mask = _MIRROR[mask]
            self._learn(k, self.signs.get(k, 7) & mask)
            if self.reduced_signs:
                self._know_primitive(k, mask)

    def branch(self, cond, cmp=None) -> bool:
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.facts.get(c.get_id())
        if k is not None:
            return k
        if cmp is not None:
            key, neg = self._sign_key(cmp[0], cmp[1])
            if key is None and self.zero_monos:
                k = self._const_diff(cmp[0], cmp[1])
                if k is not None:
                    v = {"<": k < 0, "<=": k <= 0, "==": k == 0, "!=": k != 0,
                         ">": k > 0, ">=": k >= 0}[cmp[2]]
                    self._remember(c, v)
                    return v
            if key is not None and len(key) == 1 and key[0][0] \
                    and len(set(key[0][0])) == 1 and not neg:
                # root(P) ? 0  is  P ? 0
                src = self._root_src(key[0][0][0])
                if src is not None:
                    if cmp[2] == "<":
                        return False
                    if cmp[2] == ">=":
                        return True
                    cmp = (src.n, rv(Fraction(0)), cmp[2])
                    c = z3.simplify(t_cmp(cmp[2], cmp[0], cmp[1]))
                    return self.branch(c, cmp)
            if key is not None:
                mask = _OPMASK[cmp[2]]
                if neg:
                    mask = _MIRROR[mask]
                have = self.signs.get(key, 7)
                if have == 7:
                    have = self._poly_sign(key)
                if have == 7:
                    have = self._reduced_sign(key)
                if have == 7:
                    have = self._dominated(key)
                if have == 7:
                    have = self._content_sign(key)
                if not have & ~mask:
                    self._remember(c, True)
                    return True
                if not have & mask:
                    self._remember(c, False)
                    return False
                r = self._split(c)
                have &= mask if r else 7 & ~mask
                self._learn(key, have)
                if self.reduced_signs:
                    self._know_primitive(key, have)
                return r
        return self._split(c)

    def _split(self, c):
        """A product is 0 when a factor is."""
        if self.reduced_signs:
            neg = z3.is_not(c)
            t = c.arg(0) if neg else c
            if z3.is_or(t) and all(z3.is_eq(u) for u in t.children()):
                v = any(self.branch(u, (u.arg(0), u.arg(1), "==")) for u in t.children())
                self._remember(c, v != neg)
                return v != neg
        return self._branch(c)

    def _branch(self, c):
        self.stats["branches"] += 1
        pos = len(self.trail)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            if v[0] == "f":       # forced earlier (implied)
                val = v[1]
                self.trail.append(v)
                self._remember(c, val)
                return val
            val = v[1]
            self.trail.append(v)
            self.add(c if val else z3.Not(c))
            self._remember(c, val)
            return val
        # use the last model to save one query
        know_t = know_f = False
        if self._last_model is not None:
            mv = self._last_model.eval(c, model_completion=True)
            if z3.is_true(mv):
                know_t = True
            elif z3.is_false(mv):
                know_f = True
        if not know_t:
            rt = self._check(c)
            if rt == z3.sat:
                know_t = True
                if not know_f:
                    self._last_model = self.solver.model()
            elif rt == z3.unsat:
                self.trail.append(("f", False))
                self._remember(c, False)
                return False
            else:
                know_t = True
                self.stats["unknown"] += 1
        if not know_f:
            rf = self._check(z3.Not(c))
            if rf == z3.unsat:
                self.trail.append(("f", True))
                self._remember(c, True)
                return True
            if rf == z3.unknown:
                self.stats["unknown"] += 1
        # both feasible
        self.worklist.append(self.trail + [("d", False)])
        self.trail.append(("d", True))
        self.add(c)
        self._remember(c, True)
        return True

    def choose(self, k, name="choice") -> int:
        """Nondeterministic choice among 0..k-1 (every one is explored)."""
        pos = len(self.trail)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.trail.append(v)
            self.choices.append(v[1])
            return v[1]
        for i in range(k - 1, 0, -1):
            self.worklist.append(self.trail + [("c", i)])
        self.trail.append(("c", 0))
        self.choices.append(0)
        return 0

    # ---- assertions -------------------------------------------------------
    def claim(self, label, expr, margin=None, cmp=None):
        """Record an obligation: expr must hold on this path.

        ``margin`` is a term whose magnitude measures a failure; used only to
        pick a counterexample that is visible in floating point."""
        self.stats["asserts"] += 1
        if isinstance(expr, SymBool):
            cmp = expr.cmp
            expr = expr.e
        if isinstance(expr, (bool, np.bool_)):
            expr = z3.BoolVal(bool(expr))
        self.pending.append((label, expr, margin))
        self.cmps.append(cmp)

    def identical(self, u, v):
        """Whether two values are equal by polynomial identities alone."""
        d = Sym.of(u) - Sym.of(v)
        try:
            return not _reduce_by(self._rules(2), poly_of(d.n))
        except TooBig:
            return False

    def _rules(self, level):
        """Rewrites atom*atom -> polynomial valid on this path."""
        stamp = (len(self.sqrt_src), len(self.pow_src), len(self.rewrite),
                 len(self.abs_src), level)
        if self._rule_cache is None or self._rule_cache[0] != stamp:
            self._rule_cache = (stamp, self._mk_rules(level))
        return self._rule_cache[1]

    def _mk_rules(self, level):
        out = {}
        for a, q in self.rewrite.items():
            out[a] = q
        for a, src in self.sqrt_src.items():
            if src.d is not None or a in out:
                continue
            try:
                q = poly_of(src.n)
            except TooBig:
                continue
            inner = _pdeg(q) <= 2 and not any(
                x in self.sqrt_src or x in self.abs_src or x in self.pow_src
                or x in self.name_ids
                for m in q for x in m)
            if level > 1 or not inner:
                out[a] = q
        for a, (b, e) in self.pow_src.items():
            if e.c is None or a in out or b.d is not None:
                continue
            # (b**e)**2 = b**(2e) when that is an atom (or b itself)
            if e.c * 2 == 1:
                try:
                    out[a] = poly_of(b.n)
                except TooBig:
                    pass
                continue
            hit = self.pow_memo.get((_canon(b.n), _canon((e * 2).n)))
            if hit is None and e.c * 4 == 1:
                hit = self.sqrt_memo.get(_canon(b.n))
            if hit is not None and hit.d is None:
                out[a] = poly_of(hit.n)
        if level > 1:
            for a, src in self.abs_src.items():
                if src.d is None:
                    q = poly_of(src.n)
                    out[a] = _pmul(q, q)
        return out

    def _algebra(self, cmp):
        """Try an obligation on polynomial normal forms; True when decided valid."""
        l, r, op = cmp
        try:
            p = dict(poly_of(l, 20000))
            for m, c in poly_of(r, 20000).items():
                v = p.get(m, 0) - c
                if v:
                    p[m] = v
                else:
                    p.pop(m, None)
        except TooBig:
            return False
        last = None
        p = self._drop_zero(p)
        for level in (0, 1, 2):
            if level:
                rules = self._rules(level)
                if not rules or rules.keys() == last:
                    continue
                last = rules.keys()
                try:
                    p = self._drop_zero(_reduce_by(rules, p))
                except TooBig:
                    return False
            if op in ("==", "!="):
                if not p or list(p) == [()]:
                    t = _poly_term(p) if p else rv(Fraction(0))
                    res, _ = self._solve([z3.Not(t_cmp(op, t, rv(Fraction(0))))], 2000, pc=[])
                    return res == z3.unsat
            elif self._monomial_query(p, op):
                return True
        return False

    def _monomial_query(self, p, op):
        """Decide an inequality between polynomials with every monomial read as
        an unknown of known sign, plus the lemmas proved on this path.

        A sound abstraction: unsat here is unsat for the real obligation.
        """
        vs, cs = {(): rv(_ONE)}, []

        def var(m):
            v = vs.get(m)
            if v is None:
                v = vs[m] = z3.Real("mono!%d" % len(vs))
                sg = self._poly_sign(((m, _ONE),))
                if sg == 4:
                    cs.append(v > 0)
                elif sg == 6:
                    cs.append(v >= 0)
            return v

        def lin(q):
            ts = [rv(Fraction(c)) * var(m) for m, c in q.items() if c]
            return z3.Sum(ts) if ts else rv(Fraction(0))
        goal = t_cmp(op, lin(p), rv(Fraction(0)))
        ms = {m for m, c in p.items() if c}
        for q, mask in self.lemmas:
            if any(m in ms for m in q):
                e = lin(q)
                cs.append({4: e > 0, 6: e >= 0, 2: e == 0}[mask])
        r, _ = self._solve([z3.Not(goal)] + cs, min(5000, self.query_ms), pc=[])
        return r == z3.unsat

    def lemma(self, term, mask=6):
        """Register a polynomial whose sign has been established."""
        self.know_sign(term, rv(Fraction(0)), mask)
        try:
            self.lemmas.append((poly_of(term, 20000), mask))
        except TooBig:
            pass

    def _solve(self, extra, ms, tactic=None, pc=None):
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.set("timeout", ms)
        for c in (self.pc if pc is None else pc):
            s.add(c)
        for c in extra:
            s.add(c)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.last_query = s
        return r, s

    def discharge(self):
        """Decide all obligations of the finished path."""
        todo = []
        for label, e, mg in self.pending:
            n = z3.simplify(z3.Not(e), som=True)
            if z3.is_false(n):
                self.stats["trivial"] += 1
            todo.append((label, n, mg))
        if not todo:
            return
        # one query for all of them first
        batch = z3.Or([n for _, n, _ in todo]) if len(todo) > 1 else todo[0][1]
        # 1. without the path condition (valid outright?)
        r, s = self._solve([batch], min(4000, self.query_ms), pc=[])
        if r == z3.unsat:
            self.stats["unsat"] += 1
            self._witness()
            return
        if any(self.cmps):
            rest = []
            for t, cmp in zip(todo, self.cmps):
                if z3.is_false(t[1]):
                    continue
                if cmp is not None and self._algebra(cmp):
                    self.stats["unsat"] += 1
                else:
                    rest.append(t)
            if not rest:
                self._witness()
                return
            todo = rest
            batch = z3.Or([n for _, n, _ in todo]) if len(todo) > 1 else todo[0][1]
        r, s = self._solve([batch], self.query_ms)
        if r == z3.unsat:
            self.stats["unsat"] += 1
            self._witness()
            return
        for label, n, mg in todo:
            if z3.is_false(n):
                continue
            self._decide_one(label, n, mg)
            if len(self.failures) >= self.max_failures:
                return
        self._witness()

    def _decide_one(self, label, n, mg):
        if len(self.pending) > 1:
            r, s = self._solve([n], 3000, pc=[])
            if r == z3.unsat:
                self.stats["unsat"] += 1
                return
        r, s = self._solve([n], self.query_ms)
        if r == z3.unknown:
            r, s = self._solve([n], self.query_ms, tactic="qfnra-nlsat")
        if r == z3.unknown:
            r2, s2 = self._bounded_search(n)
            if r2 == z3.sat:
                r, s = r2, s2
        if r == z3.unsat:
            self.stats["unsat"] += 1
            return
        if r == z3.unknown:
            self.stats["unknown"] += 1
            self.inconclusive.append(f"{label}: solver answered unknown")
            return
        self.stats["sat"] += 1
        # prefer a nice counterexample: inputs of moderate size
        m = s.model()
        models = self._nice(n, mg) + [m]
        self.failures.append(Failure(
            label, "assert", [self.model_inputs(x) for x in models],
            list(self.choices), str(z3.simplify(n))[:400],
            garbage=bool(self.garbage) and "garbage!" in n.sexpr()))

    def _bounds(self, lo=-8, hi=8):
        cs = []
        for nme, v in self.inputs.items():
            cs += [v >= lo, v <= hi]
        return cs

    def _nice(self, n, mg):
        """Counterexamples of moderate size whose effect is visible in floats."""
        out = []
        for margin in (1, Fraction(1, 16), Fraction(1, 512), None):
            if margin is not None and mg is None:
                continue
            big = [] if margin is None else [z3.Or(mg >= rv(Fraction(margin)),
                                                   mg <= rv(-Fraction(margin)))]
            for ints in (True, False):
                extra = self._bounds()
                if ints:
                    extra = []
                    for nme, v in self.inputs.items():
                        if v.sort() == z3.RealSort():
                            k = z3.Int("ii!" + nme)
                            extra += [v == z3.ToReal(k), k >= -6, k <= 6]
                r, s = self._solve([n] + big + extra, min(3000, self.query_ms))
                if r == z3.sat:
                    out.append(s.model())
                    if len(out) >= 2:
                        return out
        return out

    def _bounded_search(self, n):
        """Look for small integer counterexamples when NRA gives up."""
        ints = []
        for nme, v in self.inputs.items():
            k = z3.Int("ii!" + nme)
            ints += [v == z3.ToReal(k) if v.sort() == z3.RealSort() else v == k,
                     k >= -4, k <= 4]
        return self._solve([n] + ints, 4000)

    def model_inputs(self, m):
        out = {}
        for nme, v in self.inputs.items():
            out[nme] = str(model_value(m, v))
        return out

    def _sample_unsupported(self):
        """Models of the path so far, to be replayed on the real code."""
        for k in range(3):
            s = z3.Solver()
            s.set("timeout", 1500)
            s.set("random_seed", k)
            for c in self.pc:
                s.add(c)
            for i, (nme, v) in enumerate(self.inputs.items()):
                if v.sort() == z3.RealSort():
                    s.add(v >= -10, v <= 10)
            if k:
                vs = [v for v in self.inputs.values() if v.sort() == z3.RealSort()]
                s.push()
                s.add(z3.Distinct(vs) if len(vs) > 1 else z3.BoolVal(True))
                if s.check() != z3.sat:
                    s.pop()
            if s.check() == z3.sat:
                self.witnesses.append((self.model_inputs(s.model()), list(self.choices)))

    def _witness(self):
        self.stats["cells"] += 1
        if len(self.witnesses) < self.want_witnesses:
            vs = [v for v in self.inputs.values() if v.sort() == z3.RealSort()]
            far = [z3.Distinct(vs)] if 1 < len(vs) <= 16 else []
            r, s = self._solve(self._bounds(-100, 100) + far, 1500)
            if r != z3.sat and far:
                r, s = self._solve(self._bounds(-100, 100), 1500)
            if r != z3.sat:
                r, s = self._solve([], 1500)
            if r == z3.sat:
                self.witnesses.append((self.model_inputs(s.model()), list(self.choices)))

    # ---- exploration --------------------------------------------------------
    def explore(self, fn, on_error=None):
        Engine.cur = self
        self.worklist = [[]]
        try:
            while self.worklist:
                if self.stats["paths"] >= self.max_paths:
                    raise Budget("paths")
                if self.deadline and time.time() > self.deadline:
                    raise Budget("time")
                prefix = self.worklist.pop()
                self._start_path(prefix)
                if len(_poly_keep) > 200000:
                    clear_poly()
                try:
                    try:
                        fn()
                    except Exception as ex:
                        if self.deadline and time.time() > self.deadline:
                            raise Budget("time")
                        tb = traceback.extract_tb(ex.__traceback__)
                        where = next((f"{os.path.basename(f.filename)}:{f.lineno}"
                                      for f in reversed(tb)), "?")
                        self.last_exception = "".join(
                            traceback.format_exception(ex))[-3000:]
                        self.claim(f"no exception ({type(ex).__name__}: "
                                   f"{str(ex)[:200]} at {where})", False)
                except PathAbort:
                    self.stats["infeasible"] += 1
                    continue
                except Unsupported as ex:
                    self.stats["paths"] += 1
                    self.inconclusive.append(f"unsupported: {ex}")
                    self._sample_unsupported()
                    if len(self.inconclusive) > 8:
                        return
                    continue
                self.stats["paths"] += 1
                self.discharge()
                if len(self.failures) >= self.max_failures:
                    self.inconclusive.append(
                        f"stopped after {len(self.failures)} counterexamples")
                    return
        except Budget as b:
            self.inconclusive.append(f"budget exhausted ({b}); "
                                     f"{len(self.worklist)} paths left")
        finally:
            Engine.cur = None


def model_value(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f"model value {x}")


def eng() -> Engine:
    e = Engine.cur
    if e is None:
        raise Unsupported("symbolic value used outside an exploration")
    return e


# --------------------------------------------------------------------------
# symbolic values
# --------------------------------------------------------------------------

class SymBool:
    __slots__ = ("e", "cmp")

    def __init__(self, e, cmp=None):
        self.e = e
        self.cmp = cmp        # (l, r, op) of a comparison

    def __bool__(self):
        return eng().branch(self.e, self.cmp)

    def __and__(self, o):
        return SymBool(z3.And(self.e, _b(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, _b(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, _b(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        return SymBool(self.e == _b(o))

    def __ne__(self, o):
        return SymBool(self.e != _b(o))

    def __hash__(self):
        return hash(self.e)

    def _i(self):
        return 1 if bool(self) else 0

    def __int__(self):
        return self._i()

    def __float__(self):
        return float(self._i())

    def __index__(self):
        return self._i()

    def __add__(self, o):
        return self._i() + (o._i() if isinstance(o, SymBool) else o)
    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * (o._i() if isinstance(o, SymBool) else o)
    __rmul__ = __mul__

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self


def _b(o):
    if isinstance(o, SymBool):
        return o.e
    return z3.BoolVal(bool(o))


def const_of(o):
    """Fraction of a concrete number, NaN/inf floats as floats, None if not one."""
    if isinstance(o, bool) or isinstance(o, np.bool_):
        return Fraction(int(o))
    if isinstance(o, (int, Fraction)):
        return Fraction(o)
    if isinstance(o, np.generic):
        o = o.item()
        if isinstance(o, (bool, int)):
            return Fraction(o)
    if isinstance(o, float):
        if o != o or o in (INF, -INF):
            return o
        return rationalize(o)
    return None


def is_special(o):
    return isinstance(o, (float, np.floating)) and not math.isfinite(o)


class Sym:
    """Symbolic exact real ``n/d`` (``d`` is None for 1)."""

    __slots__ = ("n", "d", "c", "nonneg", "sq", "dt")
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.do_function(func, args, kwargs)

    shape = ()
    ndim = 0
    size = 1

    def __init__(self, n, d=None, c=None, nonneg=False, sq=None, dt=None):
        self.n, self.d, self.c = n, d, c
        self.nonneg, self.sq, self.dt = nonneg, sq, dt

    # -- numpy scalar look-alike ---------------------------------------------
    @property
    def dtype(self):
        return self.dt or np.dtype(np.float64)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Fraction(0)

    @property
    def T(self):
        return self

    def conjugate(self):
        return self
    conj = conjugate

    def item(self, *a):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self
    mean = max = min = sum

    def astype(self, dt, *a, **k):
        dt = np.dtype(dt)
        if dt.kind in "fO":
            r = Sym(self.n, self.d, self.c, self.nonneg, self.sq)
            if dt.kind == "f" and dt.itemsize < 8:
                r = eng().narrow(r, dt, self.dt is not None)
            return r
        if dt.kind in "iu" and self.dt is not None and self.dt.kind in "iu":
            return self._cast_int(dt)
        if dt.kind == "b":
            return bool(self != 0)
        raise Unsupported(f"astype({dt}) of a symbolic value")

    def reshape(self, *a, **k):
        from .arr import wrap_scalar
        return wrap_scalar(self).reshape(*a, **k)

    def __getitem__(self, k):
        from .arr import wrap_scalar
        r = wrap_scalar(self)[k]
        return r

    def __array_namespace__(self, *, api_version=None):
        import array_api_compat.numpy as xp
        return xp

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __repr__(self):
        if self.c is not None:
            return f"Sym({self.c})"
        return f"Sym({self.n}{'' if self.d is None else ' / ' + str(self.d)})"

    def __format__(self, spec):
        return repr(self) if len(repr(self)) < 80 else "Sym(...)"

    def __hash__(self):
        return hash(("Sym", tid(self.n), None if self.d is None else tid(self.d)))

    # -- construction ----------------------------------------------------------
    @staticmethod
    def const(c: Fraction, dt=None):
        return Sym(rv(c), None, c, nonneg=c >= 0, dt=dt)

    @staticmethod
    def of(o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return Sym.of(o.item())
        w = getattr(o, "_array", None)      # a 0-d array of array_api_strict
        if isinstance(w, np.ndarray) and w.ndim == 0:
            return Sym.of(w.item())
        if isinstance(o, SymBool):
            return Sym.const(Fraction(o._i()))
        c = const_of(o)
        if c is None:
            return None
        if isinstance(c, float):
            return c
        return Sym.const(c)

    def term(self):
        """z3 term (native division when there is a denominator)."""
        return self.n if self.d is None else self.n / self.d

    # -- int dtypes -------------------------------------------------------------
    def _cast_int(self, dt):
        """Value after storing into fixed-width integer dtype ``dt``."""
        bits = dt.itemsize * 8
        lo, hi = ((-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
                  if dt.kind == "i" else (0, (1 << bits) - 1))
        if self.c is not None:
            v = self.c
            if v.denominator != 1:
                v = Fraction(math.trunc(v))
            v = Fraction((int(v) - lo) % (1 << bits) + lo)
            return Sym.const(v, dt)
        if bool(self >= lo) and bool(self <= hi):
            return Sym(self.n, self.d, self.c, self.nonneg, self.sq, dt)
        en = eng()
        en.n_fresh += 1
        k = z3.Int(f"wrap!{en.n_fresh}")
        r = self.n - z3.ToReal(k) * rv(Fraction(1 << bits))
        en.add(z3.And(r >= rv(Fraction(lo)), r <= rv(Fraction(hi))))
        return Sym(r, None, None, dt.kind == "u", None, dt)

    def _res_dt(self, o, truediv=False):
        a = self.dt
        if a is None or a.kind not in "iu" or truediv:
            return None
        if isinstance(o, Sym):
            b = o.dt
            if b is None:
                if o.c is not None and o.c.denominator == 1:
                    return a      # python int scalar
                return None
            if b.kind not in "iu":
                return None
            r = np.result_type(a, b)
            return r if r.kind in "iu" else None
        return None

    def _fin(self, r, o, truediv=False):
        dt = self._res_dt(o, truediv)
        if dt is not None:
            return r._cast_int(dt)
        return r

    # -- arithmetic --------------------------------------------------------------
    def __add__(self, o):
        o = self._coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        a, b = self, o
        if b.c is not None and b.c == 0:
            return a
        if a.c is not None and a.c == 0:
            return b
        if a.c is not None and b.c is not None:
            return self._fin(Sym.const(a.c + b.c), o)
        nn = a.nonneg and b.nonneg
        if a.d is None and b.d is None:
            r = Sym(t_add(a.n, b.n), None, None, nn)
        elif a.d is not None and b.d is not None and tid(a.d) == tid(b.d):
            r = Sym(t_add(a.n, b.n), a.d, None, nn)
        elif a.d is None:
            r = Sym(t_add(t_mul(a.n, b.d), b.n), b.d, None, nn)
        elif b.d is None:
            r = Sym(t_add(a.n, t_mul(b.n, a.d)), a.d, None, nn)
        else:
            r = Sym(t_add(t_mul(a.n, b.d), t_mul(b.n, a.d)), t_mul(a.d, b.d), None, nn)
        return self._fin(_named(r), o)

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        if self.c is not None:
            return self._fin(Sym.const(-self.c), self)
        return self._fin(Sym(-self.n, self.d), self)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return -o
        a, b = self, o
        if (tid(a.n) == tid(b.n)
                and (a.d is None) == (b.d is None)
                and (a.d is None or tid(a.d) == tid(b.d))):
            return Sym.const(Fraction(0), self._res_dt(o))
        if b.c is not None and b.c == 0:
            return a
        if a.c is not None and b.c is not None:
            return self._fin(Sym.const(a.c - b.c), o)
        if a.d is None and b.d is None:
            r = Sym(t_sub(a.n, b.n))
        elif a.d is not None and b.d is not None and tid(a.d) == tid(b.d):
            r = Sym(t_sub(a.n, b.n), a.d)
        elif a.d is None:
            r = Sym(t_sub(t_mul(a.n, b.d), b.n), b.d)
        elif b.d is None:
            r = Sym(t_sub(a.n, t_mul(b.n, a.d)), a.d)
        else:
            r = Sym(t_sub(t_mul(a.n, b.d), t_mul(b.n, a.d)), t_mul(a.d, b.d))
        return self._fin(_named(r), o)

    def __rsub__(self, o):
        o = self._coerce(o)
        if o is NotImplemented or isinstance(o, float):
            return o
        return o.__sub__(self)

    def __mul__(self, o):
        o = self._coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if o != o:
                return NAN
            if bool(self == 0):
                return NAN
            return o if bool(self > 0) else -o
        a, b = self, o
        if a.c is not None and b.c is not None:
            return self._fin(Sym.const(a.c * b.c), o)
        for u, v in ((a, b), (b, a)):
            if u.c is not None:
                if u.c == 0:
                    return Sym.const(Fraction(0), self._res_dt(o))
                if u.c == 1:
                    return v
                r = Sym(t_mul(u.n, v.n), v.d, None, u.nonneg and v.nonneg)
                return self._fin(r, o)
        same = tid(a.n) == tid(b.n) and (
            (a.d is None and b.d is None)
            or (a.d is not None and b.d is not None and tid(a.d) == tid(b.d)))
        nn = same or (a.nonneg and b.nonneg)
        sq = a if same else None
        # cancel u/v * v
        if a.d is not None and b.d is None and tid(a.d) == tid(b.n):
            return Sym(a.n, None, None, nn)
        if b.d is not None and a.d is None and tid(b.d) == tid(a.n):
            return Sym(b.n, None, None, nn)
        n = t_mul(a.n, b.n)
        d = b.d if a.d is None else (a.d if b.d is None else t_mul(a.d, b.d))
        r = Sym(n, d, None, nn, sq)
        return self._fin(r, o)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        o = self._coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return NAN if o != o else Sym.const(Fraction(0))
        if o.c is not None:
            if o.c == 0:
                return self._div_zero()
            if o.c == 1:
                return Sym(self.n, self.d, self.c, self.nonneg, self.sq)
            if self.c is not None:
                return Sym.const(self.c / o.c)
            return Sym(t_mul(self.n, rv(1 / o.c)), self.d, None, self.nonneg and o.c > 0)
        if self.c is not None and self.c == 0:
            if bool(o == 0):
                return NAN
            return self
        if bool(o == 0):
            return self._div_zero()
        nn = self.nonneg and o.nonneg
        if (self.d is None and o.d is None and tid(self.n) == tid(o.n)):
            return Sym.const(_ONE)
        # (n1/d1) / (n2/d2) = n1 d2 / (d1 n2)
        if self.d is not None and o.d is not None and tid(self.d) == tid(o.d):
            return Sym(self.n, o.n, None, nn)
        n = self.n if o.d is None else t_mul(self.n, o.d)
        d = o.n if self.d is None else t_mul(self.d, o.n)
        return Sym(n, d, None, nn)

    def _div_zero(self):
        if bool(self == 0):
            return NAN
        return INF if bool(self > 0) else -INF

    def __rtruediv__(self, o):
        o = self._coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if o != o:
                return o
            return o if bool(self >= 0) else -o
        return o.__truediv__(self)

    def __floordiv__(self, o):
        raise Unsupported("floor division of symbolic values")
    __rfloordiv__ = __mod__ = __rmod__ = __floordiv__

    def __divmod__(self, o):
        raise Unsupported("divmod of symbolic values")

    def __abs__(self):
        if self.c is not None:
            return self._fin(Sym.const(abs(self.c)), self)
        if self.nonneg:
            return self
        if self.d is None and self.dt is None:
            sg = eng()._term_sign(self.n)
            if not sg & 1:
                return Sym(self.n, None, None, True)
            if not sg & 4:
                return Sym(-self.n, None, None, True)
            if eng().abs_atoms:
                if _is_linear(self.n):
                    return _abs_atom(self)
                try:
                    f, q = _content(eng(), poly_of(self.n))
                except TooBig:
                    f = []
                if f:
                    r = abs(Sym(_poly_term(q)))
                    for a, k in f:
                        r = r * Sym(_atoms[a], None, None, True) ** k
                    r.nonneg = True
                    return r
        if bool(self >= 0):
            return Sym(self.n, self.d, None, True, None, self.dt)
        r = -self
        if isinstance(r, Sym) and r.c is None and r.dt is None:
            r = Sym(r.n, r.d, None, True)
        return r

    def __pow__(self, o, mod=None):
        o = self._coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            raise Unsupported("power with non-finite exponent")
        if o.c is not None:
            k = o.c
            if k.denominator == 1:
                k = int(k)
                if k == 0:
                    return Sym.const(_ONE, self._res_dt(o))
                if k == 1:
                    return self
                if k < 0:
                    return 1 / (self ** (-k))
                if k <= 40:
                    r = self
                    if k % 2 == 0:
                        h = self if k == 2 else self ** (k // 2)
                        return h * h
                    for _ in range(k - 1):
                        r = r * self
                    return r
                raise Unsupported(f"power {k}")
            if k == Fraction(1, 2):
                return self.sqrt()
            if k == Fraction(-1, 2):
                return 1 / self.sqrt()
        return _sym_pow(self, o)

    def __rpow__(self, o):
        o = self._coerce(o)
        if o is NotImplemented or isinstance(o, float):
            raise Unsupported("power")
        return o.__pow__(self)

    def sqrt(self):
        return _sym_sqrt(self)

    def exp(self):
        raise Unsupported("exp")
    log = log2 = sin = cos = floor = ceil = exp

    def _coerce(self, o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, np.ndarray):
            if o.ndim == 0 and o.dtype == object:
                return self._coerce(o.view(np.ndarray).item())
            return NotImplemented
        r = Sym.of(o)
        if r is None:
            return NotImplemented
        return r

    # -- comparisons ----------------------------------------------------------------
    def _cmp(self, o, op):
        o = self._coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            if o != o:
                return op == "!="
            pos = o > 0
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos,
                    "==": False, "!=": True}[op]
        a, b = self, o
        if a.c is not None and b.c is not None:
            return {"<": a.c < b.c, "<=": a.c <= b.c, ">": a.c > b.c,
                    ">=": a.c >= b.c, "==": a.c == b.c, "!=": a.c != b.c}[op]
        if b.c is not None and b.c == 0 and a.nonneg:
            if op == ">=":
                return True
            if op == "<":
                return False
        if b.c is not None and b.c < 0 and a.nonneg:
            return op in (">", ">=", "!=")
        if b.c is not None and b.c == 0 and a.d is None:
            src = eng().sqrt_src.get(tid(a.n))
            if src is not None:
                return src._cmp(o, op)
        # a.n/a.d ? b.n/b.d
        l, r = a.n, b.n
        dens = []
        if a.d is not None and b.d is not None and tid(a.d) == tid(b.d):
            dens = [a.d]
        else:
            if b.d is not None:
                l = t_mul(l, b.d)
                dens.append(b.d)
            if a.d is not None:
                r = t_mul(r, a.d)
                dens.append(a.d)
        if op == "==":
            return SymBool(t_cmp("==", l, r), (l, r, op))
        if op == "!=":
            return SymBool(t_cmp("!=", l, r), (l, r, op))
        if dens:
            flip = False
            for d in dens:
                if not _den_positive(d):
                    flip = not flip
            if flip:
                l, r = r, l
        return SymBool(t_cmp(op, l, r), (l, r, op))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    # -- conversions ------------------------------------------------------------------
    def __bool__(self):
        r = self != 0
        return bool(r)

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.c is not None:
            return math.trunc(self.c)
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.c is not None and self.c.denominator == 1:
            return int(self.c)
        raise Unsupported("symbolic index")

    def _rounded(self, f, *a):
        if self.c is None:
            raise Unsupported("round of a symbolic value")
        return f(self.c, *a)

    def __round__(self, *a):
        return self._rounded(round, *a)

    def __trunc__(self):
        return self._rounded(math.trunc)

    def __floor__(self):
        return self._rounded(math.floor)

    def __ceil__(self):
        return self._rounded(math.ceil)

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")


def _named(r):
    e = Engine.cur
    if e is None or not e.named or r.d is not None:
        return r
    return e.use_name(r)


def _den_positive(d):
    """Branch on the sign of a (non-zero) denominator."""
    z = rv(Fraction(0))
    return eng().branch(t_cmp(">", d, z), (d, z, ">"))


def _canon(e):
    try:
        return poly_key(poly_of(e))
    except TooBig:
        return ("id", z3.simplify(e, som=True).get_id())


def _is_linear(e):
    try:
        return all(len(m) <= 1 for m in poly_of(e))
    except TooBig:
        return False


def _content(en, p):
    """Common factors of all monomials with a known sign: [(atom, power)], rest."""
    common = None
    for m in p:
        cnt = {}
        for a in m:
            cnt[a] = cnt.get(a, 0) + 1
        common = cnt if common is None else {
            a: min(k, cnt[a]) for a, k in common.items() if a in cnt}
        if not common:
            return [], p
    out = [(a, k) for a, k in common.items() if not en._atom_sign(a) & 1]
    if not out or len(p) == 1 and len(out) == 1 and list(p)[0] == (out[0][0],):
        return [], p
    q = {}
    for m, c in p.items():
        m = list(m)
        for a, k in out:
            for _ in range(k):
                m.remove(a)
        q[tuple(m)] = c
    return out, q


def _abs_atom(v):
    """|v| without a fork: a non-negative unknown equal to v or to -v."""
    en = eng()
    try:
        pp = poly_of(v.n)
        if not pp:
            return Sym.const(Fraction(0))
        k0 = abs(pp[min(pp)])
        if k0 != 1:
            # |k p| = |k| |p|
            r = abs(Sym(_poly_term({m: c / k0 for m, c in pp.items()}))) * Sym.const(k0)
            r.nonneg = True
            return r
        k1 = poly_key(pp)
        k2 = poly_key({m: -c for m, c in pp.items()})
    except TooBig:
        k1 = _canon(v.n)
        k2 = _canon(-v.n)
    hit = en.abs_memo.get(k1)
    if hit is None:
        hit = en.abs_memo.get(k2)
    if hit is not None:
        return hit
    r = en.fresh("abs")
    en.add(z3.And(r >= 0, z3.Or(r == v.n, r == -v.n)))
    en._keep.append(v.n)
    out = Sym(r, None, None, True)
    en.abs_memo[k1] = out
    en.abs_src[tid(r)] = v
    en._keep.append(r)
    return out


def _lin_term(lin):
    t = None
    for k, c in lin.items():
        x = rv(c) if k == () else (_atoms[k] if c == 1 else rv(c) * _atoms[k])
        t = x if t is None else t + x
    return t


def _sym_sqrt(v: Sym):
    if v.c is not None:
        if v.c < 0:
            return NAN
        s = _frac_sqrt(v.c)
        if s is not None:
            return Sym.const(s)
    if v.sq is not None:
        return abs(v.sq)
    en = eng()
    if v.d is not None:
        n, d = Sym(v.n), Sym(v.d)
        if not _den_positive(v.d):
            n, d = -n, -d
        if not v.nonneg:
            if bool(n < 0):
                return NAN
        n.nonneg = True
        d.nonneg = True
        return _sym_sqrt(n) / _sym_sqrt(d)
    try:
        p = poly_of(v.n)
        if en.rewrite or en.sqrt_src:
            if any(m[i] == m[i + 1] for m in p for i in range(len(m) - 1)):
                p = _reduce_by(en._rules(1), p)
        p = en._drop_zero(p)
        if not p:
            return Sym.const(Fraction(0))
        if list(p) == [()]:
            c = p[()]
            if c < 0:
                return NAN
            s = _frac_sqrt(c)
            if s is not None:
                return Sym.const(s)
        lin = square_root_linear(p)
        if lin is not None:
            return abs(Sym(_lin_term(lin)))
        key = poly_key(p)
    except TooBig:
        p = None
        key = _canon(v.n)
    src = en.pow_src.get(tid(v.n))
    if src is not None:
        return _sym_pow(src[0], src[1] / 2)
    if tid(v.n) in en.abs_src or tid(v.n) in en.sqrt_src:
        return _sym_pow(v, Fraction(1, 2), True)
    hit = en.sqrt_memo.get(key)
    if hit is not None:
        return hit
    if p is not None and len(p) <= 3000:
        f, q = _content(en, p)
        if any(k > 1 for _, k in f):
            out = None
            mono = []
            for a, k in f:
                if k // 2:
                    t = Sym(_atoms[a], None, None, True) ** (k // 2)
                    out = t if out is None else out * t
                mono += [a] * (k % 2)
            q = {tuple(sorted(m + tuple(mono))): c for m, c in q.items()}
            zero = False
            for a, k in f:
                if k // 2 and bool(Sym(_atoms[a]) == 0):
                    zero = True
            if zero:
                return Sym.const(Fraction(0))
            r = _sym_sqrt(Sym(_poly_term(q), None, None, v.nonneg))
            if isinstance(r, Sym):
                r = r * out
                r.nonneg = True
                en.sqrt_memo[key] = r
            return r
    if p is not None:
        # sqrt(k*p) = s*sqrt(f*p) for k = s*s*f
        sq, f = _split_square(abs(p[min(p)]))
        if sq != 1:
            q = {m: c / (sq * sq) for m, c in p.items()}
            r = _sym_sqrt(Sym(_poly_term(q), None, None, v.nonneg))
            if isinstance(r, Sym):
                r = r * sq
                r.nonneg = True
                en.sqrt_memo[key] = r
            return r
    if not v.nonneg:
        if bool(v < 0):
            return NAN
    if p is not None:
        f = _sqrt_product(en, p)
        if f is not None:
            en.sqrt_memo[key] = f
            return f
    r = en.fresh("sqrt")
    en.add(z3.And(r >= 0, r * r == v.n))
    en._keep += [v.n, r]
    out = Sym(r, None, None, True)
    en.sqrt_memo[key] = out
    en.sqrt_src[tid(r)] = v
    if p is not None:
        _sqrt_factor(en, p, r)
        en.sqrt_poly.append((p, r))
    return out


def _reduce(en, p):
    """Normal form modulo the registered rewrites v*v -> polynomial."""
    return _reduce_by(en.rewrite, p)


def _reduce_by(rules, p):
    work, out = dict(p), {}
    steps = 0
    while work:
        m, c = work.popitem()
        steps += 1
        if steps > 200000 or len(work) > 40000:
            raise TooBig
        for i in range(len(m) - 1):
            if m[i] == m[i + 1] and m[i] in rules:
                q = rules[m[i]]
                rest = m[:i] + m[i + 2:]
                for m2, c2 in q.items():
                    k = tuple(sorted(rest + m2))
                    v = work.get(k, 0) + c * c2
                    if v:
                        work[k] = v
                    else:
                        work.pop(k, None)
                break
        else:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return out


def _split_square(c: Fraction):
    """c = s*s*f with s rational and f a small square-free integer."""
    k = c.numerator * c.denominator
    s = 1
    for d in (2, 3, 5, 7, 11, 13, 17):
        while k % (d * d) == 0:
            k //= d * d
            s *= d
    r = math.isqrt(k)
    if r * r == k:
        s, k = s * r, 1
    return Fraction(s, c.denominator), k


def _poly_term(p):
    ts = []
    for m, c in p.items():
        t = rv(c)
        for a in m:
            t = _atoms[a] if tid(t) == tid(rv(_ONE)) else t_mul(t, _atoms[a])
        ts.append(t)
    return ts[0] if len(ts) == 1 else t_sum(ts)


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2))
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def _pdeg(p):
    return max((len(m) for m in p), default=0)


def _ratio(p, q):
    """k with p = k q, or None."""
    if len(p) != len(q):
        return None
    k = None
    for m, c in p.items():
        d = q.get(m)
        if d is None:
            return None
        if k is None:
            k = c / d
        elif c != k * d:
            return None
    return k


def _sqrt_product(en, p):
    """sqrt of a product of two polynomials whose square roots are known."""
    rec = en.sqrt_poly[-14:]
    n, dg = len(p), _pdeg(p)
    if n > 3000 or dg < 4:
        return None
    for i, (a, ra) in enumerate(rec):
        for b, rb in rec[i:]:
            if _pdeg(a) + _pdeg(b) != dg or len(a) * len(b) < n or len(a) * len(b) > 20000:
                continue
            k = _ratio(p, _pmul(a, b))
            if k is not None and k > 0 and (s := _frac_sqrt(k)) is not None:
                r = Sym(t_mul(ra, rb), None, None, True)
                if ra is rb:
                    r = Sym(_poly_term(a), None, None, True)
                return r if s == 1 else r * s
    return None


def _sqrt_factor(en, p, r):
    """A square root of p*q known before those of p and q: relate them."""
    rec = en.sqrt_poly[-14:]
    for big, rbig in rec:
        if _pdeg(big) <= _pdeg(p) or len(big) > 3000:
            continue
        for b, rb in rec + [(p, r)]:
            if _pdeg(p) + _pdeg(b) != _pdeg(big) or len(p) * len(b) > 20000:
                continue
            k = _ratio(big, _pmul(p, b))
            if k is not None and k > 0 and (s := _frac_sqrt(k)) is not None:
                e = t_cmp("==", rbig, t_mul(rv(s), t_mul(r, rb)))
                en.add(e)
                en.eqs.append((rbig, t_mul(rv(s), t_mul(r, rb))))


def _sym_pow(base: Sym, ex: Sym, no_root=False):
    """base ** ex for base >= 0 and a general real exponent (uninterpreted)."""
    en = eng()
    if not isinstance(ex, Sym):
        ex = Sym.of(ex)
    if ex.c is not None and not no_root:
        if ex.c.denominator == 1 or ex.c == Fraction(1, 2):
            return base ** ex
    # (sqrt t)**e -> t**(e/2);  (t**a)**b -> t**(a b)
    if base.d is None:
        if tid(base.n) in en.sqrt_src:
            return _sym_pow(en.sqrt_src[tid(base.n)], ex / 2)
        if tid(base.n) in en.abs_src:
            u = en.abs_src[tid(base.n)]
            return _sym_pow(u * u, ex / 2)
        if tid(base.n) in en.pow_src:
            b0, e0 = en.pow_src[tid(base.n)]
            return _sym_pow(b0, e0 * ex)
    if base.d is not None or ex.d is not None:
        raise Unsupported("power of a quotient")
    if not base.nonneg:
        if bool(base < 0):
            return NAN
    pz = None
    if base.c is not None:
        pz = base.c == 0
    else:
        try:
            pb = poly_of(base.n)
            if not pb:
                pz = True
        except TooBig:
            pass
    if pz:
        if bool(ex > 0):
            return Sym.const(Fraction(0))
        if bool(ex == 0):
            return Sym.const(_ONE)
        return INF
    if base.c is None and ex.c is not None and ex.c > 0:
        try:
            f, q = _content(en, poly_of(base.n))
        except TooBig:
            f = []
        if f:
            nz = all(not bool(Sym(_atoms[a]) == 0) for a, _ in f)
            if not nz:
                return Sym.const(Fraction(0))
            r = _sym_pow(Sym(_poly_term(q), None, None, True), ex) \
                if q != {(): _ONE} else Sym.const(_ONE)
            for a, k in f:
                r = r * _sym_pow(Sym(_atoms[a], None, None, True), ex * k)
            r.nonneg = True
            return r
    # the exponent may be pinned by the path to a nice value
    for val in (Fraction(1), Fraction(1, 2)):
        f = en.facts.get(z3.simplify(ex.n == rv(val)).get_id())
        if f is True:
            return base if val == 1 else base.sqrt()
    # |u|**e and (u*u)**(e/2) are the same atom: use the square as the key
    kb, ke = base, ex
    if base.c is None and base.sq is None:
        pass
    key = (_canon(kb.n), _canon(ke.n))
    hit = en.pow_memo.get(key)
    if hit is not None:
        return hit
    try:
        k2 = (_canon((kb.n * kb.n)), _canon((ke / 2).n))
        hit = en.pow_memo.get(k2)
        if hit is not None:
            return hit
        lin = square_root_linear(poly_of(kb.n))
        if lin is not None:
            t = _lin_term(lin)
            k3 = (_canon(t), _canon((ke * 2).n))
            k4 = (_canon(-t), _canon((ke * 2).n))
            hit = en.pow_memo.get(k3)
            if hit is None:
                hit = en.pow_memo.get(k4)
            if hit is not None:
                return hit
    except TooBig:
        pass
    r = en.fresh("pow")
    if bool(ex > 0):
        en.add(z3.And(r >= 0, z3.Implies(kb.n == 0, r == 0),
                      z3.Implies(kb.n > 0, r > 0)))
    else:
        if bool(kb == 0):
            return Sym.const(_ONE) if bool(ex == 0) else INF
        en.add(r > 0)
    en._keep += [kb.n, ke.n]
    out = Sym(r, None, None, True)
    en.pow_memo[key] = out
    en.pow_src[tid(r)] = (kb, ke)
    return out
