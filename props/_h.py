"""Shared pieces of the harnesses."""
from __future__ import annotations

import functools
import itertools

METHODS = ("naive", "avl", "mergesort", "auto")


def samp(c, name, n, p, order=None):
    """A sample of n observations: 1-D for p == 0, else n x p."""
    if order == "any":
        ws = weak_orders(n)
        order = ws[c.choose(len(ws))]
    if order is not None:
        v = c.sorted_reals(name, order)
        return v if p == 0 else v.reshape(n, 1)
    if p == 0:
        return c.reals(name, n)
    return c.reals(name, n, p)


def perms(n):
    return [list(p) for p in itertools.permutations(range(n))]


def lehmer(n, k):
    """k-th permutation of range(n) (mixed order, k taken modulo n!)."""
    xs = list(range(n))
    out = []
    for i in range(n, 0, -1):
        k, r = divmod(k, i)
        out.append(xs.pop(r))
    return out


@functools.lru_cache(None)
def weak_orders(n):
    """All weak orders of n items as rank lists."""
    out = []
    for r in itertools.product(range(n), repeat=n):
        if sorted(set(r)) == list(range(len(set(r)))):
            out.append(list(r))
    return out


def some_orders(n, k, seed=1):
    """k fixed, spread-out orders of n items, some with ties."""
    import random
    rnd = random.Random(1000 * n + seed)
    out = [list(range(n)), list(range(n))[::-1]]
    while len(out) < k:
        p = list(range(n))
        rnd.shuffle(p)
        t = rnd.randrange(3)
        if t == 1:
            p = [v // 2 for v in p]
        elif t == 2:
            p = [max(v - 1, 0) for v in p]
        r = sorted(set(p))
        p = [r.index(v) for v in p]
        if p not in out:
            out.append(p)
    return out[:k]


def modes(c):
    return c.dcor.CompileMode
