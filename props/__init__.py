"""Registry of harnesses: property id -> list of harnesses with their bounds."""
from __future__ import annotations

import importlib
import os
import pkgutil

REG: dict = {}
INFO: dict = {}


def harness(prop, quick, thorough=None, **opts):
    """Register a harness.

    quick / thorough: lists of parameter dicts (thorough is run in addition to
    quick).  opts: exact (inputs chosen so that degenerate cases are exact in
    floats), jit (replay witnesses on the compiled build), engine (Engine
    keyword arguments), weight.
    """
    def deco(f):
        for p in ([prop] if isinstance(prop, str) else prop):
            REG.setdefault(p, []).append(
                dict(name=f.__name__, fn=f, quick=quick, thorough=thorough or [], opts=opts))
        return f
    return deco


def describe(prop, **kw):
    INFO.setdefault(prop, {}).update(kw)


def load_all():
    here = os.path.dirname(__file__)
    for m in sorted(x.name for x in pkgutil.iter_modules([here])):
        importlib.import_module(f"props.{m}")


def find(prop, name):
    for h in REG.get(prop, []):
        if h["name"] == name:
            return h
    raise KeyError((prop, name))
