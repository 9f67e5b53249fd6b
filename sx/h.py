"""Harness registry shared by the symbolic and the real world."""
import importlib
import os
import sys

REG = {}


def internal_missing(e, tb):
    """a harness asked for a private helper (lie_nn._src...) that the current tree no longer has"""
    if not tb or os.sep + "checks" + os.sep not in tb[-1].filename and not isinstance(e, ImportError):
        return False
    if isinstance(e, ImportError):
        return str(e).startswith("No module named 'lie_nn._src.")
    return isinstance(e, AttributeError) and str(e).startswith("module 'lie_nn._src.")


class Harness:
    def __init__(self, fn, cfgs, bounds, opts):
        self.fn, self.cfgs, self.bounds, self.opts = fn, cfgs, bounds, opts
        self.name = fn.__name__


def harness(cfgs=None, bounds="", **opts):
    """cfgs: tier -> list of keyword dicts (one task each)"""
    def deco(fn):
        REG.setdefault(fn.__module__.split(".")[-1], {})[fn.__name__] = Harness(fn, cfgs or (lambda tier: [{}]), bounds, opts)
        return fn
    return deco


def load(check):
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    if d not in sys.path:
        sys.path.insert(0, d)
    importlib.import_module("checks." + check)
    return REG.get(check, {})
