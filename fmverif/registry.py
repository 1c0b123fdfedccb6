"""Contract registry (imported by both the symbolic and the concrete runner)."""
from __future__ import annotations
import importlib
import itertools
import os

CONTRACTS = []


class Contract:
    def __init__(self, prop, name, fn, funcs, variants, max_paths, tol, samples, note, sym, conc, thorough_only, budget, split=True):
        self.prop, self.name, self.fn, self.funcs = prop, name, fn, funcs
        self.variants = variants
        self.max_paths = max_paths
        self.tol = tol
        self.samples = samples
        self.note = note
        self.sym = sym            # discharge symbolically
        self.conc = conc          # evaluate concretely as well
        self.thorough_only = thorough_only
        self.budget = budget
        self.split = split

    @property
    def key(self):
        return f"{self.prop}.{self.name}"


def contract(prop, name=None, funcs=(), variants=None, max_paths=64, tol=1e-7, samples=4, note="", sym=True, conc=True,
             thorough_only=False, budget=60.0, split=True, **axes):
    """Decorator. `variants`: list of keyword dicts; or keyword axes whose product gives the variants."""
    def deco(fn):
        vs = variants
        if vs is None:
            if axes:
                names = list(axes)
                vs = [dict(zip(names, c)) for c in itertools.product(*[axes[n] for n in names])]
            else:
                vs = [{}]
        props = (prop,) if isinstance(prop, str) else tuple(prop)
        for p in props:
            CONTRACTS.append(Contract(p, name or fn.__name__, fn, tuple(funcs), vs, max_paths, tol, samples, note, sym, conc,
                                      thorough_only, budget, split))
        return fn
    return deco


def load_contracts():
    d = os.path.join(os.path.dirname(__file__), "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("fmverif.contracts." + f[:-3])
    return CONTRACTS


class Skip(Exception):
    """Concrete sample does not satisfy the precondition."""


class ContractRaised(Exception):
    pass
