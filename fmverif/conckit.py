"""Concrete kit: the same contracts evaluated on the real package (real jax, double precision)."""
from __future__ import annotations
import hashlib
import traceback
import types
import numpy as onp
import jax
import jax.numpy as jnp
from .registry import Skip


class Fail(Exception):
    def __init__(self, name, detail):
        super().__init__(f"{name}: {detail}")
        self.name, self.detail = name, detail


class InterfaceGone(Exception):
    """A private helper the contract names does not exist (any more) with that signature."""


def _h(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], "big")


class ConcKit:
    symbolic = False

    def __init__(self, mods, seed, style="normal", hints=None, tol=1e-7, use_vals=False):
        self.m = mods
        self.np, self.onp, self.jax = jnp, onp, jax
        self.seed, self.style = seed, style
        self.hints = hints or {}
        self.use_vals = use_vals
        self.tol = tol
        self.cache = {}
        self.inputs = {}
        self.count = 0
        self.patched = []

    def rng(self, *key):
        return onp.random.default_rng(_h(self.seed, self.style, *key) % (2 ** 63))

    # -- inputs --------------------------------------------------------------------------------------------
    def dim(self, name, lo=1, big=3):
        if name not in self.cache:
            h = (self.hints.get("dims") or {}).get(name)
            if isinstance(h, int) and lo <= h <= 12:
                v = h
            else:
                v = lo + int(self.rng("dim", name).integers(0, big + 1))
            self.cache[name] = v
            self.inputs[name] = v
        return self.cache[name]

    def int(self, name, lo=0, hi=None):
        if name not in self.cache:
            top = hi if hi is not None else lo + 5
            if top <= lo:
                raise Skip()
            h = (self.hints.get("dims") or {}).get(name)
            v = h if isinstance(h, int) and lo <= h < top else int(self.rng("int", name).integers(lo, top))
            self.cache[name] = v
            self.inputs[name] = v
        return self.cache[name]

    def _apply_vals(self, name, a):
        if self.use_vals:
            for n, idx, part, v in self.hints.get("vals") or []:
                if n != name or v is None or len(idx) != a.ndim:
                    continue
                if all(isinstance(i, int) and 0 <= i < s for i, s in zip(idx, a.shape)):
                    try:
                        t = tuple(idx)
                        if onp.iscomplexobj(a):
                            a[t] = complex(a[t].real, v) if part == "im" else complex(v, a[t].imag if part == "re" else 0)
                        elif part != "im":
                            a[t] = v
                    except Exception:
                        pass
        return a

    def _store(self, name, a):
        a = self._apply_vals(name, a)
        self.inputs[name] = a
        r = jnp.asarray(a)
        self.cache[name] = r
        return r

    def carray(self, name, shape=(), special=False, scale=1.0, **kw):
        if name in self.cache:
            return self.cache[name]
        r = self.rng("c", name)
        a = onp.asarray((r.normal(size=shape) + 1j * r.normal(size=shape)) * scale)
        if special and self.style == "special":
            a = onp.where(r.random(size=shape) < 0.5, onp.round(a), a)
        if special and self.style == "zero":
            a = a * 0
        return self._store(name, a)

    def rarray(self, name, shape=(), sign=None, lo=None, hi=None, special=None, **kw):
        if name in self.cache:
            return self.cache[name]
        r = self.rng("r", name)
        if lo is not None and hi is not None:
            a = lo + (hi - lo) * r.random(size=shape)
        elif lo is not None:
            a = lo + abs(r.normal(size=shape))
        elif hi is not None:
            a = hi - abs(r.normal(size=shape))
        elif sign == "+":
            a = 0.3 + 2 * r.random(size=shape)
        elif sign == "0+":
            a = abs(r.normal(size=shape))
        else:
            a = r.normal(size=shape)
        a = onp.asarray(a, dtype=float)
        if special is not None and self.style in ("special", "zero"):
            sv = onp.asarray(special, dtype=float)
            a = onp.where(r.random(size=shape) < (0.5 if self.style == "special" else 1.0), sv[r.integers(0, len(sv), size=shape)], a)
        return self._store(name, onp.asarray(a))

    def iarray(self, name, shape=(), lo=None, hi=None):
        if name in self.cache:
            return self.cache[name]
        lo = -3 if lo is None else lo
        hi = lo + 7 if hi is None else hi
        return self._store(name, onp.asarray(self.rng("i", name).integers(lo, hi, size=shape)))

    def barray(self, name, shape=()):
        if name in self.cache:
            return self.cache[name]
        return self._store(name, onp.asarray(self.rng("b", name).random(size=shape) < 0.5))

    def expansion(self, name, n, lattice=None):
        if name in self.cache:
            return self.cache[name]
        r = self.rng("exp", name)
        rx, ry = (int(v) for v in r.integers(0, 4, size=2))
        while (2 * rx + 1) * (2 * ry + 1) < n:
            rx, ry = rx + 1, ry + 1
        pts = [(i, j) for i in range(-rx, rx + 1) for j in range(-ry, ry + 1)]
        sel = r.permutation(len(pts))[:n]
        g = onp.asarray([pts[i] for i in sel], dtype=int).reshape((n, 2))
        self.inputs[name] = g
        ex = self.m.basis.Expansion(basis_coefficients=g)
        self.cache[name] = ex
        return ex

    def invertible(self, name, shape):
        if name in self.cache:
            return self.cache[name]
        r = self.rng("inv", name)
        n = shape[-1]
        a = r.normal(size=shape) + 1j * r.normal(size=shape) + 2 * onp.sqrt(n) * onp.eye(n)[r.permutation(n)]
        self.inputs[name] = a
        self.cache[name] = (jnp.asarray(a), jnp.asarray(onp.linalg.inv(a)))
        return self.cache[name]

    def tangent(self, shape, kind, tag=""):
        """A pair of arrays, not both zero anywhere (either may vanish in places)."""
        jnp = self.np
        mk = self.carray if kind == "c" else self.rarray
        tx, ty = mk("tx" + tag, shape), mk("ty" + tag, shape)
        r = self.rng("tangent" + tag)
        z = jnp.asarray(r.integers(0, 6, size=shape))
        tx, ty = jnp.where(z == 0, 0, tx), jnp.where(z == 1, 0, ty)
        small = jnp.abs(tx) ** 2 + jnp.abs(ty) ** 2 < 1e-3
        return jnp.where(small & (z != 0), 1.0 + tx, tx), jnp.where(small & (z == 0), -1.0 + ty, ty)

    def ufun(self, name, kind="c"):
        def f(*xs):
            r = self.rng("ufun", name)
            out = 0.3 * r.normal()
            for x in xs:
                a, b = r.normal(), r.normal()
                out = out + jnp.sin(a * x + b) * (1.0 if kind != "c" else complex(r.normal(), r.normal())) + r.normal() * x
            return out + (jnp.prod(jnp.stack(jnp.broadcast_arrays(*xs)), axis=0) if xs else 0)
        return f

    def opaque_omega_k(self):
        pass

    def gmax(self, ex):
        g = onp.asarray(ex.basis_coefficients)
        return int(abs(g[:, 0]).max()), int(abs(g[:, 1]).max())

    # -- assumptions and obligations ---------------------------------------------------------------------
    def assume(self, cond):
        if not bool(onp.all(onp.asarray(cond))):
            raise Skip()

    def shape(self, name, a, shape):
        self.count += 1
        got = tuple(onp.shape(a))
        if got != tuple(int(s) for s in shape):
            raise Fail(name, f"shape {got}, expected {tuple(shape)}")
        return True

    def eq(self, name, a, b, tol=None):
        self.count += 1
        a, b = onp.asarray(a), onp.asarray(b)
        if a.shape != b.shape:
            raise Fail(name, f"shape {a.shape}, expected {b.shape}")
        if a.size == 0:
            return
        if a.dtype == bool or b.dtype == bool:
            if not onp.array_equal(a, b):
                raise Fail(name, f"got {a.tolist()} expected {b.tolist()}"[:800])
            return
        na, nb = onp.isnan(a), onp.isnan(b)
        fin = onp.isfinite(b) | nb
        if not fin.all():
            if onp.array_equal(a[~fin], b[~fin]) and onp.allclose(a[fin], b[fin], rtol=tol or self.tol, atol=tol or self.tol, equal_nan=True):
                return
            raise Skip()
        if (na != nb).any():
            i = tuple(int(x[0]) for x in onp.nonzero(na != nb))
            raise Fail(name, f"at {i}: got {a[i]}, expected {b[i]}")
        ok = ~nb
        if not ok.any():
            return
        t = (tol or self.tol)
        err = onp.where(ok, onp.abs(onp.where(ok, a, 0) - onp.where(ok, b, 0)), 0)
        scale = 1.0 if onp.abs(b[ok]).max() < 1 else onp.abs(b[ok]).max()
        lim = t * (0.01 * scale + onp.abs(onp.where(ok, b, 0)) + 1e-3)
        lim = onp.maximum(lim, t * scale)
        bad = ~(err <= lim)
        if bad.any():
            i = onp.unravel_index(int(onp.argmax(err)), err.shape)
            i = tuple(int(x) for x in i)
            raise Fail(name, f"at index {i}: got {a[i]}, expected {b[i]} (max error {err.max():.3g}, scale {scale:.3g})")

    def true(self, name, cond):
        self.count += 1
        c = onp.asarray(cond)
        if not bool(onp.all(c)):
            raise Fail(name, "condition is false" + (f" at {tuple(int(x[0]) for x in onp.nonzero(~c.astype(bool)))}" if c.ndim else ""))

    def le(self, name, a, b):
        self.count += 1
        a, b = onp.asarray(a), onp.asarray(b)
        s = self.tol * max(1.0, float(onp.abs(b).max()) if b.size else 1.0)
        if not bool(onp.all(a <= b + s)):
            raise Fail(name, f"not <=: worst {float(onp.max(a - b)):.4g}")

    def raises(self, name, fn, exc=(ValueError, TypeError, AssertionError, IndexError)):
        self.count += 1
        try:
            fn()
        except Skip:
            raise
        except exc as ex:
            if interface_error(ex):
                raise InterfaceGone(str(ex))
            return
        raise Fail(name, "call returned instead of raising")

    def call(self, name, fn, *a, **k):
        return fn(*a, **k)

    def patch(self, module, attr, value):
        if not hasattr(module, attr):
            raise InterfaceGone(attr)
        self.patched.append((module, attr, getattr(module, attr)))
        setattr(module, attr, value)

    def vjp(self, fn, matrix, *rest):
        import jax
        out, f = jax.vjp(lambda m: fn(m, *rest), matrix)
        return out, lambda cts: f(tuple(cts))[0]

    def abstract(self, module, attr, value):
        pass

    def unpatch(self):
        for m, a, v in reversed(self.patched):
            setattr(m, a, v)
        self.patched.clear()

    def note(self, s):
        pass


def interface_error(ex):
    s = str(ex)
    if isinstance(ex, AttributeError) and "module 'fmmax" in s:
        return True
    if isinstance(ex, TypeError) and ("unexpected keyword argument" in s or "positional argument" in s or "required keyword-only" in s):
        return True
    return False


def run_sample(contract, variant, mods, seed, style="normal", hints=None, use_vals=False):
    """-> (status, detail, kit): ok | skip | fail | gone"""
    for attempt in range(60):
        k = ConcKit(mods, (seed, attempt), style, hints, contract.tol, use_vals)
        try:
            with onp.errstate(all="ignore"):
                contract.fn(k, **variant)
            return ("ok", "", k) if k.count else ("skip", "no obligation reached", k)
        except Skip:
            continue
        except Fail as f:
            return "fail", (f.name, f.detail), k
        except InterfaceGone as ex:
            return "gone", str(ex), k
        except Exception as ex:
            if interface_error(ex):
                return "gone", str(ex), k
            tb = traceback.extract_tb(ex.__traceback__)
            fr = [f for f in tb if "/fmmax/" in f.filename]
            w = f"{fr[-1].filename.split('/')[-1]}:{fr[-1].lineno}" if fr else f"{tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}"
            if not fr:
                return "gone", f"contract harness error {type(ex).__name__}: {ex} @ {w}", k
            return "fail", ("no-exception", f"{type(ex).__name__}: {str(ex)[:400]} @ {w}"), k
        finally:
            k.unpatch()
    return "skip", "precondition not met", k


def load_mods():
    import importlib
    import os
    import fmmax
    d = os.path.dirname(fmmax.__file__)
    ns = types.SimpleNamespace()
    for n in sorted(os.listdir(d)):
        if n.endswith(".py") and n != "__init__.py":
            setattr(ns, n[:-3], importlib.import_module("fmmax." + n[:-3]))
    return ns
