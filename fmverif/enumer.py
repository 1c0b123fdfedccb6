"""Reasoning about arrays that enumerate a set: scalar let-bindings, and existential elimination over
argsort / boolean-mask / flattened-grid enumerations."""
from __future__ import annotations
import itertools
from . import expr as X, arrays as A
from .arrays import SArr, mk_int, asarray
from .expr import Unsupported, atom, num, ZERO, ONE


class Cutter:
    """While active (arrays.CUT), every scalar (rank-0) square root, absolute value, quotient, ceiling or
    rounding gets a name, whose defining equation is kept in `defs` (used only by obligations that ask for it)."""

    def __init__(self, ctx):
        self.ctx, self.defs, self.memo = ctx, [], {}

    def unfold(self, e):
        """Even powers of named square roots and absolute values replaced by what they are."""
        sq = {}
        for kind, d in self.defs:
            if square_def((kind, d)):
                for m, c in d.t.items():
                    if c == 1 and len(m.fac) == 1 and m.fac[0][1] == 2 and m.fac[0][0].key[0] == "A" and m.fac[0][0].name.startswith("let"):
                        a = m.fac[0][0]
                        sq[a] = X.E({m: 1}) - d
                        break
        for _ in range(6):
            r = ZERO
            hit = False
            for m, c in e.t.items():
                p = X.E({X.ONE_M: c})
                if m.bv or m.ex is not None:
                    p = X.E({m: c})
                else:
                    for a, k in m.fac:
                        if a in sq and k >= 2:
                            p, k, hit = p * sq[a] ** (k // 2), k % 2, True
                        p = p * (atom(a) ** k if k >= 0 else X.recip(atom(a)) ** (-k))
                r = r + p
            e = r
            if not hit:
                break
        return e

    def valid(self, neg):
        return self.ctx.sat(self.defs + neg, timeout_ms=5000) == "unsat"

    def name(self, key, kind, defs, dtype):
        n = len(self.memo)
        s = X.arrsym(f"let{n}", kind)
        e = X.app_e(s, ())
        self.defs += defs(e)
        s.facts = None
        if kind == "i":
            if not self.valid([("ge", -e - 1)]):
                raise Unsupported("integer of unknown sign")
            s.sign = "0+"
        elif self.valid([("ge", -e)]):
            s.sign = "+"
        elif self.valid([("gt", -e)]):
            s.sign = "0+"
        r = SArr((), dtype, lambda i: e)
        self.memo[key] = r
        return r

    def scalar(self, op, *xs):
        """The named result of op on rank-0 arguments, or None if not applicable."""
        if any(x.ndim or x.dtype.kind == "c" for x in xs):
            return None
        es = [x.el(()) for x in xs]
        if all(e.const() is not None for e in es):
            return None
        key = (op,) + tuple(e.uid for e in es)
        if key in self.memo:
            return self.memo[key]
        e = es[0]
        if op == "sqrt":
            return self.name(key, "r", lambda s: [("ge", s), ("req", s * s - e)], A.F64)
        if op == "abs":
            return self.name(key, "r", lambda s: [("ge", s), ("req", s * s - e * e)], A.F64) if not X.is_int(e) else None
        if op == "div":
            d = es[1]
            if d.const() is not None or (len(d.t) == 1 and d.same(atom(X.PI))):
                return None
            return self.name(key, "r", lambda s: [("req", s * d - e)], A.F64)
        if op == "ceil" and not X.is_int(e):
            return self.name(key, "i", lambda s: [("ge", s - e), ("gt", e + 1 - s)], A.F64)
        if op == "floor" and not X.is_int(e):
            return self.name(key, "i", lambda s: [("ge", e - s), ("gt", s + 1 - e)], A.F64)
        if op == "round" and not X.is_int(e):
            return self.name(key, "i", lambda s: [("ge", (s - e).scale(2) + 1), ("ge", ONE - (s - e).scale(2))], A.F64)
        return None


def square_def(d):
    """Definition of a square root or absolute value: let^2 - e = 0."""
    return d[0] == "req" and any(len(m.fac) == 1 and m.fac[0][1] == 2 and m.fac[0][0].key[0] == "A" and m.fac[0][0].name.startswith("let") for m in d[1].t)


def negate(g):
    kind, e = g
    if kind == "ge":
        return ("ge", -e - 1) if X.is_int(e) else ("gt", -e)
    if kind == "gt":
        return ("ge", -e)
    if kind == "true":
        return ("false", e)
    raise Unsupported(kind)


def replace(e, fn):
    """e with every atom a for which fn(a) is not None replaced (outermost first)."""
    r = ZERO
    for m, c in e.t.items():
        if m.bv or m.ex is not None:
            raise Unsupported("replace under a binder")
        p = X.E({X.ONE_M: c})
        for a, k in m.fac:
            s = replace_atom(a, fn)
            if a.key[0] == "B":
                s, k = X.recip(s), -k
            p = p * (s ** k if k >= 0 else X.recip(s) ** (-k))
        r = r + p
    return r


def replace_atom(a, fn):
    s = fn(a)
    if s is not None:
        return s
    if not a.args or a.key[0] in ("V", "S"):
        return atom(a)
    args = tuple(replace(x, fn) for x in a.args)
    if all(x.same(y) for x, y in zip(args, a.args)):
        return atom(a)
    return X.rebuild_atom(a, args)


def find(e, pred, out=None):
    out = {} if out is None else out
    for m in e.t:
        for a, _ in m.fac:
            if pred(a):
                out[a] = True
            for x in a.args:
                find(x, pred, out)
    return list(out)


class Enumeration:
    """The rows of a 2-D array (p -> row) as the image {row(vars) : conditions} of a product of integer ranges."""
    count = itertools.count()

    def __init__(self, g):
        n = next(Enumeration.count)
        self.g = g
        self.p = p = X.Var(f"%row{n}", 0, A.dim_e(g.shape[0]))
        self.rows = [g.el((atom(p), num(c))) for c in range(g.shape[1])]
        self.vars, self.conds, self.perms, self.sels, self.order, self.at = [p], [], [], [], [], []
        self.snap = []
        self.ptr = p
        while self.step():
            pass

    def _sub(self, a, e):
        f = lambda b: e if b is a else None
        self.rows = [replace(r, f) for r in self.rows]
        self.conds = [replace(c, f) for c in self.conds]

    def step(self):
        v = self.ptr
        if v is None:
            return False
        key = atom(v).uid
        for what in ("perm", "sel"):
            hit = []
            for r in self.rows:
                hit += find(r, lambda a: a.key[0] == "A" and isinstance(a.meta.info, dict) and what in a.meta.info
                            and len(a.args) == 1 and a.args[0].uid == key)
            hit = list(dict.fromkeys(hit))
            if len(hit) == 1:
                a = hit[0]
                info = a.meta.info
                w = X.Var(f"%{what}{next(Enumeration.count)}", 0, info["n"] if what == "perm" else info["hi"])
                self._sub(a, atom(w))
                if any(v in r.fv for r in self.rows):
                    raise Unsupported("row index used outside its permutation")
                self.vars[self.vars.index(v)] = w
                self.order.append(what)
                self.at.append(w)
                self.snap.append(list(self.rows))
                if what == "sel":
                    self.sels.append(a)
                    with A.no_facts():
                        self.conds.append(info["sel"].el((atom(w),)))
                else:
                    self.perms.append(a)
                self.ptr = w
                return True
        # a flattened grid
        hit = []
        for r in self.rows:
            hit += find(r, lambda a: a.key[0] == "F" and a.name == "div" and a.args[0].uid == key)
        hit = list(dict.fromkeys(hit))
        if len(hit) != 1:
            self.ptr = None
            return False
        W = hit[0].args[1]
        H = X.exact_div(v.hi, W)
        if H is None:
            raise Unsupported("flattened grid of unknown height")
        a = X.Var(f"%a{next(Enumeration.count)}", 0, H)
        b = X.Var(f"%b{next(Enumeration.count)}", 0, W)
        self._sub(hit[0], atom(a))
        mp = {v: atom(a) * W + atom(b)}
        self.rows = [X.subst(r, mp) for r in self.rows]
        self.conds = [X.subst(c, mp) for c in self.conds]
        k = self.vars.index(v)
        self.vars[k:k + 1] = [a, b]
        self.ptr = None
        return False

    def rows_at(self, n):
        """The rows in terms of the variable at[n] of the n-th enumeration."""
        return self.snap[n]

    def solve(self, target):
        """Values of the variables whose row is `target` (rows must be distinct variables plus offsets)."""
        mp = {}
        for r, t in zip(self.rows, target):
            vs = [v for v in self.vars if v in r.fv]
            if len(vs) != 1 or vs[0] in mp or vs[0] in (r - atom(vs[0])).fv:
                raise Unsupported("rows of the enumeration are not offsets of its variables")
            mp[vs[0]] = t - (r - atom(vs[0]))
        if len(mp) != len(self.vars):
            raise Unsupported("enumeration variable does not occur")
        return mp
