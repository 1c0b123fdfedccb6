"""Path context: path conditions, forking by re-execution and z3 queries over index expressions."""
from __future__ import annotations
import time
import z3
from . import expr as X
from .expr import Unsupported


class Infeasible(Exception):
    """The current path is infeasible."""


class TooManyPaths(Unsupported):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.z3_time = 0.0
        self.unknown = 0


STATS = Stats()


class Translator:
    """Translates expressions to z3 (mathematical integers / reals; complex = pair of reals)."""

    def __init__(self, relax=False):
        self.relax = relax      # integers as reals: fewer facts, so still sound for 'unsat'
        self.cache = {}
        self.side = []
        self.seen = set()
        self.names = {}
        self.depth = 0

    def var(self, a):
        z = self.cache.get(a)
        if z is not None:
            return z
        z = z3.Real(f"{a.name}@{a.uid}") if self.relax else z3.Int(f"{a.name}@{a.uid}")
        self.cache[a] = z
        self.names[a] = z
        if a.lo is not None:
            self.side.append(z >= a.lo)
        if a.hi is not None:
            h = self.real_or_int(a.hi)
            self.side.append(z < h)
        return z

    def opaque(self, key, kind, label):
        z = self.cache.get(key)
        if z is None:
            z = z3.Int(label) if kind in ("i", "b") and not self.relax else z3.Real(label)
            self.cache[key] = z
        return z

    def atom(self, a):
        """-> (re, im) z3 exprs, im None if real; integer atoms give Int sort."""
        t = a.key[0]
        if t == "V":
            return self.var(a), None
        if t == "S":
            z = self.opaque(a, "r", "pi")
            if a not in self.seen:
                self.seen.add(a)
                self.side.append(z > z3.Q(314159, 100000))
                self.side.append(z < z3.Q(314160, 100000))
            return z, None
        if t == "I":
            c = self.indicator(a)
            if c is not None:
                return z3.If(c, z3.IntVal(1), z3.IntVal(0)), None
            z = self.opaque(a, "i", f"ind@{a.uid}")
            if a not in self.seen:
                self.seen.add(a)
                self.side.append(z3.And(z >= 0, z <= 1))
            return z, None
        if t == "B":
            return self.expr(a.args[0])
        if t == "A" or t == "F":
            if t == "F" and a.name == "div":
                n = self.real_or_int(a.args[0])
                d = self.real_or_int(a.args[1])
                z = self.opaque(a, "i", f"div@{a.uid}")
                if a not in self.seen:
                    self.seen.add(a)
                    self.side.append(z * d <= n)
                    self.side.append(n < (z + 1) * d)
                return z, None
            base = X.conj_atom(a) if a.cj else a
            if a.kind == "c":
                r = self.opaque((base, "re"), "r", f"re:{a.name}@{base.uid}")
                i = self.opaque((base, "im"), "r", f"im:{a.name}@{base.uid}")
                if base not in self.seen:
                    self.seen.add(base)
                    self.facts(base, r, i)
                return r, (-i if a.cj else i)
            z = self.opaque(a, a.kind, f"{a.name}@{a.uid}")
            if a not in self.seen:
                self.seen.add(a)
                if a.kind == "b":
                    self.side.append(z3.And(z >= 0, z <= 1))
                self.facts(a, z, None)
            return z, None
        raise Unsupported("z3 atom")

    def facts(self, a, r, i):
        t = a.key[0]
        if t == "A":
            if a.meta.sign == "+":
                self.side.append(r > 0)
            elif a.meta.sign == "0+":
                self.side.append(r >= 0)
            f = a.meta.facts
            if f is not None and self.depth < 3:
                self.depth += 1
                for kind, e in f(a.args, a):
                    self.side.append(self.cond(kind, e))
                self.depth -= 1
        elif t == "F":
            if a.name == "sqrt":
                x, xi = self.expr(a.args[0])
                if a.kind == "r":
                    self.side.append(r >= 0)
                    self.side.append(r * r == self.R(x))
                else:
                    self.side.append(r >= 0)
                    self.side.append(r * r - i * i == self.R(x))
                    self.side.append(2 * r * i == (self.R(xi) if xi is not None else 0))
                    # principal branch: on the imaginary axis the imaginary part is non-negative
                    self.side.append(z3.Implies(r == 0, i >= 0))
            elif a.name == "abs":
                x, xi = self.expr(a.args[0])
                self.side.append(r >= 0)
                if xi is None:
                    self.side.append(r == z3.If(self.R(x) >= 0, self.R(x), -self.R(x)))
                else:
                    self.side.append(r * r == self.R(x) * self.R(x) + self.R(xi) * self.R(xi))
            elif a.name == "max":
                xs = [self.R(self.expr(y)[0]) for y in a.args]
                for x in xs:
                    self.side.append(r >= x)
                self.side.append(z3.Or([r == x for x in xs]))
            elif a.name == "round":
                x = self.R(self.expr(a.args[0])[0])
                self.side.append(z3.And(2 * self.R(r) - 2 * x <= 1, 2 * self.R(r) - 2 * x >= -1))

    def close(self):
        """Instances max_v body(v) >= body(t) for the array elements that occur in the query."""
        done = set()
        for _ in range(2):
            atoms = [a for a in self.seen if isinstance(a, X.Atom) and a.key[0] == "A"] if hasattr(X, "Atom") else [a for a in self.seen if not isinstance(a, tuple) and hasattr(a, "key") and a.key[0] == "A"]
            mx = [a for a in atoms if isinstance(a.meta.info, dict) and a.meta.info.get("red", {}).get("op") == "amax"]
            for m in mx:
                info = m.meta.info["red"]
                for mp in self.instances(info, m, atoms):
                    key = (m, tuple(e.uid for e in mp.values()))
                    if key in done:
                        continue
                    done.add(key)
                    full = dict(mp)
                    full.update(zip(info["free"], m.args))
                    guard = []
                    for v in info["rvars"]:
                        guard.append(self.cond("ge", mp[v]))
                        guard.append(self.cond("ge", X.subst(v.hi, full) - 1 - mp[v]))
                    val = self.cond("ge", X.atom(m) - X.subst(info["body"], full)) if m.kind == "i" else None
                    if val is not None:
                        self.side.append(z3.Implies(z3.And(guard), val))

    def instances(self, info, m, atoms):
        rv = info["rvars"]
        out = {}
        for mono in info["body"].t:
            if mono.bv or mono.ex is not None:
                return []
            for pat, _ in mono.fac:
                if pat.key[0] != "A":
                    continue
                for a in atoms:
                    if a.meta is not pat.meta or len(a.args) != len(pat.args):
                        continue
                    mp = {}
                    ok = True
                    for pa, aa in zip(pat.args, a.args):
                        w = [v for v in rv if pa.uid == X.atom(v).uid]
                        if w:
                            if w[0] in mp and mp[w[0]].uid != aa.uid:
                                ok = False
                            mp[w[0]] = aa
                        elif not any(v in pa.fv for v in info["free"]) and pa.uid != aa.uid:
                            ok = False
                    if ok and len(mp) == len(rv):
                        out[tuple(mp[v].uid for v in rv)] = {v: mp[v] for v in rv}
        first = {v: X.num(v.lo) for v in rv}
        out[tuple(e.uid for e in first.values())] = first
        return list(out.values())[-6:]

    @staticmethod
    def R(z):
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z

    def real_or_int(self, e):
        r, i = self.expr(e)
        return r

    def expr(self, e):
        if not e.t:
            return z3.IntVal(0), None
        tr = None
        ti = None
        for m, c in e.t.items():
            r, i = self.mono(m)
            if isinstance(c, X.GQ):
                cr, ci = self.q(c.r), self.q(c.i)
                r = self.R(r)
                if i is None:
                    rr, ii = cr * r, ci * r
                else:
                    rr, ii = cr * r - ci * i, cr * i + ci * r
            else:
                k = self.q(c) if not isinstance(c, int) else None
                if k is None:
                    rr = r if c == 1 else c * r
                    ii = None if i is None else (i if c == 1 else c * i)
                else:
                    rr = k * self.R(r)
                    ii = None if i is None else k * self.R(i)
            tr = rr if tr is None else self.add(tr, rr)
            if ii is not None:
                ti = ii if ti is None else self.add(ti, ii)
        return tr, ti

    def q(self, c):
        from fractions import Fraction as Fr
        c = Fr(c)
        return z3.Q(c.numerator, c.denominator)

    def add(self, a, b):
        if a.sort() != b.sort():
            a, b = self.R(a), self.R(b)
        return a + b

    def mono(self, m):
        if m.bv:
            z = self.opaque((m, "re"), "r", f"sum@{m.uid}")
            if X.is_real(X.E({m: 1})):
                if X.mono_int(m):
                    z = self.opaque((m, "int"), "i", f"isum@{m.uid}")
                if m not in self.seen and X.is_nonneg(X.E({m: 1})):
                    self.seen.add(m)
                    self.side.append(z >= 0)
                return z, None
            return z, self.opaque((m, "im"), "r", f"sumi@{m.uid}")
        r, i = z3.IntVal(1), None
        first = True
        for a, p in m.fac:
            ar, ai = self.atom(a)
            if p < 0:
                if ai is None:
                    inv = self.opaque((a, "inv"), "r", f"inv@{a.uid}")
                    if (a, "inv") not in self.seen:
                        self.seen.add((a, "inv"))
                        self.side.append(inv * self.R(ar) == 1)
                    ar = inv
                else:
                    ir = self.opaque((a, "invr"), "r", f"invr@{a.uid}")
                    ii = self.opaque((a, "invi"), "r", f"invi@{a.uid}")
                    if (a, "inv") not in self.seen:
                        self.seen.add((a, "inv"))
                        self.side.append(ir * self.R(ar) - ii * self.R(ai) == 1)
                        self.side.append(ir * self.R(ai) + ii * self.R(ar) == 0)
                    ar, ai = ir, ii
            for _ in range(abs(p)):
                if first:
                    r, i = ar, ai
                    first = False
                    continue
                if i is None and ai is None:
                    if r.sort() != ar.sort():
                        r, ar = self.R(r), self.R(ar)
                    r = r * ar
                else:
                    rr, ri = self.R(r), (self.R(i) if i is not None else None)
                    br, bi = self.R(ar), (self.R(ai) if ai is not None else None)
                    if ri is None:
                        r, i = rr * br, rr * bi
                    elif bi is None:
                        r, i = rr * br, ri * br
                    else:
                        r, i = rr * br - ri * bi, rr * bi + ri * br
        if m.ex is not None:
            er = self.opaque((m.ex.uid, "exr"), "r", f"exr@{m.ex.uid}")
            ei = None
            if X.is_real(m.ex):
                if (m.ex.uid, "ex") not in self.seen:
                    self.seen.add((m.ex.uid, "ex"))
                    self.side.append(er > 0)
            else:
                neg = -m.ex
                sg = 1
                if neg.uid < m.ex.uid and X.is_real(m.ex * X.IUNIT):
                    er = self.opaque((neg.uid, "exr"), "r", f"exr@{neg.uid}")
                    ei = self.opaque((neg.uid, "exi"), "r", f"exi@{neg.uid}")
                    sg = -1
                    key = neg.uid
                else:
                    ei = self.opaque((m.ex.uid, "exi"), "r", f"exi@{m.ex.uid}")
                    key = m.ex.uid
                if X.is_real(m.ex * X.IUNIT) and (key, "ex") not in self.seen:
                    self.seen.add((key, "ex"))
                    self.side.append(er * er + ei * ei == 1)
                if sg < 0:
                    ei = -ei
            if first:
                r, i = er, ei
            else:
                r = self.R(r)
                if i is None and ei is None:
                    r = r * er
                elif i is None:
                    r, i = r * er, r * ei
                elif ei is None:
                    r, i = r * er, i * er
                else:
                    i = self.R(i)
                    r, i = r * er - i * ei, r * ei + i * er
        return r, i

    def indicator(self, a):
        if a.name == "eq":
            return self.cond("eq", a.args[0])
        if a.name == "ge":
            return self.cond("ge", a.args[0])
        if a.name == "gt":
            return self.cond("gt", a.args[0])
        if a.name == "req":
            return self.cond("req", a.args[0])
        if a.name == "mod0":
            g = self.real_or_int(a.args[0])
            n = self.real_or_int(a.args[1])
            return g % n == 0
        return None

    def cond(self, kind, e):
        r, i = self.expr(e)
        if kind == "eq" or kind == "req":
            c = r == 0
            if i is not None:
                c = z3.And(c, i == 0)
            return c
        if kind == "ge":
            return r >= 0
        if kind == "gt":
            return r > 0
        if kind == "true":      # e is a 0/1 expression
            return r == 1
        if kind == "false":
            return r == 0
        if kind == "or":        # e: list of (kind, E)
            raise Unsupported("or")
        raise Unsupported(kind)


class Case:
    """Case analysis of one obligation: conditions over the obligation's index variables are decided by
    forking (every feasible combination is visited) instead of being carried as indicators."""
    tokens = 0

    def __init__(self, ctx, prefix, pending, free):
        Case.tokens += 1
        self.token = Case.tokens
        self.ctx, self.prefix, self.pending, self.free = ctx, list(prefix), pending, free
        self.decisions = []
        self.known = {}
        self.subs = []
        self.on = True

    def allows(self, a):
        return self.on and all(v.hi is None or v in self.free for v in a.fv) and not any(v.name.startswith("~") for v in a.fv)

    def decide(self, a):
        if a in self.known:
            return self.known[a]
        ctx = self.ctx
        e = X.atom(a)
        n = len(self.decisions)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            t = ctx.sat([("true", e)])
            f = ctx.sat([("false", e)])
            if t == "unsat" and f == "unsat":
                raise Infeasible()
            if t == "unsat" or f == "unsat":
                self.known[a] = f == "unsat"
                return self.known[a]
            if n >= 24:
                raise TooManyPaths("too many cases in one obligation")
            self.pending.append(self.decisions + [False])
            v = True
        self.decisions.append(v)
        ctx.add("true" if v else "false", e)
        self.known[a] = v
        if v and a.name == "eq":
            self.subs.append(a)
        return v


class Context:
    case = None

    def __init__(self, prefix=(), deadline=None, timeout_ms=1500, max_forks=40):
        self.prefix = list(prefix)
        self.decisions = []  # (bool, both_feasible)
        self.pc = []  # list of (kind, E)
        self.pckey = ()
        self.cache = {}
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.max_forks = max_forks
        self.assumptions = []
        self.inj = []
        self.extra_hyps = []
        self.notes = []
        self.nfork = 0

    # -- constraints ---------------------------------------------------------------------------------------
    def add(self, kind, e):
        self.pc.append((kind, e))
        self.pckey = self.pckey + ((kind, e.uid),)

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise X.OutOfBudget("time budget exhausted")

    def relevant_pc(self, fv):
        return self.pc

    def solver(self, extra, timeout_ms=None, nonlinear=False):
        tr = Translator()
        cs = [tr.cond(k, e) for k, e in self.pc]
        cs += [tr.cond(k, e) if not isinstance(e, tuple) else None for k, e in extra]
        tr.close()
        s = z3.Solver()
        s.set("timeout", int(timeout_ms or self.timeout_ms))
        for c in cs + tr.side:
            s.add(c)
        return s, tr

    def implied(self, facts, goal, timeout_ms=8000):
        """facts (and only these) imply goal, with integers relaxed to reals."""
        self.check_deadline()
        t0 = time.time()
        tr = Translator(relax=True)
        cs = [tr.cond(k, e) for k, e in facts] + [z3.Not(tr.cond(*goal))]
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        for c in cs + tr.side:
            s.add(c)
        r = str(s.check())
        STATS.queries += 1
        STATS.z3_time += time.time() - t0
        return r == "unsat"

    def sat(self, extra, timeout_ms=None, want_model=False):
        """'sat' / 'unsat' / 'unknown' of pc and extra."""
        self.check_deadline()
        key = (self.pckey, tuple((k, e.uid) for k, e in extra))
        if not want_model and key in self.cache:
            return self.cache[key]
        t0 = time.time()
        s, tr = self.solver(extra, timeout_ms)
        r = str(s.check())
        STATS.queries += 1
        STATS.z3_time += time.time() - t0
        if r == "unknown":
            STATS.unknown += 1
        if want_model:
            return r, (s.model() if r == "sat" else None), tr
        self.cache[key] = r
        return r

    def neg(self, kind, e):
        if kind == "ge":
            return ("ge", -e - 1) if X.is_int(e) else ("gt", -e)
        if kind == "gt":
            return ("nle", e)
        raise Unsupported(kind)

    def decide(self, kind, e):
        """True/False/None."""
        if kind in ("gt", "req"):
            # real comparisons: only decided when linear-ish and small (nonlinear real queries are slow)
            if not self.pc and not _has_facts(e):
                return None
            if len(e.t) > 12:
                return None
            t = 400
            if kind == "gt":
                if self.sat([("gt", e)], t) == "unsat":
                    return False
                if self.sat([("ge", -e)], t) == "unsat":
                    return True
                return None
            if self.sat([("req", e)], t) == "unsat":
                return False
            return None
        if len(e.t) > 24:
            return None
        if kind == "eq":
            if self.sat([("eq", e)]) == "unsat":
                return False
            if not self.pc and not _has_facts(e):
                return None
            if self.sat([("ge", e - 1)]) == "unsat" and self.sat([("ge", -e - 1)]) == "unsat":
                return True
            return None
        if kind == "ge":
            if self.sat([("ge", -e - 1)]) == "unsat":
                return True
            if self.sat([("ge", e)]) == "unsat":
                return False
            return None
        return None

    # -- injectivity of index pairs ------------------------------------------------------------------------
    def inj_rule(self, bv, fac, ex):
        found = {}
        for a in fac:
            if a.key[0] != "I" or a.name != "eq":
                continue
            e = a.args[0]
            if len(e.t) != 2 or X.ONE_M in e.t:
                continue
            items = list(e.t.items())
            (m1, c1), (m2, c2) = items
            if not (c1 == -c2 and abs_one(c1)):
                continue
            if len(m1.fac) != 1 or len(m2.fac) != 1 or m1.bv or m2.bv or m1.ex is not None or m2.ex is not None:
                continue
            a1, p1 = m1.fac[0]
            a2, p2 = m2.fac[0]
            if p1 != 1 or p2 != 1 or a1.key[0] != "A" or a2.key[0] != "A" or a1.meta is not a2.meta:
                continue
            info = a1.meta.info
            if not isinstance(info, dict) or "inj" not in info:
                continue
            ncomp = info["inj"]
            comp1, comp2 = a1.args[-1].int_const(), a2.args[-1].int_const()
            if comp1 is None or comp1 != comp2:
                continue
            lead1, lead2 = a1.args[:-1], a2.args[:-1]
            k = (a1.meta, frozenset([tuple(x.uid for x in lead1), tuple(x.uid for x in lead2)]))
            d = found.setdefault(k, {"comps": {}, "idx": (lead1, lead2), "n": ncomp})
            d["comps"][comp1] = a
        for k, d in found.items():
            if len(d["comps"]) == d["n"]:
                drop = set(d["comps"].values())
                f2 = {b: p for b, p in fac.items() if b not in drop}
                r = X.build([], f2, ex)
                for x, y in zip(*d["idx"]):
                    r = r * X.ind_eq(x - y)
                for v in bv:
                    r = X.sum_over(r, v)
                return r
        return None

    # -- forking -------------------------------------------------------------------------------------------
    def branch(self, e):
        """Decide a 0/1 expression, forking if both values are feasible."""
        c = e.const()
        if c is not None:
            return bool(c)
        key = e.uid
        n = len(self.decisions)
        if n < len(self.prefix):
            v = self.prefix[n]
            self.decisions.append(v)
            self.add("true" if v else "false", e)
            return v
        t = self.sat([("true", e)])
        f = self.sat([("false", e)])
        if t == "unsat" and f == "unsat":
            raise Infeasible()
        if t == "unsat":
            return False
        if f == "unsat":
            return True
        self.nfork += 1
        if len(self.decisions) >= self.max_forks:
            raise TooManyPaths("too many forks on one path")
        self.pending.append(list(self.decisions) + [False])
        self.decisions.append(True)
        self.add("true", e)
        return True

    pending: list


def abs_one(c):
    return c == 1 or c == -1


def _has_facts(e):
    for m in e.t:
        for a, p in m.fac:
            t = a.key[0]
            if t == "A" and (a.meta.facts is not None or a.meta.sign is not None):
                return True
            if t == "F" and a.name in ("div", "max", "sqrt", "abs", "round"):
                return True
            if t in ("I", "S"):
                return True
            if t == "B":
                return True
    return False


def explore(fn, deadline, max_paths=64, timeout_ms=1500):
    """Run fn(ctx) over all feasible paths. Yields (ctx, outcome) where outcome is fn's return value."""
    pending = [[]]
    n = 0
    while pending:
        prefix = pending.pop()
        n += 1
        if n > max_paths:
            raise TooManyPaths(f"more than {max_paths} paths")
        ctx = Context(prefix, deadline, timeout_ms)
        ctx.pending = pending
        X.set_ctx(ctx)
        X._ticks[1] = ctx.check_deadline
        try:
            yield ctx, fn(ctx)
        except Infeasible:
            continue
        finally:
            X.set_ctx(None)
