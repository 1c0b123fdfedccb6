"""Discharges equalities between index expressions under the path condition and the definitional hypotheses."""
from __future__ import annotations
from fractions import Fraction as Fr
from . import expr as X
from . import arrays as A
from .expr import E, ZERO, ONE, atom, as_e, num, Unsupported


class Stats:
    def __init__(self):
        self.methods = {}

    def hit(self, m):
        self.methods[m] = self.methods.get(m, 0) + 1


# ---- relations -------------------------------------------------------------------------------------------
def elem_of(h, args, i, j):
    """Element A[i,j] of the matrix behind an inverse / eigen symbol, at the batch args."""
    mp = dict(zip(h["cvars"], args))
    mp[h["i"]] = i
    mp[h["j"]] = j
    return X.subst(h["e"], mp)


_elem_cache = {}


def inv_left(h, args, i, j):
    """SUM_k A[i,k] Ainv[k,j] - [i==j]"""
    k = X.fresh(h["n"])
    e = X.sum_over(elem_of(h, args, i, atom(k)) * X.app_e(h["sym"], tuple(args) + (atom(k), j)), k)
    return e - X.ind_eq(i - j)


def inv_right(h, args, i, j):
    k = X.fresh(h["n"])
    e = X.sum_over(X.app_e(h["sym"], tuple(args) + (i, atom(k))) * elem_of(h, args, atom(k), j), k)
    return e - X.ind_eq(i - j)


def eig_rel(h, args, i, j):
    k = X.fresh(h["n"])
    e = X.sum_over(elem_of(h, args, i, atom(k)) * X.app_e(h["sv"], tuple(args) + (atom(k), j)), k)
    return e - X.app_e(h["sv"], tuple(args) + (i, j)) * X.app_e(h["sl"], tuple(args) + (j,))


def match_expr(p, t, pv, sub):
    """Match pattern expression p (with pattern variables pv) against t. Yields substitutions."""
    if not any(v in p.fv for v in pv):
        if p.same(t):
            yield sub
        return
    # linear pattern: single variable
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        if c == 1 and len(m.fac) == 1 and m.fac[0][1] == 1 and not m.bv and m.ex is None and m.fac[0][0] in pv:
            v = m.fac[0][0]
            if v in sub:
                if sub[v].same(t):
                    yield sub
                return
            s = dict(sub)
            s[v] = t
            yield s
            return
    # pattern  v + rest(no pattern var)
    vs = [v for v in pv if v in p.fv]
    if len(vs) == 1:
        l = X._lin(p, vs[0])
        if l is not None and l[0] in (1, -1):
            val = (t - l[1]).scale(l[0])
            v = vs[0]
            if v in sub:
                if sub[v].same(val):
                    yield sub
                return
            s = dict(sub)
            s[v] = val
            yield s
            return
    # after substitution all known?
    if all(v in sub for v in vs):
        if X.subst(p, {v: sub[v] for v in vs}).same(t):
            yield sub
        return
    # structural single-mono match
    if len(p.t) == 1 and len(t.t) == 1:
        ((m, c),) = p.t.items()
        ((n, d),) = t.t.items()
        if c == d and not m.bv and not n.bv and (m.ex is None) == (n.ex is None) and len(m.fac) == len(n.fac):
            for s in match_factors(list(m.fac), dict(n.fac), pv, sub, exact=True):
                s2, used = s
                if m.ex is None:
                    yield s2
                else:
                    yield from match_expr(m.ex, n.ex, pv, s2)


def match_atom(p, t, pv, sub):
    if p.key[0] == "V":
        if p in pv:
            if p in sub:
                if sub[p].same(atom(t)):
                    yield sub
            else:
                s = dict(sub)
                s[p] = atom(t)
                yield s
        elif p is t:
            yield sub
        return
    if p.key[0] != t.key[0] or p.name != t.name or p.kind != t.kind or p.cj != t.cj or len(p.args) != len(t.args):
        return
    if not any(v in p.fv for v in pv):
        if p is t:
            yield sub
        return
    subs = [sub]
    for a, b in zip(p.args, t.args):
        new = []
        for s in subs:
            new.extend(match_expr(a, b, pv, s))
        subs = new
        if not subs:
            return
    yield from subs


def match_factors(pf, tf, pv, sub, exact=False):
    """Match the list of pattern factors (atom, power) against the dict of target factors."""
    if not pf:
        if not exact or not tf:
            yield sub, {}
        return
    a, p = pf[0]
    for b, q in list(tf.items()):
        if (q >= p > 0) or (q <= p < 0):
            for s in match_atom(a, b, pv, sub):
                tf2 = dict(tf)
                if q == p:
                    del tf2[b]
                else:
                    tf2[b] = q - p
                for s2, used in match_factors(pf[1:], tf2, pv, s, exact):
                    u = dict(used)
                    u[b] = u.get(b, 0) + p
                    yield s2, u


def find_relations(m, limit=40):
    """Instances of the definitional hypotheses that share the monomial m. Yields expressions equal to zero."""
    bv, fac, ex = X.open_mono(m)
    bvs = set(bv)
    out = 0
    # reciprocal bases
    for a, p in list(fac.items()):
        if a.key[0] == "B" and p < 0:
            x = a.args[0]
            for t, c in x.t.items():
                if t.bv or t.ex is not None:
                    continue
                f2 = dict(fac)
                ok = True
                for b, q in t.fac:
                    r = f2.get(b, 0)
                    if q > 0 and r >= q or q < 0 and r <= q:
                        f2[b] = r - q
                    else:
                        ok = False
                        break
                if not ok:
                    continue
                f3 = {b: q for b, q in f2.items() if q}
                base = X.build([], f3, ex)
                f4 = dict(f3)
                f4[a] = f4.get(a, 0) + 1
                rest = X.build([], {b: q for b, q in f4.items() if q}, ex)
                rel = base * x - rest
                for v in bv:
                    rel = X.sum_over(rel, v)
                if rel.t:
                    yield rel
                    out += 1
                if out > limit:
                    return
    for a, p in list(fac.items()):
        if a.key[0] != "A" or p != 1 or not isinstance(a.meta.info, dict) or "lin" not in a.meta.info:
            continue
        kind = a.meta.info["lin"]
        if kind == "inv":
            h = A.HYPS.inv[a.name]
            cj = a.cj
            args, (r, c) = a.args[:-2], a.args[-2:]
            # A Ainv: row index r of Ainv must be a bound variable
            for side in ("left", "right"):
                pos = r if side == "left" else c
                k = _as_bound(pos, bvs)
                if k is None:
                    continue
                for rel in _inst(h, a, args, k, r, c, bv, fac, ex, side, cj):
                    yield rel
                    out += 1
                    if out > limit:
                        return
        elif kind == "eigvec":
            h = A.HYPS.eig[a.name]
            args, (r, c) = a.args[:-2], a.args[-2:]
            k = _as_bound(r, bvs)
            if k is not None:
                for rel in _inst_eig(h, a, args, k, r, c, bv, fac, ex):
                    yield rel
                    out += 1
                    if out > limit:
                        return
            # V[r,c]*lam[c] -> A V
            lam = X.app_e(h["sl"], tuple(args) + (c,))
            (lm,) = lam.t
            la = lm.fac[0][0]
            if la in fac and not a.cj:
                f2 = dict(fac)
                del f2[a]
                f2[la] -= 1
                base = X.build([], {b: q for b, q in f2.items() if q}, ex)
                rel = base * eig_rel(h, args, r, c)
                for v in bv:
                    rel = X.sum_over(rel, v)
                yield rel


def _as_bound(e, bvs):
    for v in bvs:
        if e.same(atom(v)):
            return v
    return None


def _inst(h, a, args, k, r, c, bv, fac, ex, side, cj):
    """Match terms of A against the factors around Ainv."""
    bvs = set(bv)
    free_idx = X.Var("?i", None, None)
    if side == "left":   # SUM_k A[i,k] Ainv[k,c]
        Ae = elem_of(h, args, atom(free_idx), atom(k))
    else:                # SUM_k Ainv[r,k] A[k,j]
        Ae = elem_of(h, args, atom(k), atom(free_idx))
    if cj:
        Ae = Ae.conj()
    others = {b: q for b, q in fac.items() if b is not a}
    for t, coef in Ae.t.items():
        tb, tf, tex = X.open_mono(t)
        if tex is not None:
            if ex is None:
                continue
        pv = set(tb) | {free_idx}
        pats = [(b, q) for b, q in tf.items() if b.fv & (pv | {k})]
        fixed = [(b, q) for b, q in tf.items() if not (b.fv & (pv | {k}))]
        if any(b.key[0] == "I" for b, q in pats):
            # delta terms: [i == k]: instance i := current position is the mono itself; skip unless nothing else
            continue
        base_tf = dict(others)
        ok = True
        for b, q in fixed:
            rr = base_tf.get(b, 0)
            if (q > 0 and rr >= q) or (q < 0 and rr <= q):
                base_tf[b] = rr - q
            elif q < 0 or True:
                base_tf[b] = rr - q   # constants may be divided out (assumed non-zero)
        base_tf = {b: q for b, q in base_tf.items() if q}
        for sub, used in match_factors(pats, base_tf, pv, {}):
            rest = dict(base_tf)
            for b, q in used.items():
                rest[b] = rest.get(b, 0) - q
            rest = {b: q for b, q in rest.items() if q}
            if free_idx not in sub:
                continue
            iv = sub[free_idx]
            # bound variables consumed by the match must not occur elsewhere
            consumed = {k}
            bad = False
            for v in tb:
                w = _as_bound(sub[v], bvs) if v in sub else None
                if w is None or w in consumed:
                    bad = True
                    break
                consumed.add(w)
            if bad:
                continue
            rex = ex
            if tex is not None:
                te = X.subst(tex, {**{v: sub[v] for v in tb}, free_idx: iv})
                rex = ex - te
                if not rex.t:
                    rex = None
            if any(w in b.fv for w in consumed for b in rest) or (rex is not None and any(w in rex.fv for w in consumed)):
                continue
            if any(w in iv.fv for w in consumed):
                continue
            if side == "left":
                if any(w in c.fv for w in consumed):
                    continue
                rel0 = inv_left(h, args, iv, c)
            else:
                if any(w in r.fv for w in consumed):
                    continue
                rel0 = inv_right(h, args, r, iv)
            if cj:
                rel0 = rel0.conj()
            rel = X.build([], rest, rex) * rel0
            for v in bv:
                if v not in consumed:
                    rel = X.sum_over(rel, v)
            if rel.t:
                yield rel


def _inst_eig(h, a, args, k, r, c, bv, fac, ex):
    bvs = set(bv)
    free_idx = X.Var("?i", None, None)
    if a.cj:
        return
    Ae = elem_of(h, args, atom(free_idx), atom(k))
    others = {b: q for b, q in fac.items() if b is not a}
    for t, coef in Ae.t.items():
        tb, tf, tex = X.open_mono(t)
        if tex is not None:
            continue
        pv = set(tb) | {free_idx}
        pats = [(b, q) for b, q in tf.items() if b.fv & (pv | {k})]
        fixed = [(b, q) for b, q in tf.items() if not (b.fv & (pv | {k}))]
        base_tf = dict(others)
        for b, q in fixed:
            base_tf[b] = base_tf.get(b, 0) - q
        base_tf = {b: q for b, q in base_tf.items() if q}
        for sub, used in match_factors(pats, base_tf, pv, {}):
            rest = dict(base_tf)
            for b, q in used.items():
                rest[b] = rest.get(b, 0) - q
            rest = {b: q for b, q in rest.items() if q}
            if free_idx not in sub:
                continue
            iv = sub[free_idx]
            consumed = {k}
            bad = False
            for v in tb:
                w = _as_bound(sub[v], bvs) if v in sub else None
                if w is None or w in consumed:
                    bad = True
                    break
                consumed.add(w)
            if bad or any(w in b.fv for w in consumed for b in rest) or any(w in iv.fv or w in c.fv for w in consumed):
                continue
            if ex is not None and any(w in ex.fv for w in consumed):
                continue
            rel = X.build([], rest, ex) * eig_rel(h, args, iv, c)
            for v in bv:
                if v not in consumed:
                    rel = X.sum_over(rel, v)
            if rel.t:
                yield rel


# ---- exact linear algebra --------------------------------------------------------------------------------
class Span:
    def __init__(self):
        self.rows = {}  # pivot mono -> dict (pivot coefficient 1)

    def reduce(self, e):
        t = dict(e.t)
        changed = True
        while changed:
            changed = False
            for m in list(t):
                row = self.rows.get(m)
                if row is not None and m in t:
                    c = t[m]
                    for n, d in row.items():
                        v = X.cadd(t.get(n, 0), X.cneg(X.cmul(c, d)))
                        if v == 0:
                            t.pop(n, None)
                        else:
                            t[n] = v
                    changed = True
        return t

    def add(self, e):
        t = self.reduce(e)
        if not t:
            return False
        # pivot: the most complex monomial
        p = max(t, key=lambda m: (len(m.bv), sum(abs(q) for _, q in m.fac), m.uid))
        c = X.cinv(t[p])
        row = {m: X.cmul(c, d) for m, d in t.items()}
        for q, r in self.rows.items():
            if p in r:
                k = r[p]
                for n, d in row.items():
                    v = X.cadd(r.get(n, 0), X.cneg(X.cmul(k, d)))
                    if v == 0:
                        r.pop(n, None)
                    else:
                        r[n] = v
        self.rows[p] = row
        return True


def has_lin(e):
    for m in e.t:
        for a, p in m.fac:
            if a.key[0] == "B" and p < 0:
                return True
            if a.key[0] == "A" and isinstance(a.meta.info, dict) and "lin" in a.meta.info:
                return True
    return False


def span_prove(e, rounds=4, max_rel=400):
    sp = Span()
    done = set()
    frontier = list(e.t)
    nrel = 0
    seen = set()
    cur = e
    for _ in range(rounds):
        new = []
        for m in frontier:
            if m in done:
                continue
            done.add(m)
            for rel in find_relations(m):
                if rel.uid in seen:
                    continue
                seen.add(rel.uid)
                nrel += 1
                sp.add(rel)
                new.extend(rel.t)
                if nrel > max_rel:
                    break
            if nrel > max_rel:
                break
        t = sp.reduce(e)
        if not t:
            return True, None
        if nrel > max_rel:
            break
        frontier = list(dict.fromkeys(list(t) + new))
        if all(m in done for m in frontier):
            break
    return False, E(sp.reduce(e))


def clear_denominators(e):
    """Multiply by the reciprocal bases that are free of bound variables."""
    need = {}
    for m in e.t:
        for a, p in m.fac:
            if p < 0 and a.key[0] == "B" and not any(v in a.fv for v in m.bv):
                need[a] = max(need.get(a, 0), -p)
    if not need:
        return e, False
    r = e
    for a, p in need.items():
        # multiply: terms with B^-q get base^(p-q)
        base = a.args[0]
        pows = {}
        res = {}
        for m, c in r.t.items():
            f = dict(m.fac)
            q = f.pop(a, 0)
            k = p + q
            mm = E({X._mono(m.bv, X._facs(f), m.ex): c})
            if k:
                if k not in pows:
                    pows[k] = base ** k
                mm = mm * pows[k]
            for m2, c2 in mm.t.items():
                X._acc(res, m2, c2)
        r = E(res)
    return r, True


# ---- top level -------------------------------------------------------------------------------------------
class Result:
    def __init__(self, ok, method, residual=None, model=None):
        self.ok, self.method, self.residual, self.model = ok, method, residual, model


def prove_zero(e, ctx, depth=0, fuel=None):
    """Try to prove e == 0 for all values of its variables under ctx."""
    fuel = fuel if fuel is not None else [400]
    fuel[0] -= 1
    if fuel[0] < 0:
        return Result(None, "fuel", e)
    if not e.t:
        return Result(True, "normal-form")
    r = eig_direct(e) if depth == 0 else e
    if not r.t:
        return Result(True, "eigen-equation")
    for _ in range(4):
        r2, ch = clear_denominators(r)
        if not r2.t:
            return Result(True, "fraction-free normal-form")
        r = r2
        if not ch:
            break
    # case split on indicators
    i = pick_indicator(r)
    if i is not None and depth < 14:
        return case_split(r, i, ctx, depth, fuel)
    n = nested_indicator(r)
    if n is not None and depth < 14:
        return case_split_nested(r, n, ctx, depth, fuel)
    if has_lin(r):
        ok, res = span_prove(r)
        if ok:
            return Result(True, "hypothesis-span")
        c = cancel(res, ctx, depth, fuel)
        if c is not None and c.ok:
            return c
        c = cancel(r, ctx, depth, fuel) if not res.same(r) else c
        if c is not None and c.ok:
            return c
        r = res
    q = algebraic_zero(r, ctx)
    if q:
        return Result(True, q)
    return Result(False, "residual", r)


def eig_direct(e):
    """Replace terms k V[i,c] lam[c] by k SUM_j A[i,j] V[j,c] when that shortens e."""
    if not A.HYPS.eig:
        return e
    for m, co in list(e.t.items()):
        if m.bv:
            continue
        f = dict(m.fac)
        for a, p in m.fac:
            h = A.HYPS.eig.get(a.name) if a.key[0] == "A" and p == 1 and not a.cj else None
            if h is None:
                continue
            args, (i, c) = a.args[:-2], a.args[-2:]
            lam = X.app_e(h["sl"], tuple(args) + (c,))
            (lm,) = lam.t
            la = lm.fac[0][0]
            if f.get(la) != 1:
                continue
            rest = X.build([], {b: q for b, q in f.items() if b is not a and b is not la}, m.ex)
            r = e + (rest * eig_rel(h, args, i, c)).scale(co)
            if len(r.t) < len(e.t):
                return eig_direct(r)
    return e


def algebraic_zero(r, ctx):
    """sqrt / abs algebra: prove via z3 nonlinear arithmetic when small."""
    if len(r.t) > 40:
        return None
    if any(m.bv for m in r.t):
        return None
    try:
        s, tr = ctx.solver([], timeout_ms=4000)
        re, im = tr.expr(r)
        import z3
        goals = [re != 0] + ([im != 0] if im is not None else [])
        for c in tr.side:
            s.add(c)
        s.add(z3.Or(goals))
        import time
        from . import context
        t0 = time.time()
        st = str(s.check())
        context.STATS.queries += 1
        context.STATS.z3_time += time.time() - t0
        if st == "unsat":
            return "z3-nra"
        if st == "unknown":
            context.STATS.unknown += 1
    except Unsupported:
        pass
    return None


def pick_indicator(e):
    best = None
    for m in e.t:
        if not m.hasI:
            continue
        for a, p in m.fac:
            if X.is_idem(a) and not any(v in a.fv for v in m.bv):
                k = (0 if a.key[0] == "I" and a.name == "eq" else 1, a.uid)
                if best is None or k < best[0]:
                    best = (k, a)
    return best[1] if best else None


def nested_indicator(e):
    """An indicator without bound variables occurring inside exponents or function arguments."""
    seen = set()

    def look(x, bound):
        if x.uid in seen:
            return None
        seen.add(x.uid)
        for m in x.t:
            b2 = bound | set(m.bv)
            for a, p in m.fac:
                if X.is_idem(a) and not (a.fv & b2):
                    return a
                for y in a.args:
                    if a.key[0] == "A" or a.key[0] == "F" or a.key[0] == "B":
                        r = look(y, b2)
                        if r is not None:
                            return r
            if m.ex is not None:
                r = look(m.ex, b2)
                if r is not None:
                    return r
        return None
    return look(e, set())


def set_ind_deep(e, a, val):
    """Replace indicator atom a by 0/1 everywhere."""
    out = ZERO
    for m, c in e.t.items():
        if not _occurs(m, a):
            out = out + E({m: c})
            continue
        bv, fac, ex = X.open_mono(m)
        r = ONE
        for b, p in fac.items():
            if b is a:
                if not val:
                    r = ZERO
                    break
                continue
            if _occurs_atom(b, a):
                args = tuple(set_ind_deep(y, a, val) for y in b.args)
                nb = X.rebuild_atom(b, args)
                if b.key[0] == "B":
                    r = r * (X.recip(nb) ** (-p))
                else:
                    r = r * (nb ** p if p > 0 else X.recip(nb) ** (-p))
            else:
                r = r * X.build([], {b: p}, None)
        if r.t:
            if ex is not None:
                r = r * X.exp(set_ind_deep(ex, a, val))
            for v in bv:
                r = X.sum_over(r, v)
        out = out + r.scale(c)
    return out


def _occurs(m, a):
    return any(b is a or _occurs_atom(b, a) for b, p in m.fac) or (m.ex is not None and any(_occurs(n, a) for n in m.ex.t))


def _occurs_atom(b, a):
    if b is a:
        return True
    return any(_occurs(n, a) for x in b.args for n in x.t)


def eq_subst(a):
    """For an eq indicator: (var, value) to substitute, or None."""
    if a.key[0] != "I" or a.name != "eq":
        return None
    e = a.args[0]
    best = None
    for v in e.fv:
        l = X._lin(e, v)
        if l is not None and l[0] in (1, -1):
            pref = (v.hi is not None, v.uid)
            if best is None or pref > best[0]:
                best = (pref, v, l)
    if best is None:
        return None
    _, v, (c, rest) = best
    return v, rest.scale(-1 if c == 1 else 1)


def with_pc(ctx, kind, e, f):
    saved = (list(ctx.pc), ctx.pckey)
    ctx.add(kind, e)
    try:
        return f()
    finally:
        ctx.pc, ctx.pckey = saved


def resimplify(e, keep=None):
    """Rebuild e so that indicators are re-decided in the current context."""
    out = ZERO
    for m, c in e.t.items():
        if not m.hasI and not _deep_ind(m):
            out = out + E({m: c})
            continue
        bv, fac, ex = X.open_mono(m)
        r = ONE
        for b, p in fac.items():
            r = r * _redo(b, p)
            if not r.t:
                break
        if r.t and ex is not None:
            r = r * X.exp(resimplify(ex))
        if r.t:
            for v in bv:
                r = X.sum_over(r, v)
        out = out + r.scale(c)
    return out


def _deep_ind(m):
    return any(_atom_has_ind(a) for a, p in m.fac) or (m.ex is not None and any(_deep_ind(n) or n.hasI for n in m.ex.t))


def _atom_has_ind(a):
    if a.key[0] == "I":
        return True
    return any(n.hasI or _deep_ind(n) for x in a.args for n in x.t)


def _redo(b, p):
    if b.key[0] == "I":
        return X.ind(b.name, *[resimplify(x) for x in b.args])
    if b.key[0] == "F" and b.name == "div":
        r = X.fn("div", tuple(resimplify(x) for x in b.args), b.kind, b.cj)
        return r if p == 1 else r ** p
    if _atom_has_ind(b):
        nb = X.rebuild_atom(b, tuple(resimplify(x) for x in b.args))
        if b.key[0] == "B":
            return X.recip(nb) ** (-p)
        return nb ** p if p > 0 else X.recip(nb) ** (-p)
    return X.build([], {b: p}, None)


def pin_vars(e, ctx, free):
    """Substitute index variables that the path condition forces to their lower or upper bound."""
    if not e.t:
        return e
    fv = set()
    for m in e.t:
        for a, p in m.fac:
            fv |= set(a.fv)
        if m.ex is not None:
            fv |= set(m.ex.fv)
    for v in sorted((v for v in free if v in fv), key=lambda v: v.uid):
        for val in ([num(v.lo)] if v.lo is not None else []) + ([v.hi - 1] if v.hi is not None else []):
            d = atom(v) - val
            if len(d.t) > 6:
                continue
            if ctx.sat([("ge", d - 1)]) == "unsat" and ctx.sat([("ge", -d - 1)]) == "unsat":
                e = X.subst(e, {v: val})
                break
    return e


def pin_ge(e, ctx, case, free):
    """Substitutions from decided inequalities that the other decisions force to be equalities."""
    mp = []
    for a, v in list(case.known.items()):
        if a.name != "ge" or not e.t:
            continue
        d = a.args[0] if v else -a.args[0] - 1
        if ctx.sat([("ge", d - 1)]) != "unsat":
            continue
        for w, val in mp:
            d = X.subst(d, {w: val})
        for w in sorted(d.fv, key=lambda w: (w not in free, w.uid)):
            l = X._lin(d, w)
            if l is None or l[0] not in (1, -1):
                continue
            val = l[1].scale(-1 if l[0] == 1 else 1)
            e = X.subst(e, {w: val})
            mp.append((w, val))
            break
    return e


def case_split(r, a, ctx, depth, fuel):
    ae = atom(a)
    methods = set()
    for val in (1, 0):
        def go():
            st = ctx.sat([])
            if st == "unsat":
                return Result(True, "infeasible case")
            x = X.set_ind(r, a, val)
            if val == 1:
                s = eq_subst(a)
                if s is not None:
                    v, w = s
                    x = X.subst(x, {v: w})
                    # the value must be in v's range: implied by pc
            x = resimplify(x)
            return prove_zero(x, ctx, depth + 1, fuel)
        res = with_pc(ctx, "true" if val else "false", ae, go)
        if not res.ok:
            if res.model is None:
                res.model = with_pc(ctx, "true" if val else "false", ae, lambda: snapshot(ctx))
            return res
        methods.add(res.method)
    return Result(True, "case-split/" + "+".join(sorted(methods))[:60])


def case_split_nested(r, a, ctx, depth, fuel):
    ae = atom(a)
    for val in (1, 0):
        def go():
            st = ctx.sat([])
            if st == "unsat":
                return Result(True, "infeasible case")
            x = set_ind_deep(r, a, val)
            if val == 1:
                s = eq_subst(a)
                if s is not None:
                    x = X.subst(x, {s[0]: s[1]})
            x = resimplify(x)
            return prove_zero(x, ctx, depth + 1, fuel)
        res = with_pc(ctx, "true" if val else "false", ae, go)
        if not res.ok:
            if res.model is None:
                res.model = with_pc(ctx, "true" if val else "false", ae, lambda: snapshot(ctx))
            return res
    return Result(True, "case-split")


def snapshot(ctx):
    """Concrete hints from a model of the current path condition."""
    try:
        r, model, tr = ctx.sat([], timeout_ms=2000, want_model=True)
    except Unsupported:
        return None
    if r != "sat":
        return None
    return model_hints(model, tr)


def model_hints(model, tr):
    dims, vals = {}, []

    def val(z):
        v = model.eval(z, model_completion=True)
        try:
            if hasattr(v, "as_long"):
                return v.as_long()
            if hasattr(v, "approx") and not hasattr(v, "numerator_as_long"):
                v = v.approx(12)
            return v.numerator_as_long() / v.denominator_as_long()
        except Exception:
            return None
    idx = {}
    for a, z in tr.names.items():
        idx[a] = val(z)
        if a.hi is None and not a.name.startswith(("%", "~", "$", "#", "?")):
            dims[a.name] = idx[a]
    for k, z in tr.cache.items():
        a = k[0] if isinstance(k, tuple) else k
        part = k[1] if isinstance(k, tuple) else None
        if not isinstance(a, X.Atom) or a.key[0] != "A" or part not in (None, "re", "im"):
            continue
        if "#" in a.name:
            continue
        ok = True
        ii = []
        for x in a.args:
            c = eval_int(x, idx, dims)
            if c is None:
                ok = False
                break
            ii.append(c)
        if ok:
            vals.append((a.name, ii, part, val(z)))
    return dict(dims=dims, vals=vals)


def eval_int(e, idx, dims):
    t = 0
    for m, c in e.t.items():
        if m.bv or m.ex is not None or not isinstance(c, int):
            return None
        p = c
        for a, q in m.fac:
            if a.key[0] != "V" or q < 0:
                return None
            v = idx.get(a)
            if v is None:
                return None
            p *= v ** q
        t += p
    return t


def cancel(r, ctx, depth, fuel):
    """R == 0 follows from A.R == 0 (or R.A == 0) for invertible A."""
    if depth > 6:
        return None
    cands = {}
    for m in r.t:
        for a, p in m.fac:
            if a.key[0] == "A" and isinstance(a.meta.info, dict) and a.meta.info.get("lin") == "inv" and p == 1 and not a.cj:
                if any(v in x.fv for v in m.bv for x in a.args[:-2]):
                    continue
                for side, e in (("left", a.args[-2]), ("right", a.args[-1])):
                    v = _free_var(e)
                    if v is not None and v not in m.bv:
                        cands[(a.name, tuple(x.uid for x in a.args[:-2]), side, v)] = a
    for (name, _, side, v), a in cands.items():
        if v.hi is None or not v.hi.same(A.HYPS.inv[name]["n"]):
            continue
        h = A.HYPS.inv[name]
        args = a.args[:-2]
        if any(v in x.fv for x in args):
            continue
        w = X.Var(f"{v.name}'", 0, v.hi)
        k = X.fresh(v.hi)
        rk = X.subst(r, {v: atom(k)})
        M = elem_of(h, args, atom(w), atom(k)) if side == "left" else elem_of(h, args, atom(k), atom(w))
        g = X.sum_over(M * rk, k)
        res = prove_zero(g, ctx, depth + 1, fuel)
        if res.ok:
            return Result(True, "cancel+" + res.method)
    return None


def _free_var(e):
    if len(e.t) == 1:
        ((m, c),) = e.t.items()
        if c == 1 and len(m.fac) == 1 and m.fac[0][1] == 1 and not m.bv and m.ex is None and m.fac[0][0].key[0] == "V":
            return m.fac[0][0]
    return None
