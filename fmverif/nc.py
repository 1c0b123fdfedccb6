"""Matrix algebra: arrays as polynomials in non-commuting matrix letters.

A matrix expression (last two axes; batch axes are carried by symbolic batch indices) is a sum of words with scalar
coefficients.  Letters: opaque matrices (an element atom M[.., i, j]), diagonal matrices (a monomial in i), inverses of
letters, inverses of polynomials, and the column of ones (so that column vectors are D(v) * ones).  Equalities that
involve inverses are decided by rewriting with  P inv(P) = inv(P) P = 1  and by cancelling invertible outer factors.
"""
from __future__ import annotations
import itertools
import time

from . import expr as X
from .expr import ZERO, ONE, atom, num, E, Unsupported

_letters: dict = {}
_uid = itertools.count(1)


class NCFail(Unsupported):
    pass


class L:
    __slots__ = ("kind", "data", "rows", "cols", "uid", "rules", "nest")

    def __repr__(self):
        if self.kind == "M":
            return X.fmt(atom(self.data))
        if self.kind == "D":
            return "D(" + X.fmt(self.data) + ")"
        if self.kind == "N":
            return f"inv({self.data!r})"
        if self.kind == "C":
            return "1"
        return f"Y{self.uid}"


def letter(kind, data, key, rows, cols, nest=0):
    k = (kind, key, rows.uid, cols.uid)
    l = _letters.get(k)
    if l is None:
        l = L()
        l.kind, l.data, l.rows, l.cols, l.uid, l.rules, l.nest = kind, data, rows, cols, next(_uid), None, nest
        _letters[k] = l
    return l


def vi(n):
    return X.Var("%nci", 0, n)


def vj(n):
    return X.Var("%ncj", 0, n)


class NC:
    __slots__ = ("t", "rows", "cols", "_k")

    def __init__(self, t, rows, cols):
        self.t = {w: c for w, c in t.items() if c.t}
        self.rows, self.cols = rows, cols
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = tuple(sorted((tuple(l.uid for l in w), c.uid) for w, c in self.t.items()))
        return self._k

    def __add__(self, o):
        t = dict(self.t)
        for w, c in o.t.items():
            d = t.get(w)
            t[w] = c if d is None else d + c
        return NC(t, self.rows, self.cols)

    def scale(self, e):
        return NC({w: c * e for w, c in self.t.items()}, self.rows, self.cols)

    def __neg__(self):
        return self.scale(num(-1))

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        X.TICK(8)
        res = {}
        for w1, c1 in self.t.items():
            for w2, c2 in o.t.items():
                for w, c in join(w1, w2).items():
                    d = res.get(w)
                    v = c1 * c2 * c
                    res[w] = v if d is None else d + v
        return NC(res, self.rows, o.cols)

    def __repr__(self):
        return " + ".join(f"({X.fmt(c)[:60]}) " + " ".join(map(repr, w)) for w, c in list(self.t.items())[:6])


_joins: dict = {}


def join(w1, w2):
    """Product of two words -> {word: coefficient}."""
    while w1 and w2 and cancels(w1[-1], w2[0]):
        w1, w2 = w1[:-1], w2[1:]
    if w1 and w2 and w1[-1].kind == "D" and w2[0].kind == "D":
        a, b = w1[-1], w2[0]
        out = {}
        for l, c in diag_letters(a.data * b.data, a.rows):
            for w, cc in join(w1[:-1], (l,) + w2[1:] if l is not None else w2[1:]).items():
                out[w] = out.get(w, ZERO) + cc * c
        return out
    return {w1 + w2: ONE}


def cancels(a, b):
    return (a.kind == "M" and b.kind == "N" and b.data is a) or (a.kind == "N" and b.kind == "M" and a.data is b)


def diag_letters(e, n):
    """Expression in %nci -> [(D letter or None (identity), coefficient)]."""
    v = vi(n)
    out = []
    for m, c in e.t.items():
        if v not in m.fv:
            out.append((None, E({m: c})))
            continue
        if m.bv:
            out.append((letter("D", E({m: 1}), m.uid, n, n), num(c)))
            continue
        dep = {a: p for a, p in m.fac if v in a.fv}
        ind = {a: p for a, p in m.fac if v not in a.fv}
        xd = xi = None
        if m.ex is not None:
            xd = E({k: q for k, q in m.ex.t.items() if v in k.fv})
            xi = E({k: q for k, q in m.ex.t.items() if v not in k.fv})
        de = X.build([], dep, xd if xd is not None and xd.t else None)
        ie = X.build([], ind, xi if xi is not None and xi.t else None).scale(c)
        if len(de.t) != 1:
            raise NCFail("diagonal monomial")
        ((dm, dc),) = de.t.items()
        out.append((letter("D", E({dm: 1}), dm.uid, n, n), ie.scale(dc)))
    return out


def ident(n):
    return NC({(): ONE}, n, n)


def diag(e, n):
    t = {}
    for l, c in diag_letters(e, n):
        w = (l,) if l is not None else ()
        t[w] = t.get(w, ZERO) + c
    return NC(t, n, n)


def parse(e, rows, cols, vec):
    """Element expression e(%nci, %ncj) -> NC (or raise NCFail). vec: cols == 1 and %ncj does not occur."""
    i, j = vi(rows), vj(cols)
    t = {}
    r = NC({}, rows, cols)
    for m, c in e.t.items():
        if m.bv and (i in m.fv and j in m.fv or (vec and False)):
            raise NCFail("sum over a bound index")
        if vec:
            for l, cc in diag_letters(E({m: c}), rows):
                w = ((l,) if l is not None else ()) + (letter("C", None, 0, rows, cols),)
                t[w] = t.get(w, ZERO) + cc
            continue
        if m.bv:
            raise NCFail("bound index")
        li, lj, both, rest = {}, {}, [], {}
        for a, p in m.fac:
            fi, fj = i in a.fv, j in a.fv
            if fi and fj:
                both.append((a, p))
            elif fi:
                li[a] = p
            elif fj:
                lj[a] = p
            else:
                rest[a] = p
        xi = xj = xr = None
        if m.ex is not None:
            for k, q in m.ex.t.items():
                fi, fj = i in k.fv, j in k.fv
                if fi and fj:
                    raise NCFail("mixed exponent")
            xi = E({k: q for k, q in m.ex.t.items() if i in k.fv})
            xj = E({k: q for k, q in m.ex.t.items() if j in k.fv})
            xr = E({k: q for k, q in m.ex.t.items() if i not in k.fv and j not in k.fv})
        if len(both) != 1 or both[0][1] != 1:
            raise NCFail("not a matrix monomial")
        a = both[0][0]
        nz = lambda x: x if x is not None and x.t else None
        left = diag(X.build([], li, nz(xi)), rows)
        right = diag(X.subst(X.build([], lj, nz(xj)), {j: atom(vi(cols))}), cols)
        co = X.build([], rest, nz(xr)).scale(c)
        if a.key[0] == "I":
            if a.name != "eq" or not rows.same(cols):
                raise NCFail("indicator")
            d = X.ind_eq(atom(i) - atom(j))
            ((dm, _),) = d.t.items()
            if dm.fac[0][0] is not a:
                raise NCFail("indicator")
            mid = ident(rows)
        else:
            mid = NC({(letter("M", a, a.uid, rows, cols),): ONE}, rows, cols)
        r = r + (left * mid * right).scale(co)
    if vec:
        return NC(t, rows, cols)
    return r


def inverse(p):
    """Inverse of a square NC polynomial."""
    p = simplify(p)
    n = p.rows
    if not p.rows.same(p.cols):
        raise NCFail("inverse of a non-square matrix")
    if not p.t:
        raise NCFail("inverse of zero")
    if all(all(l.kind == "D" for l in w) for w in p.t):
        e = ZERO
        for w, c in p.t.items():
            e = e + (w[0].data * c if w else c)
        return diag(X.recip(e), n)
    if len(p.t) == 1:
        ((w, c),) = p.t.items()
        if all(l.rows.same(n) and l.cols.same(n) for l in w):
            r = ident(n).scale(X.recip(c))
            for l in reversed(w):
                r = r * inv_letter(l)
            return r
    y = letter("Y", p, p.key, n, n, 1 + max(l.nest for w in p.t for l in w) if any(p.t) else 1)
    return NC({(y,): ONE}, n, n)


def inv_letter(l):
    n = l.rows
    if l.kind == "D":
        return diag(X.recip(l.data), n)
    if l.kind == "N":
        return NC({(l.data,): ONE}, n, n)
    if l.kind == "Y":
        return l.data
    if l.kind == "M":
        return NC({(letter("N", l, l.uid, n, n, l.nest),): ONE}, n, n)
    raise NCFail("inverse of " + l.kind)


def solution(blocks, rhs):
    """Solution letters of the block system  sum_j blocks[i][j] X_j = rhs[i]  (the system matrix is non-singular)."""
    n = len(rhs)
    blocks = [[simplify(p) for p in row] for row in blocks]
    rhs = [simplify(p) for p in rhs]
    nest = 1 + max([l.nest for row in blocks + [rhs] for p in row for w in p.t for l in w] or [0])
    key = tuple(tuple(p.key for p in row) for row in blocks) + tuple(p.key for p in rhs)
    ls = []
    for j in range(n):
        l = letter("S", None, (key, j), blocks[0][j].cols, rhs[0].cols, nest)
        ls.append(l)
    if ls[0].data is None:
        eqs = []
        for i in range(n):
            e = -rhs[i]
            for j in range(n):
                e = e + blocks[i][j] * NC({(ls[j],): ONE}, ls[j].rows, ls[j].cols)
            eqs.append(e)
        for l in ls:
            l.data = (eqs, ls)
        sys_rules(ls)
    return [NC({(l,): ONE}, l.rows, l.cols) for l in ls]


def sys_rules(ls):
    """Oriented equations of the system, inter-reduced: [(pattern, replacement)]."""
    eqs = list(ls[0].data[0])
    out = []
    for l in ls:
        l.rules = out
    for e in eqs:
        e = simplify(e)
        # a common left factor of a block row is non-singular because the system matrix is
        e = strip_left(e)
        e = NC({w: c for w, c in e.t.items() if c.t}, e.rows, e.cols)
        cand = [w for w in e.t if w and w[-1] in ls]
        if not cand:
            continue
        w0 = max(cand, key=weight)
        c0 = e.t[w0]
        rest = NC({w: c for w, c in e.t.items() if w is not w0}, e.rows, e.cols)
        r = (-rest).scale(X.recip(c0))
        pat = w0
        while len(pat) > 1 and pat[0].kind == "D":
            r = inv_letter(pat[0]) * r
            pat = pat[1:]
        out.append((pat, r))


def strip_left(p):
    ws = list(p.t)
    while ws and all(len(w) > 1 for w in ws) and all(w[0] is ws[0][0] for w in ws) and ws[0][0].rows.same(ws[0][0].cols):
        p = NC({w[1:]: c for w, c in p.t.items()}, p.rows, p.cols)
        ws = list(p.t)
    return p


def weight(w):
    return (len([l for l in w if l.kind != "D"]), sum(l.nest for l in w), len(w), tuple(l.uid for l in w))


def rules(y):
    """[(pattern, side, replacement NC)]: pattern.y -> replacement (side 'L') or y.pattern -> replacement ('R')."""
    if y.rules is not None:
        return y.rules
    out = []
    p, n = y.data, y.rows
    Y = NC({(y,): ONE}, n, n)
    w0 = max(p.t, key=weight)
    c0 = p.t[w0]
    rest = NC({w: c for w, c in p.t.items() if w is not w0}, n, n)
    ic = X.recip(c0)
    # w0 . y = ic (1 - rest y)
    r = (ident(n) - rest * Y).scale(ic)
    pat = w0
    if pat and pat[0].kind == "D":
        r = inv_letter(pat[0]) * r
        pat = pat[1:]
    out.append((pat, "L", r))
    r = (ident(n) - Y * rest).scale(ic)
    pat = w0
    if pat and pat[-1].kind == "D":
        r = r * inv_letter(pat[-1])
        pat = pat[:-1]
    out.append((pat, "R", r))
    y.rules = out
    return out


PUSH = [False]


def push_rule(y, a):
    """a . inverse(c + W a) == inverse(c + a W) . a   (None when the inverse has no such form)."""
    p = y.data
    if not a.rows.same(a.cols):
        return None
    ws, const = {}, ZERO
    for w, c in p.t.items():
        if not w:
            const = c
        elif w[-1] is a:
            ws[w[:-1]] = c
        else:
            return None
    if not const.t or not ws:
        return None
    n = y.rows
    A = NC({(a,): ONE}, n, n)
    return inverse(ident(n).scale(const) + A * NC(ws, n, n)) * A


def rewrite_once(w):
    for p, l in enumerate(w):
        if l.kind == "S":
            for pat, rep in l.rules:
                k = len(pat)
                if w[p + 1 - k:p + 1] == pat and p + 1 >= k:
                    return w[:p + 1 - k], rep, w[p + 1:]
            continue
        if l.kind != "Y":
            continue
        if PUSH[0] and p and w[p - 1].kind == "M":
            r = push_rule(l, w[p - 1])
            if r is not None:
                return w[:p - 1], r, w[p + 1:]
        for pat, side, rep in rules(l):
            k = len(pat)
            if not k:
                continue
            if side == "L" and p >= k and w[p - k:p] == pat:
                return w[:p - k], rep, w[p + 1:]
            if side == "R" and w[p + 1:p + 1 + k] == pat:
                return w[:p], rep, w[p + 1 + k:]
    return None


def word(w, rows, cols):
    return NC({w: ONE}, rows, cols)


def simplify(p, limit=4000):
    todo = dict(p.t)
    done = {}
    n = 0
    while todo:
        w, c = todo.popitem()
        if not c.t:
            continue
        r = rewrite_once(w)
        if r is None:
            done[w] = done.get(w, ZERO) + c
            continue
        n += 1
        X.TICK(4)
        if n > limit:
            raise NCFail("rewriting does not terminate in budget")
        a, rep, b = r
        q = word(a, None, None) * rep * word(b, None, None)
        for w2, c2 in q.t.items():
            d = todo.get(w2)
            v = c * c2
            todo[w2] = v if d is None else d + v
    return NC(done, p.rows, p.cols)


def coeffs_zero(p, ctx):
    from . import prover as P
    for w, c in list(p.t.items()):
        if not c.t:
            continue
        if not P.prove_zero(c, ctx).ok:
            return False
    return True


def strip(p):
    ws = list(p.t)
    while ws and all(w for w in ws) and all(w[0] is ws[0][0] for w in ws) and not any(len(w) == 1 and w[0].kind == "C" for w in ws):
        ws = [w[1:] for w in ws]
        p = NC({w[1:]: c for w, c in p.t.items()}, p.rows, p.cols)
    ws = list(p.t)
    while ws and all(w for w in ws) and all(w[-1] is ws[0][-1] for w in ws):
        p = NC({w[:-1]: c for w, c in p.t.items()}, p.rows, p.cols)
        ws = list(p.t)
    return p


def elementwise(p, ctx):
    """p is a combination of whole matrices (no products): prove it entry by entry."""
    if not all(len(w) == 1 and w[0].kind == "M" for w in p.t) or not any(isinstance(w[0].data, E) for w in p.t):
        return False
    from . import prover as P
    e = ZERO
    for w, c in p.t.items():
        l = w[0]
        e = e + (l.data if isinstance(l.data, E) else atom(l.data)) * c
    return bool(P.prove_zero(e, ctx).ok)


def combine(p, ctx):
    """Drop terms whose coefficient is provably zero."""
    from . import prover as P
    t = {}
    for w, c in p.t.items():
        r, _ = P.clear_denominators(c)
        if r.t:
            t[w] = c
    return NC(t, p.rows, p.cols)


def prove(p, ctx, depth=0):
    """True iff p == 0 is derived."""
    if depth == 0:
        dl = ctx.deadline
        late = None
        for push in (False, True):
            PUSH[0] = push
            ctx.deadline = min(dl or 1e18, time.time() + (15 if not push else 25))
            try:
                if prove(p, ctx, 1):
                    return True
            except X.OutOfBudget as ex:
                late = ex
                if dl and time.time() > dl:
                    raise
            finally:
                PUSH[0] = False
                ctx.deadline = dl
        if late is not None:
            raise late
        return False
    p = simplify(p)
    p = combine(p, ctx)
    if not p.t:
        return True
    if coeffs_zero(p, ctx):
        return True
    if depth > 5 or len(p.t) > 600:
        return False
    if depth == 1:
        # independent right factors (amplitude vectors): enough to prove each part
        groups = {}
        for w, c in p.t.items():
            tail = w[-1:] if not (w and w[-1].kind == "C") else w[-2:]
            if tail and tail[0].kind not in ("M", "D"):
                tail = ()
            groups.setdefault(tail, {})[w] = c
        if len(groups) > 1 and all(g and not g[0].rows.same(g[-1].cols) for g in groups):
            if all(prove(NC(t, p.rows, p.cols), ctx, 2) for t in groups.values()):
                return True
    p = strip(p)
    if elementwise(p, ctx):
        return True
    left, right = {}, {}
    for w in p.t:
        k = 0
        while k < len(w) and w[k].kind == "D":
            k += 1
        if w and w[0].kind in ("Y", "N"):
            left[w[0]] = left.get(w[0], 0) + 1
        if len(w) > 1 and w[-1].kind in ("Y", "N"):
            right[w[-1]] = right.get(w[-1], 0) + 1
    for y in sorted(left, key=lambda y: (-y.nest, -left[y])):
        q = inv_letter(y)
        r = NC({}, p.rows, p.cols)
        hit = {w[1:]: c for w, c in p.t.items() if w and w[0] is y}
        oth = {w: c for w, c in p.t.items() if not (w and w[0] is y)}
        r = NC(hit, p.rows, p.cols) + q * NC(oth, p.rows, p.cols)
        if prove(r, ctx, depth + 1):
            return True
    for y in sorted(right, key=lambda y: (-y.nest, -right[y])):
        q = inv_letter(y)
        hit = {w[:-1]: c for w, c in p.t.items() if w and w[-1] is y}
        oth = {w: c for w, c in p.t.items() if not (w and w[-1] is y)}
        r = NC(hit, p.rows, p.cols) + NC(oth, p.rows, p.cols) * q
        if prove(r, ctx, depth + 1):
            return True
    return False
