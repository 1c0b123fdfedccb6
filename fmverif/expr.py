"""Index-level expressions: the term language of the verification conditions.

An expression `E` is a finite sum of terms

    coefficient * SUM_{b1 < h1, ..., bm < hm}  prod(atom ** power) * exp(E')

with Gaussian-rational coefficients.  Atoms are integer variables (indices, sizes), elements of opaque arrays,
uninterpreted / algebraic functions, reciprocals of expressions and 0/1 indicators.  Constructors keep terms in
a normal form (alpha-canonical bound variables, delta elimination, range folding, exact discrete-Fourier
orthogonality, exponent folding), so that most equalities are decided by comparing normal forms.
All arithmetic is exact; machine floating point is treated as mathematical complex arithmetic.
"""
from __future__ import annotations
from fractions import Fraction as Fr
from math import gcd, isqrt
import itertools

# ----------------------------------------------------------------------------------------------------------
# Gaussian rationals: real coefficients are int/Fraction, complex ones GQ.
# ----------------------------------------------------------------------------------------------------------


class GQ:
    __slots__ = ("r", "i")

    def __init__(self, r, i):
        self.r = r
        self.i = i

    def __eq__(self, o):
        return isinstance(o, GQ) and self.r == o.r and self.i == o.i

    def __hash__(self):
        return hash((self.r, self.i))

    def __repr__(self):
        return f"({self.r}+{self.i}j)"


def _nf(x):
    if isinstance(x, Fr) and x.denominator == 1:
        return x.numerator
    return x


def gq(r, i):
    r = _nf(r)
    i = _nf(i)
    return r if i == 0 else GQ(r, i)


def cadd(a, b):
    ga, gb = isinstance(a, GQ), isinstance(b, GQ)
    if not ga and not gb:
        return _nf(a + b)
    ar, ai = (a.r, a.i) if ga else (a, 0)
    br, bi = (b.r, b.i) if gb else (b, 0)
    return gq(ar + br, ai + bi)


def cmul(a, b):
    ga, gb = isinstance(a, GQ), isinstance(b, GQ)
    if not ga and not gb:
        return _nf(a * b)
    ar, ai = (a.r, a.i) if ga else (a, 0)
    br, bi = (b.r, b.i) if gb else (b, 0)
    return gq(ar * br - ai * bi, ar * bi + ai * br)


def cneg(a):
    return GQ(-a.r, -a.i) if isinstance(a, GQ) else -a


def cinv(a):
    if isinstance(a, GQ):
        d = a.r * a.r + a.i * a.i
        return gq(Fr(a.r) / d, -Fr(a.i) / d)
    return _nf(Fr(1) / a)


def cconj(a):
    return GQ(a.r, -a.i) if isinstance(a, GQ) else a


def ckey(a):
    return (Fr(a.r), Fr(a.i)) if isinstance(a, GQ) else (Fr(a), Fr(0))


class Unsupported(Exception):
    """The engine has no semantics for a construct: the obligation is undecided."""


# ----------------------------------------------------------------------------------------------------------
# Interning.
# ----------------------------------------------------------------------------------------------------------

_uid = itertools.count(1)
_atoms: dict = {}
_monos: dict = {}
_ekeys: dict = {}

EMPTY = frozenset()


class Atom:
    __slots__ = ("key", "uid", "fv", "h", "kind", "name", "args", "cj", "lo", "hi", "meta")

    def __repr__(self):
        return fmt_atom(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.uid < o.uid


def _mk(tag, name, args, kind, cj=False, lo=None, hi=None, meta=None):
    key = (tag, name, tuple(a.uid for a in args), kind, cj, lo, hi.uid if hi is not None else None)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.key = key
    a.uid = next(_uid)
    a.kind = kind
    a.name = name
    a.args = args
    a.cj = cj
    a.lo = lo
    a.hi = hi
    a.meta = meta
    if tag == "V":
        a.fv = frozenset([a])
        a.h = 0
    else:
        fv = EMPTY
        h = 0
        for x in args:
            fv |= x.fv
            h = max(h, x.h)
        a.fv = fv
        a.h = h
    _atoms[key] = a
    return a


def Var(name, lo=0, hi=None):
    return _mk("V", name, (), "i", lo=lo, hi=hi)


_fresh = itertools.count()


def fresh(hi, lo=0):
    return Var(f"~{next(_fresh)}", lo, hi)


def tag(a):
    return a.key[0]


class ArrSym:
    """An opaque array symbol. kind in c,r,i,b ; nonneg/positive hints; facts is a callable for z3."""

    __slots__ = ("name", "kind", "sign", "facts", "info", "sid")

    def __init__(self, name, kind, sign=None, facts=None, info=None):
        self.sid = next(_uid)
        self.name = name
        self.kind = kind
        self.sign = sign  # None, '+', '0+'
        self.facts = facts
        self.info = info


_arrs: dict = {}


def arrsym(name, kind="c", sign=None, facts=None, info=None):
    s = _arrs.get(name)
    if s is None:
        s = _arrs[name] = ArrSym(name, kind, sign, facts, info)
    return s


def app(sym, idx, cj=False):
    idx = tuple(idx)
    if sym.kind != "c":
        cj = False
    return _mk("A", sym.name, idx, sym.kind, cj, lo=sym.sid, meta=sym)


PI = _mk("S", "pi", (), "r")

IDEMP = ("I",)


def is_idem(a):
    t = a.key[0]
    return t == "I" or (t == "A" and a.kind == "b")


class Mono:
    __slots__ = ("bv", "fac", "ex", "uid", "fv", "h", "hasI", "key")

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o


def _mono(bv, fac, ex):
    """fac: tuple of (atom,pow) sorted by uid; bv canonical; ex: E or None."""
    key = (tuple(v.uid for v in bv), tuple((a.uid, p) for a, p in fac), ex.uid if ex is not None else None)
    m = _monos.get(key)
    if m is not None:
        return m
    m = Mono()
    m.key = key
    m.bv = bv
    m.fac = fac
    m.ex = ex
    m.uid = next(_uid)
    fv = EMPTY
    h = 0
    hasI = False
    for a, p in fac:
        fv |= a.fv
        h = max(h, a.h)
        if a.key[0] == "I" or a.kind == "b":
            hasI = True
    if ex is not None:
        fv |= ex.fv
        h = max(h, ex.h)
    if bv:
        fv = fv - frozenset(bv)
        h += 1
    m.fv = fv
    m.h = h
    m.hasI = hasI
    _monos[key] = m
    return m


ONE_M = _mono((), (), None)


class E:
    __slots__ = ("t", "_uid", "_fv", "_h", "_cj")

    def __init__(self, t):
        self.t = t
        self._uid = None
        self._fv = None
        self._h = None
        self._cj = None

    @property
    def uid(self):
        if self._uid is None:
            k = frozenset((m.uid, ckey(c)) for m, c in self.t.items())
            u = _ekeys.get(k)
            if u is None:
                u = _ekeys[k] = next(_uid)
            self._uid = u
        return self._uid

    @property
    def fv(self):
        if self._fv is None:
            fv = EMPTY
            for m in self.t:
                fv |= m.fv
            self._fv = fv
        return self._fv

    @property
    def h(self):
        if self._h is None:
            self._h = max((m.h for m in self.t), default=0)
        return self._h

    # -- structure -----------------------------------------------------------------------------------------
    def is_zero(self):
        return not self.t

    def const(self):
        """The constant value, or None."""
        if not self.t:
            return 0
        if len(self.t) == 1 and ONE_M in self.t:
            return self.t[ONE_M]
        return None

    def int_const(self):
        c = self.const()
        return c if isinstance(c, int) else None

    def same(self, o):
        return self is o or self.t == o.t

    def __repr__(self):
        return fmt(self)

    # -- arithmetic ----------------------------------------------------------------------------------------
    def __add__(self, o):
        o = as_e(o)
        if not o.t:
            return self
        if not self.t:
            return o
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            d = t.get(m)
            if d is None:
                t[m] = c
            else:
                d = cadd(d, c)
                if d == 0:
                    del t[m]
                else:
                    t[m] = d
        return E(t)

    __radd__ = __add__

    def __neg__(self):
        return E({m: cneg(c) for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-as_e(o))

    def __rsub__(self, o):
        return as_e(o) - self

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return E({m: cmul(c, d) for m, d in self.t.items()})

    def __mul__(self, o):
        o = as_e(o)
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        TICK()
        res = {}
        big = len(o.t) // 8
        for m1, c1 in self.t.items():
            if big:
                TICK(big)
            for m2, c2 in o.t.items():
                _acc(res, mono_mul(m1, m2), cmul(c1, c2))
        return E(res)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * as_e(o).inv()

    def __rtruediv__(self, o):
        return as_e(o) * self.inv()

    def __pow__(self, n):
        if isinstance(n, Fr) and n.denominator == 1:
            n = n.numerator
        if not isinstance(n, int):
            raise Unsupported(f"power {n}")
        if n < 0:
            return self.inv() ** (-n)
        if n == 0:
            return ONE
        r = None
        b = self
        while n:
            if n & 1:
                r = b if r is None else r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def inv(self):
        return recip(self)

    def conj(self):
        if self._cj is None:
            self._cj = conj(self)
        return self._cj


def _acc(res, e, c):
    """res += c*e, with e a Mono or E."""
    if isinstance(e, Mono):
        d = res.get(e)
        d = c if d is None else cadd(d, c)
        if d == 0:
            res.pop(e, None)
        else:
            res[e] = d
        return
    for m, k in e.t.items():
        v = cmul(k, c)
        d = res.get(m)
        d = v if d is None else cadd(d, v)
        if d == 0:
            res.pop(m, None)
        else:
            res[m] = d


# cooperative resource limit -------------------------------------------------------------------------------
class OutOfBudget(Unsupported):
    pass


_ticks = [0, None]


def TICK(n=1):
    _ticks[0] += n
    if _ticks[0] >= 64:
        _ticks[0] = 0
        if _ticks[1] is not None:
            _ticks[1]()


ZERO = E({})
ONE = E({ONE_M: 1})


def num(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, int):
        return E({ONE_M: c}) if c else ZERO
    if isinstance(c, Fr):
        return E({ONE_M: _nf(c)}) if c else ZERO
    if isinstance(c, GQ):
        return E({ONE_M: c})
    if isinstance(c, float):
        return num_float(c)
    if isinstance(c, complex):
        return num_float(c.real) + num_float(c.imag) * IUNIT
    raise Unsupported(f"number {c!r}")


_PI_F = 3.141592653589793


def num_float(x):
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported(f"non-finite {x}")
    if x == 0:
        return ZERO
    q = x / _PI_F
    for k in (1, 2, 4, -1, -2, 0.5, 0.25, -0.5):
        if x == k * _PI_F:
            return atom(PI).scale(_nf(Fr(k)))
    return num(Fr(repr(float(x))))


def as_e(x):
    if isinstance(x, E):
        return x
    if isinstance(x, Atom):
        return atom(x)
    if isinstance(x, (int, Fr, GQ, float, complex)):
        return num(x)
    f = getattr(x, "to_e", None)
    if f is not None:
        return f()
    raise Unsupported(f"cannot convert {type(x).__name__} to expression")


def atom(a, p=1):
    return E({_mono((), ((a, p),), None): 1})


IUNIT = E({ONE_M: GQ(0, 1)})
PIE = atom(PI)


def exp_atom_raw(ex):
    return E({_mono((), (), ex): 1})


# ----------------------------------------------------------------------------------------------------------
# Predicates.
# ----------------------------------------------------------------------------------------------------------


def mono_int(m):
    if m.ex is not None:
        return False
    for a, p in m.fac:
        if p < 0 or a.kind not in ("i", "b"):
            return False
    return True


def is_int(e):
    for m, c in e.t.items():
        if not isinstance(c, int) or not mono_int(m):
            return False
    return True


def nonneg_atom(a):
    t = a.key[0]
    if t == "V":
        return a.lo is not None and a.lo >= 0
    if t in ("I",) or a.kind == "b":
        return True
    if t == "S":
        return True
    if t == "A":
        return a.meta.sign is not None
    if t == "F":
        if a.name == "abs":
            return True
        if a.name == "sqrt":
            return a.kind == "r"
        if a.name in ("max0",):
            return True
    if t == "B":
        return a.meta == "+"
    return False


def pos_atom(a):
    t = a.key[0]
    if t == "V":
        return a.lo is not None and a.lo >= 1
    if t == "S":
        return True
    if t == "A":
        return a.meta.sign == "+"
    if t == "F" and a.name == "sqrt" and a.kind == "r":
        return is_pos(a.args[0])
    return False


def is_nonneg(e):
    """Syntactic non-negativity of a real expression."""
    for m, c in e.t.items():
        if isinstance(c, GQ) or c < 0:
            return False
        if m.ex is not None:
            if not is_real(m.ex):
                return False
        # z * conj(z) pairs count as squares
        d = dict(m.fac)
        for a, p in m.fac:
            if p % 2 == 0 and a.kind != "c":
                continue
            if nonneg_atom(a):
                continue
            if a.key[0] in ("A", "F") and a.kind == "c":
                cj = conj_atom(a)
                if d.get(cj, None) == p:
                    continue
                return False
            return False
    return True


def is_pos(e):
    if not is_nonneg(e) or not e.t:
        return False
    for m, c in e.t.items():
        if m.bv:
            continue
        if all(pos_atom(a) for a, p in m.fac):
            return True
    return False


def is_real(e):
    if all(not isinstance(c, GQ) and m.ex is None and all(a.kind != "c" for a, p in m.fac) for m, c in e.t.items()):
        return True
    return e.same(e.conj())


# ----------------------------------------------------------------------------------------------------------
# Conjugation, substitution.
# ----------------------------------------------------------------------------------------------------------


def conj_atom(a):
    """Conjugate of an atom as Atom."""
    if a.kind != "c":
        return a
    t = a.key[0]
    if t == "A":
        return app(a.meta, a.args, not a.cj)
    if t == "F":
        return _mk("F", a.name, a.args, a.kind, not a.cj)
    if t == "B":
        return base_atom(a.args[0].conj())
    raise Unsupported("conj of " + repr(a))


def conj(e):
    res = {}
    for m, c in e.t.items():
        if all(a.kind != "c" for a, p in m.fac) and m.ex is None:
            _acc(res, m, cconj(c))
            continue
        bv, fac, ex = open_mono(m)
        out = ONE
        f2 = {}
        extra = None
        for a, p in fac.items():
            if a.key[0] == "B" and a.kind == "c":
                x = recip(a.args[0].conj()) ** (-p)
                extra = x if extra is None else extra * x
            else:
                b = conj_atom(a)
                f2[b] = f2.get(b, 0) + p
        ex2 = ex.conj() if ex is not None else None
        r = build(bv, f2, ex2)
        if extra is not None:
            if bv:
                # rebuild product under the sum
                r = mk_open(f2, ex2) * extra
                for v in bv:
                    r = sum_over(r, v)
            else:
                r = r * extra
        _acc(res, r, cconj(c))
    return E(res)


_open_cache: dict = {}


def open_mono(m):
    """Returns (fresh bound vars, factor dict, exponent)."""
    if not m.bv:
        return [], dict(m.fac), m.ex
    mp = {}
    new = []
    for v in m.bv:
        w = fresh(v.hi, v.lo)
        mp[v] = atom(w)
        new.append(w)
    fac = {}
    for a, p in m.fac:
        b = rename_atom(a, mp)
        fac[b] = fac.get(b, 0) + p
    ex = rename(m.ex, mp) if m.ex is not None else None
    return new, fac, ex


def rename_atom(a, mp):
    """Substitute variables by variables (no simplification changes expected); returns Atom."""
    if not any(v in a.fv for v in mp):
        return a
    t = a.key[0]
    if t == "V":
        r = mp.get(a)
        if r is None:
            return a
        (m,) = r.t
        return m.fac[0][0]
    args = tuple(rename(x, mp) for x in a.args)
    hi = a.hi
    return _mk(t, a.name, args, a.kind, a.cj, a.lo, hi, a.meta)


_ren_cache: dict = {}


def rename(e, mp):
    if e is None or not any(v in e.fv for v in mp):
        return e
    res = {}
    for m, c in e.t.items():
        if not any(v in m.fv for v in mp):
            _acc(res, m, c)
            continue
        bv, fac, ex = open_mono(m) if m.bv else ([], dict(m.fac), m.ex)
        f2 = {}
        for a, p in fac.items():
            b = rename_atom(a, mp)
            f2[b] = f2.get(b, 0) + p
        x2 = rename(ex, mp) if ex is not None else None
        _acc(res, canon(bv, f2, x2), c)
    return E(res)


def subst_atom(a, mp):
    """Substitute variables by expressions; returns E (value of the atom to power 1; B atoms give reciprocal base)."""
    t = a.key[0]
    if t == "V":
        r = mp.get(a)
        return atom(a) if r is None else r
    if not any(v in a.fv for v in mp):
        return atom(a)
    args = tuple(subst(x, mp) for x in a.args)
    return rebuild_atom(a, args)


def rebuild_atom(a, args):
    t = a.key[0]
    if t == "A":
        return app_e(a.meta, args, a.cj)
    if t == "I":
        return ind(a.name, *args)
    if t == "F":
        return fn(a.name, args, a.kind, a.cj)
    if t == "B":
        return args[0]  # caller must treat power sign: B^-p == 1/arg^p
    raise Unsupported("rebuild " + repr(a))


def subst(e, mp):
    if not any(v in e.fv for v in mp):
        return e
    TICK()
    res = {}
    for m, c in e.t.items():
        if not any(v in m.fv for v in mp):
            _acc(res, m, c)
            continue
        _acc(res, subst_mono(m, mp), c)
    return E(res)


def subst_mono(m, mp):
    bv, fac, ex = open_mono(m)
    return subst_open(bv, fac, ex, mp)


def subst_open(bv, fac, ex, mp):
    plain = {}
    prod = None
    for a, p in fac.items():
        if a.key[0] != "V" and not any(v in a.fv for v in mp):
            plain[a] = plain.get(a, 0) + p
            continue
        s = subst_atom(a, mp)
        if a.key[0] == "B":
            f = recip(s) ** (-p)
        elif p >= 0:
            f = s if p == 1 else s ** p
        else:
            f = recip(s) ** (-p)
        # keep single-atom results plain
        if len(f.t) == 1:
            ((mm, cc),) = f.t.items()
            if cc == 1 and not mm.bv and mm.ex is None and not mm.hasI:
                for aa, pp in mm.fac:
                    plain[aa] = plain.get(aa, 0) + pp
                continue
        prod = f if prod is None else prod * f
    x2 = subst(ex, mp) if ex is not None else None
    if x2 is not None and not x2.t:
        x2 = None
    if prod is None and x2 is None:
        return build(bv, plain, None)
    if prod is None and not _exp_reducible(x2):
        return build(bv, plain, x2)
    r = mk_open(plain, None)
    if x2 is not None:
        r = r * exp(x2)
    if prod is not None:
        r = r * prod
    for v in bv:
        r = sum_over(r, v)
    return r


def mk_open(fac, ex):
    """Product of factors (no bound variables), normalised."""
    return build([], fac, ex)


# ----------------------------------------------------------------------------------------------------------
# Canonical labelling of bound variables.
# ----------------------------------------------------------------------------------------------------------

_canon_cache: dict = {}


def _facs(fac):
    return tuple(sorted(((a, p) for a, p in fac.items() if p != 0), key=lambda t: t[0].uid))


def canon(bv, fac, ex):
    """Canonical Mono for SUM_bv prod fac exp(ex); no simplification."""
    if not bv:
        return _mono((), _facs(fac), ex)
    h = 0
    for a in fac:
        h = max(h, a.h)
    if ex is not None:
        h = max(h, ex.h)
    if len(bv) == 1:
        v = bv[0]
        w = Var(f"${h}.0", v.lo, v.hi)
        mp = {v: atom(w)}
        f2 = {}
        for a, p in fac.items():
            b = rename_atom(a, mp)
            f2[b] = f2.get(b, 0) + p
        return _mono((w,), _facs(f2), rename(ex, mp) if ex is not None else None)
    # colour refinement
    colour = {v: (v.hi.uid, v.lo) for v in bv}
    pieces = [(a, p) for a, p in fac.items() if any(v in a.fv for v in bv)]
    exts = []
    if ex is not None:
        exts = [(m, c) for m, c in ex.t.items() if any(v in m.fv for v in bv)]

    def rank(col):
        ks = sorted(set(col.values()))
        r = {k: n for n, k in enumerate(ks)}
        return {v: r[col[v]] for v in bv}

    def refine(col):
        ncls = len(set(col.values()))
        while True:
            sig = {v: [] for v in bv}
            for a, p in pieces:
                vs = [v for v in bv if v in a.fv]
                for v in vs:
                    mp = {w: atom(Var(f"#{col[w]}", None, None)) for w in vs if w is not v}
                    mp[v] = atom(Var("#*", None, None))
                    sig[v].append((0, rename_atom(a, mp).uid, p))
            for m, c in exts:
                vs = [v for v in bv if v in m.fv]
                e1 = E({m: c})
                for v in vs:
                    mp = {w: atom(Var(f"#{col[w]}", None, None)) for w in vs if w is not v}
                    mp[v] = atom(Var("#*", None, None))
                    sig[v].append((1, rename(e1, mp).uid, 0))
            new = {v: (col[v], tuple(sorted(sig[v]))) for v in bv}
            col = rank(new)
            n2 = len(set(col.values()))
            if n2 == ncls:
                return col
            ncls = n2

    best = None

    def finish(col):
        nonlocal best
        order = sorted(bv, key=lambda v: col[v])
        mp = {}
        ws = []
        for k, v in enumerate(order):
            w = Var(f"${h}.{k}", v.lo, v.hi)
            ws.append(w)
            mp[v] = atom(w)
        f2 = {}
        for a, p in fac.items():
            b = rename_atom(a, mp)
            f2[b] = f2.get(b, 0) + p
        m = _mono(tuple(ws), _facs(f2), rename(ex, mp) if ex is not None else None)
        k = (m.key[1], m.key[2] or 0)
        if best is None or k < best[0]:
            best = (k, m)

    budget = [60]

    def search(col):
        col = refine(col)
        classes = {}
        for v in bv:
            classes.setdefault(col[v], []).append(v)
        tie = None
        for k in sorted(classes):
            if len(classes[k]) > 1:
                tie = classes[k]
                break
        if tie is None:
            finish(col)
            return
        for v in tie:
            budget[0] -= 1
            if budget[0] < 0:
                # give up on perfect canonicity: still sound (only completeness is lost)
                order = {w: (col[w], 0 if w is v else 1, i) for i, w in enumerate(bv)}
                finish(rank(order))
                return
            c2 = {w: (col[w], 1) for w in bv}
            c2[v] = (col[v], 0)
            search(rank(c2))

    search(rank(colour))
    return best[1]


# ----------------------------------------------------------------------------------------------------------
# Term construction with simplification.
# ----------------------------------------------------------------------------------------------------------


def _needs_reduce(a, p):
    t = a.key[0]
    if t == "I" or a.kind == "b":
        return p > 1 or True
    if t == "F":
        if a.name in ("abs", "sqrt") and (p >= 2 or p <= -2):
            return True
        if a.name == "cbrt":
            return True
    return False


def _exp_reducible(ex):
    if ex is None:
        return False
    for m, c in ex.t.items():
        if m is _PI_M:
            return True
        if isinstance(c, GQ) and c.r == 0 and len(m.fac) >= 1 and not m.bv and m.ex is None:
            # candidate 2*pi*i*int
            f = dict(m.fac)
            if f.get(PI) == 1:
                k = c.i
                if isinstance(k, int) and k != 1 and all(a is PI or (p > 0 and a.kind in ("i", "b")) for a, p in m.fac):
                    return True
        if c.__class__ is GQ or True:
            for a, p in m.fac:
                if a.key[0] == "F" and a.name in ("arg", "arcsin", "arccos", "log"):
                    return True
    return False


_PI_M = _mono((), ((PI, 1),), None)


def build(bv, fac, ex):
    """SUM_bv prod fac * exp(ex), simplified -> E. Exponent assumed folded (see exp())."""
    fac = {a: p for a, p in fac.items() if p != 0}
    # power reductions
    red = None
    hasI = False
    for a in list(fac):
        p = fac[a]
        t = a.key[0]
        if t == "I" or a.kind == "b":
            hasI = True
            if p > 1:
                fac[a] = 1
            elif p < 0:
                # 1/indicator: only meaningful where it is 1
                fac[a] = 1
        elif t == "F" and a.name in ("abs", "sqrt") and abs(p) >= 2:
            x = a.args[0]
            if a.name == "abs":
                sq = x * x.conj()
            else:
                sq = x.conj() if a.cj else x
            k = abs(p) // 2
            f = sq ** k if p > 0 else recip(sq) ** k
            fac[a] = (1 if p > 0 else -1) * (abs(p) % 2)
            if fac[a] == 0:
                del fac[a]
            red = f if red is None else red * f
        elif t == "B" and p > 0:
            del fac[a]
            f = a.args[0] ** p
            red = f if red is None else red * f
    if red is not None:
        r = build([], fac, ex) * red
        for v in bv:
            r = sum_over(r, v)
        return r
    if hasI:
        for a in fac:
            if a.key[0] == "I" and a.name == "req":
                for b, p in fac.items():
                    # [x == 0] sqrt(x) = 0, [x == 0] |x| = 0
                    if p > 0 and b.key[0] == "F" and b.name in ("sqrt", "abs") and _same_zero(b.args[0], a.args[0]):
                        return ZERO
        r = _ind_rules(bv, fac, ex)
        if r is not None:
            return r
    if bv:
        r = _sum_rules(bv, fac, ex)
        if r is not None:
            return r
    return E({canon(bv, fac, ex): 1})


def _lin(e, v):
    """If e == c*v + rest with c an int constant coefficient and rest free of v -> (c, rest) else None."""
    c0 = 0
    rest = {}
    for m, c in e.t.items():
        if v in m.fv:
            if len(m.fac) == 1 and m.fac[0] == (v, 1) and not m.bv and m.ex is None:
                c0 = c
            else:
                return None
        else:
            rest[m] = c
    if not isinstance(c0, int) or c0 == 0:
        return None
    return c0, E(rest)


def coeff_of(e, v):
    """e = A*v + B with A, B free of v (polynomial degree 1) -> (A, B), else None."""
    A = {}
    B = {}
    for m, c in e.t.items():
        if v not in m.fv:
            B[m] = c
            continue
        if m.bv or m.ex is not None:
            return None
        f = dict(m.fac)
        if f.get(v) != 1:
            return None
        del f[v]
        for a in f:
            if v in a.fv:
                return None
        A[_mono((), _facs(f), None)] = c
    return E(A), E(B)


def _range_ind(val, v):
    """[lo <= val < hi].  When val = r + hi*D with D an integer array element, this is [floor(r/hi) == -D]."""
    b = v.hi
    if v.lo == 0 and len(b.t) == 1 and b.int_const() != 1 and len(val.t) > 1:
        ib = recip(b)
        D, r = {}, {}
        ok = False
        for m, c in val.t.items():
            t = E({m: c}) * ib
            if is_int(t):
                if any(a.key[0] == "A" and a.args for a, p in m.fac):
                    ok = True
                D.update(t.t)
            else:
                r[m] = c
        if ok and r:
            return ind_eq(int_div(E(r), b) + E(D))
    return ind_ge(val - v.lo) * ind_ge(b - 1 - val)


def _ind_rules(bv, fac, ex):
    """Delta elimination / context simplification for indicator factors. None if nothing applies."""
    bvs = set(bv)
    # 1. equalities
    for a in fac:
        if a.key[0] != "I" or a.name != "eq":
            continue
        e = a.args[0]
        cand = None
        # prefer eliminating bound variables
        for v in bv:
            if v in e.fv:
                l = _lin(e, v)
                if l is not None and l[0] in (1, -1):
                    cand = (v, l)
                    break
        if cand is not None:
            v, (c, rest) = cand
            val = rest.scale(-1 if c == 1 else 1)
            f2 = {b: p for b, p in fac.items() if b is not a}
            r = subst_open([], f2, ex, {v: val}) if (f2 or ex is not None) else ONE
            rng = _range_ind(val, v)
            r = r * rng
            for w in bv:
                if w is not v:
                    r = sum_over(r, w)
            return r
        # free variable: substitute highest-uid eligible variable elsewhere
        best = None
        for v in e.fv:
            if v in bvs:
                continue
            l = _lin(e, v)
            if l is not None and l[0] in (1, -1) and not (l[1].fv & bvs):
                if best is None or v.uid > best[0].uid:
                    best = (v, l)
        if best is not None:
            v, (c, rest) = best
            others = [b for b in fac if b is not a and v in b.fv]
            if others or (ex is not None and v in ex.fv):
                val = rest.scale(-1 if c == 1 else 1)
                f2 = {b: p for b, p in fac.items() if b is not a}
                r = subst_open(list(bv), f2, ex, {v: val})
                # re-multiply by the delta (no further occurrences of v, so this terminates)
                return _attach(a, r)
    # 2. integer order constraints on bound variables
    for a in fac:
        if a.key[0] != "I" or a.name != "ge":
            continue
        e = a.args[0]
        for v in bv:
            if v not in e.fv:
                continue
            l = _lin(e, v)
            if l is None or l[0] not in (1, -1) or (l[1].fv & bvs):
                continue
            c, rest = l
            f2 = {b: p for b, p in fac.items() if b is not a}
            others = [w for w in bv if w is not v]
            if c == 1:
                lo = -rest
                if decide_ge(lo) and decide_ge(v.hi - lo):
                    w = fresh(v.hi - lo)
                    r = subst_open([], f2, ex, {v: lo + atom(w)}) if (f2 or ex is not None) else ONE
                    r = sum_over(r, w)
                    for u in others:
                        r = sum_over(r, u)
                    return r
            else:
                hi = rest + 1
                if decide_ge(hi) and decide_ge(v.hi - hi):
                    w = fresh(hi)
                    r = subst_open([], f2, ex, {v: atom(w)}) if (f2 or ex is not None) else ONE
                    r = sum_over(r, w)
                    for u in others:
                        r = sum_over(r, u)
                    return r
    # 2b. periodic deltas [g == 0 mod N] on a bound variable ranging over one period
    for a in fac:
        if a.key[0] != "I" or a.name != "mod0":
            continue
        e, N = a.args
        for v in bv:
            if v not in e.fv or v.lo != 0 or not v.hi.same(N):
                continue
            l = _lin(e, v)
            if l is None or l[0] not in (1, -1) or v in N.fv:
                continue
            c, rest = l
            val = rest.scale(-1 if c == 1 else 1)  # v == val (mod N)
            if (decide_ge(val) and decide_ge(N - 1 - val)):
                pass
            elif not any(v in b.fv for b in fac if b is not a) and _periodic(ex, v, N):
                pass
            elif decide_ge(val + N) and decide_ge(N - 1 - val):
                val = val + (ONE - ind_ge(val)) * N
            else:
                continue
            f2 = {b: p for b, p in fac.items() if b is not a}
            r = subst_open([], f2, ex, {v: val}) if (f2 or ex is not None) else ONE
            for w in bv:
                if w is not v:
                    r = sum_over(r, w)
            return r
    # 3. injectivity of paired integer arrays
    r = CTX.inj_rule(bv, fac, ex) if CTX is not None else None
    return r


def _periodic(ex, v, N):
    """exp(ex) is N-periodic in v."""
    if ex is None or v not in ex.fv:
        return True
    ab = coeff_of(ex, v)
    if ab is None:
        return False
    g = ab[0] * N * E({_mono((), ((PI, -1),), None): GQ(0, Fr(-1, 2))})
    return is_int(g)


def _attach(a, r):
    """Multiply E r by indicator atom a without re-triggering substitution loops (a's vars handled)."""
    res = {}
    for m, c in r.t.items():
        f = dict(m.fac)
        if a in f:
            _acc(res, m, c)
            continue
        if any(x in m.bv for x in a.fv):
            raise Unsupported("capture in attach")
        f[a] = 1
        _acc(res, _mono(m.bv, _facs(f), m.ex), c)
    return E(res)


SMALL = 4


def _sum_rules(bv, fac, ex):
    for v in bv:
        infac = [a for a in fac if v in a.fv]
        inex = ex is not None and v in ex.fv
        others = [w for w in bv if w is not v]
        hic = v.hi.int_const()
        if not infac and not inex:
            r = build(others, fac, ex)
            return r * (v.hi - v.lo)
        if hic is not None and hic <= SMALL + 12 and (hic <= SMALL):
            tot = ZERO
            for k in range(v.lo, hic):
                x = subst_open([], fac, ex, {v: num(k)})
                for w in others:
                    x = sum_over(x, w)
                tot = tot + x
            return tot
        if not infac and inex:
            r = _dft_rule(v, others, fac, ex)
            if r is not None:
                return r
        # flattened index:  factors contain div(v, Q)
        for a in infac:
            q = _find_div(a, v)
            if q is not None and not (q.fv & set(bv)):
                P = exact_div(v.hi, q)
                if P is not None:
                    u = fresh(P)
                    w = fresh(q)
                    x = subst_open([], fac, ex, {v: atom(u) * q + atom(w)})
                    x = sum_over(sum_over(x, u), w)
                    for o in others:
                        x = sum_over(x, o)
                    return x
        # integer content: split 2n into n + n
        g = content(v.hi)
        if 2 <= g <= SMALL and hic is None:
            n = v.hi.scale(Fr(1, g))
            tot = ZERO
            w = fresh(n)
            for k in range(g):
                x = subst_open([], fac, ex, {v: n.scale(k) + atom(w)})
                x = sum_over(x, w)
                for o in others:
                    x = sum_over(x, o)
                tot = tot + x
            return tot
    return None


def content(e):
    g = 0
    for m, c in e.t.items():
        if not isinstance(c, int):
            return 1
        g = gcd(g, c)
    return g


def _find_div(a, v):
    if a.key[0] == "F" and a.name == "div":
        if a.args[0].t == atom(v).t:
            return a.args[1]
    for x in a.args:
        for m in x.t:
            for b, p in m.fac:
                if v in b.fv:
                    r = _find_div(b, v)
                    if r is not None:
                        return r
    return None


def _dft_rule(v, others, fac, ex):
    ab = coeff_of(ex, v)
    if ab is None:
        return None
    A, B = ab
    # A = 2*pi*i*g/N
    g = A * v.hi * E({_mono((), ((PI, -1),), None): GQ(0, Fr(-1, 2))})
    if not is_int(g):
        return None
    if g.fv & {v}:
        return None
    N = v.hi
    if decide_ge(N - 1 - g) and decide_ge(N - 1 + g):
        d = ind_eq(g)
    else:
        d = ind("mod0", g, N)
    r = build([], fac, B if B.t else None) if True else None
    r = r * d * N
    for w in others:
        r = sum_over(r, w)
    return r


def sum_over(e, v):
    """SUM_{v.lo <= v < v.hi} e."""
    res = {}
    for m, c in e.t.items():
        if v not in m.fv:
            _acc(res, E({m: 1}) * (v.hi - v.lo), c)
            continue
        bv, fac, ex = open_mono(m)
        _acc(res, build(bv + [v], fac, ex), c)
    return E(res)


def mono_mul(m1, m2):
    """Product of two monos -> Mono or E."""
    if m1 is ONE_M:
        return m2
    if m2 is ONE_M:
        return m1
    if m1.bv or m2.bv:
        bv1, f1, x1 = open_mono(m1)
        bv2, f2, x2 = open_mono(m2)
    else:
        bv1, f1, x1 = [], dict(m1.fac), m1.ex
        bv2, f2, x2 = [], dict(m2.fac), m2.ex
    for a, p in f2.items():
        f1[a] = f1.get(a, 0) + p
    if x1 is not None and x2 is not None:
        x = x1 + x2
        if not x.t:
            x = None
        elif _exp_reducible(x):
            r = build([], f1, None) * exp(x)
            for v in bv1 + bv2:
                r = sum_over(r, v)
            return r
    else:
        x = x1 if x1 is not None else x2
    return build(bv1 + bv2, f1, x)


# ----------------------------------------------------------------------------------------------------------
# exp, functions, reciprocals.
# ----------------------------------------------------------------------------------------------------------


_lead = {}


def _base_lead(b):
    """(factors, coefficient, rest) of a canonical leading monomial of the base of the reciprocal atom b, or None."""
    if b not in _lead:
        e = b.args[0]
        r = None
        if 2 <= len(e.t) <= 3 and all(not m.bv and m.ex is None and m.fac for m in e.t):
            m = max(e.t, key=lambda q: repr([(a.key[0], a.name, p, fmt(atom(a))) for a, p in q.fac]))
            c = e.t[m]
            if all(p > 0 and not is_idem(a) for a, p in m.fac):
                r = (dict(m.fac), c, e - E({m: c}))
        _lead[b] = r
    return _lead[b]


def _frac_norm(x):
    """Exponents: x/(x-y) - y/(x-y) -> 1 (rewrites lead*B^-1 -> (1 - rest*B^-1)/c for sums B in denominators)."""
    for _ in range(12):
        hit = False
        res = ZERO
        keep = {}
        for m, c in x.t.items():
            done = False
            if not m.bv and m.ex is None and len(m.fac) > 1:
                f = dict(m.fac)
                for a, p in m.fac:
                    if p < 0 and a.key[0] == "B":
                        l = _base_lead(a)
                        if l is not None and all(f.get(q, 0) >= n for q, n in l[0].items()):
                            for q, n in l[0].items():
                                f[q] -= n
                                if not f[q]:
                                    del f[q]
                            g = dict(f)
                            g[a] = p + 1
                            if not g[a]:
                                del g[a]
                            ci = cinv(l[1])
                            res = res + build([], g, None).scale(c).scale(ci) - mul_pows(l[2], f).scale(c).scale(ci)
                            done = hit = True
                            break
            if not done:
                keep[m] = c
        if not hit:
            return x
        x = E(keep) + res
    return x


def exp(x):
    """exp(x) with folding of 2*pi*i*integers and known inverse functions."""
    x = as_e(x)
    if not x.t:
        return ONE
    x = _frac_norm(x)
    if not x.t:
        return ONE
    # Ind inside exponent: leave (handled by case splitting), unless trivially separable.
    rest = {}
    fac = None

    def mulf(f):
        nonlocal fac
        fac = f if fac is None else fac * f

    for m, c in x.t.items():
        if m is _PI_M and isinstance(c, GQ) and c.r == 0:
            k = Fr(c.i) * 2  # multiples of pi/2
            n = k.numerator // k.denominator
            frac = k - n
            if frac != 0:
                # keep a canonical representative in (-1, 1]*pi : reduce modulo 2
                q = Fr(c.i) % 2
                if q > 1:
                    q -= 2
                # pull out i^n
                kk = q * 2
                nn = kk.numerator // kk.denominator
                rem = (kk - nn) / 2
                n = nn
                rest[m] = gq(0, rem)
            r = [1, GQ(0, 1), -1, GQ(0, -1)][n % 4]
            mulf(num(r))
            continue
        f = dict(m.fac)
        if isinstance(c, GQ) and c.r == 0 and not m.bv and m.ex is None and f.get(PI) == 1:
            others = [(a, p) for a, p in m.fac if a is not PI]
            if all(p > 0 and a.kind in ("i", "b") for a, p in others):
                k = Fr(c.i)
                if k.denominator == 1:
                    if k % 2 == 0:
                        continue
                    # exp(i*pi*k*n), k odd -> canonical k=1
                    rest[m] = gq(0, 1)
                    continue
        if len(m.fac) == 1 and not m.bv and m.ex is None and m.fac[0][1] == 1:
            a = m.fac[0][0]
            if a.key[0] == "F" and a.name == "arg" and isinstance(c, GQ) and c.r == 0 and isinstance(c.i, int):
                z = a.args[0]
                unit = z * recip(fn("abs", (z,), "r"))
                mulf(unit ** c.i if c.i > 0 else (unit.conj()) ** (-c.i))
                continue
            if a.key[0] == "F" and a.name in ("arcsin", "arccos") and isinstance(c, GQ) and c.r == 0 and isinstance(c.i, int):
                u = a.args[0]
                s = fn("sqrt", (ONE - u * u,), "c")
                z = (s + IUNIT * u) if a.name == "arcsin" else (u + IUNIT * s)
                zi = (s - IUNIT * u) if a.name == "arcsin" else (u - IUNIT * s)
                mulf(z ** c.i if c.i > 0 else zi ** (-c.i))
                continue
            if a.key[0] == "F" and a.name == "log" and isinstance(c, int):
                mulf(a.args[0] ** c if c > 0 else recip(a.args[0]) ** (-c))
                continue
        rest[m] = c
    r = exp_atom_raw(E(rest)) if rest else ONE
    return r if fac is None else r * fac


def cos(x):
    x = as_e(x)
    a = exp(x * IUNIT)
    b = exp(x.scale(-1) * IUNIT)
    return (a + b).scale(Fr(1, 2))


def sin(x):
    x = as_e(x)
    a = exp(x * IUNIT)
    b = exp(x.scale(-1) * IUNIT)
    return (a - b).scale(GQ(0, Fr(-1, 2)))


def re(x):
    if is_real(x):
        return x
    return (x + x.conj()).scale(Fr(1, 2))


def im(x):
    if is_real(x):
        return ZERO
    return (x - x.conj()).scale(GQ(0, Fr(-1, 2)))


def inds_in(e, top=True):
    """Indicator atoms occurring at top level (factors) of e."""
    s = []
    seen = set()
    for m in e.t:
        for a, p in m.fac:
            if is_idem(a) and a not in seen:
                seen.add(a)
                s.append(a)
    return s


def set_ind(e, a, val):
    """e with the indicator atom a (top-level factor) replaced by 0/1."""
    res = {}
    for m, c in e.t.items():
        f = dict(m.fac)
        if a in f:
            if not val:
                continue
            if any(v in a.fv for v in m.bv):
                _acc(res, m, c)
                continue
            del f[a]
            _acc(res, _mono(m.bv, _facs(f), m.ex), c)
        else:
            _acc(res, m, c)
    return E(res)


def shannon(e, f, depth=0):
    """Apply f to each indicator cofactor of e."""
    for a in inds_in(e):
        if any(a in dict(m.fac) and any(v in a.fv for v in m.bv) for m in e.t):
            continue
        e1 = set_ind(e, a, 1)
        e0 = set_ind(e, a, 0)
        if e1.same(e0):
            return shannon(e1, f, depth + 1)
        if depth > 6:
            break
        i = atom(a)
        return i * shannon(e1, f, depth + 1) + (ONE - i) * shannon(e0, f, depth + 1)
    return f(e)


def _has_top_ind(e):
    for m in e.t:
        if m.hasI:
            for a, p in m.fac:
                if is_idem(a) and not any(v in a.fv for v in m.bv):
                    return True
    return False


UNDEF = None


def base_atom(e):
    kind = "r" if is_real(e) else "c"
    meta = "+" if (kind == "r" and is_pos(e)) else None
    return _mk("B", "", (e,), kind, meta=meta)


def recip(e):
    if not e.t:
        # 1/0: an undefined value, never equal to anything useful
        return atom(_mk("F", "undef", (), "c"))
    c = e.const()
    if c is not None:
        return num(cinv(c))
    if _has_top_ind(e):
        return shannon(e, _recip1)
    return _recip1(e)


def mul_pows(e, pows):
    """e * prod a^p, merging exponents before positive powers of reciprocal bases are expanded."""
    r = ZERO
    for m, c in e.t.items():
        bv, fac, ex = open_mono(m)
        f = dict(fac)
        for a, p in pows.items():
            q = f.get(a, 0) + p
            if q:
                f[a] = q
            else:
                f.pop(a, None)
        r = r + build(bv, f, ex).scale(c)
    return r


def _recip1(e):
    if not e.t:
        return atom(_mk("F", "undef", (), "c"))
    c = e.const()
    if c is not None:
        return num(cinv(c))
    if len(e.t) == 1:
        ((m, c),) = e.t.items()
        if not m.bv and not any(is_idem(a) for a, p in m.fac):
            f = {a: -p for a, p in m.fac}
            ex = -m.ex if m.ex is not None else None
            return build([], f, ex).scale(cinv(c))
    # common factor
    common = None
    for m in e.t:
        if m.bv:
            bvs = set(m.bv)
            d = {a: p for a, p in m.fac if not (a.fv & bvs)}
        else:
            d = dict(m.fac)
        d = {a: p for a, p in d.items() if not is_idem(a)}
        if common is None:
            common = d
        else:
            common = {a: (min(p, d[a]) if p > 0 else max(p, d[a])) for a, p in common.items() if a in d and (p > 0) == (d[a] > 0)}
            # negative powers present in only some terms: pull out too
        if not common:
            break
    # pull out negative powers (denominators) to make the base polynomial
    neg = {}
    for m in e.t:
        for a, p in m.fac:
            if p < 0 and not any(v in a.fv for v in m.bv):
                neg[a] = min(neg.get(a, 0), p)
    pull = dict(common or {})
    for a, p in neg.items():
        pull[a] = p
    pull = {a: p for a, p in pull.items() if p}
    if pull:
        ip = {a: -p for a, p in pull.items()}
        return mul_pows(recip(mul_pows(e, ip)), ip)
    lead = min(e.t, key=lambda m: m.uid)
    c = e.t[lead]
    if not isinstance(c, GQ) and isinstance(c, (int, Fr)):
        # keep positivity: scale by positive content only when possible
        k = abs(c) if all(not isinstance(x, GQ) for x in e.t.values()) and is_nonneg(e) else c
    else:
        k = c
    n = e.scale(cinv(k))
    return atom(base_atom(n), -1).scale(cinv(k))


def app_e(sym, idx, cj=False):
    """Element of an opaque array as E; splits on indicators inside indices."""
    h = sym.info.get("eval") if isinstance(sym.info, dict) else None
    if h is not None:
        r = h(idx)
        if r is not None:
            return r.conj() if cj else r
    for k, x in enumerate(idx):
        if _has_top_ind(x):
            return shannon(x, lambda y: app_e(sym, tuple(idx[:k]) + (y,) + tuple(idx[k + 1:]), cj))
    return atom(app(sym, idx, cj))


def isqrt_frac(q):
    q = Fr(q)
    if q < 0:
        return None
    a, b = isqrt(q.numerator), isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return Fr(a, b)
    return None


def fn(name, args, kind=None, cj=False):
    """Known functions with light normalisation."""
    args = tuple(as_e(a) for a in args)
    if name == "div":
        return int_div(args[0], args[1])
    for k, x in enumerate(args):
        if _has_top_ind(x) and name not in ("amaxall",):
            return shannon(x, lambda y: fn(name, args[:k] + (y,) + args[k + 1:], kind, cj))
    if name == "sqrt":
        (x,) = args
        if not x.t:
            return ZERO
        c = x.const()
        if c is not None and not isinstance(c, GQ):
            s = isqrt_frac(abs(c))
            if s is not None:
                r = num(s)
                return r if c > 0 else r * (IUNIT if not cj else -IUNIT)
            if c < 0:
                r = fn("sqrt", (num(-c),), "r")
                return r * (IUNIT if not cj else -IUNIT)
            # pull out square part
            q = Fr(c)
            n = q.numerator * q.denominator
            s = 1
            d = 2
            while d * d <= n and d < 2000:
                while n % (d * d) == 0:
                    n //= d * d
                    s *= d
                d += 1
            out = Fr(s, q.denominator)
            return atom(_mk("F", "sqrt", (num(n),), "r")).scale(_nf(out))
        if len(x.t) == 1:
            ((m, c),) = x.t.items()
            if not m.bv and not isinstance(c, GQ) and c > 0:
                # split positive factors
                out = ONE if c == 1 else fn("sqrt", (num(c),))
                left = {}
                changed = c != 1
                for a, p in m.fac:
                    if nonneg_atom(a):
                        changed = True
                        if p % 2 == 0:
                            out = out * (atom(a) ** (p // 2))
                        elif p > 0:
                            out = out * (atom(a) ** ((p - 1) // 2)) * atom(_mk("F", "sqrt", (atom(a),), "r"))
                        else:
                            out = out * (atom(a) ** ((p - 1) // 2)) * atom(_mk("F", "sqrt", (atom(a),), "r"))
                    elif p % 2 == 0 and a.kind != "c":
                        changed = True
                        out = out * fn("abs", (atom(a),), "r") ** (p // 2)
                    else:
                        left[a] = p
                ex = m.ex
                if ex is not None and is_real(ex):
                    out = out * exp(ex.scale(Fr(1, 2)))
                    ex = None
                    changed = True
                if changed and len(m.fac) > 0 and not (len(m.fac) == 1 and m.fac[0][1] == 1 and c == 1 and m.ex is None):
                    if not left and ex is None:
                        return out
                    rest = build([], left, ex)
                    k2 = "r" if is_real(rest) and is_nonneg(rest) else "c"
                    return out * atom(_mk("F", "sqrt", (rest,), k2, cj if k2 == "c" else False))
        else:
            cf = _common_pos(x)
            if cf:
                out, rest = ONE, x
                for a, p in cf.items():
                    if p >= 2 or p <= -1:
                        q = p // 2 if p > 0 else -((-p + 1) // 2)
                        out = out * build([], {a: q}, None)
                        rest = rest * build([], {a: -2 * q}, None)
                if rest is not x:
                    return out * fn("sqrt", (rest,), kind, cj)
            g = rcontent(x)
            if g is not None and g != 1:
                s = isqrt_frac(g)
                if s is not None:
                    return fn("sqrt", (x.scale(cinv(g)),), kind, cj).scale(_nf(s))
        k2 = "r" if is_real(x) and is_nonneg(x) else "c"
        return atom(_mk("F", "sqrt", (x,), k2, cj if k2 == "c" else False))
    if name == "abs":
        (x,) = args
        if not x.t:
            return ZERO
        c = x.const()
        if c is not None:
            if isinstance(c, GQ):
                return fn("sqrt", (num(Fr(c.r) ** 2 + Fr(c.i) ** 2),))
            return num(abs(c))
        if is_nonneg(x):
            return x
        if is_nonneg(-x):
            return -x
        if len(x.t) == 1:
            ((m, c),) = x.t.items()
            if not m.bv:
                out = fn("abs", (num(c),))
                if len(m.fac) == 1 and m.fac[0][1] == 1 and m.ex is None:
                    a = m.fac[0][0]
                    if a.key[0] == "F" and a.name == "sqrt":
                        pass
                    if a.kind == "c":
                        a2 = conj_atom(a)
                        if a2.uid < a.uid:
                            a = a2
                    return out * atom(_mk("F", "abs", (atom(a),), "i" if a.kind == "i" else "r"))
                for a, p in m.fac:
                    if a.key[0] == "B":
                        ab = recip(fn("abs", (a.args[0],)))
                        out = out * ab ** (-p)
                        continue
                    ab = fn("abs", (atom(a),), "r")
                    out = out * (ab ** p)
                if m.ex is not None:
                    out = out * exp(re(m.ex))
                return out
        else:
            cf = _common_pos(x)
            if cf:
                return build([], dict(cf), None) * fn("abs", (x * build([], {a: -p for a, p in cf.items()}, None),), kind)
        g = rcontent(x)
        k = 1
        if g is not None and g != 1 and g != 0:
            x = x.scale(cinv(_nf(g)))
            k = _nf(g)
        cands = [x, -x]
        if not is_real(x):
            cands += [x.conj(), -x.conj()]
        x = min(cands, key=lambda z: z.uid)
        return atom(_mk("F", "abs", (x,), "i" if is_int(x) else "r")).scale(k)
    if name == "sign":
        pass
    if name in ("arg",):
        (x,) = args
        if is_real(x) and is_nonneg(x):
            return ZERO
        return atom(_mk("F", "arg", (x,), "r"))
    if name == "log":
        (x,) = args
        if x.const() == 1:
            return ZERO
        return atom(_mk("F", "log", (x,), "r" if is_nonneg(x) else "c", cj and not is_nonneg(x)))
    kind = kind or "c"
    if kind != "c":
        cj = False
    return atom(_mk("F", name, args, kind, cj))


def _common_pos(x):
    """Largest common monomial of positive real (non-integer) atoms."""
    com = None
    for m in x.t:
        if m.bv:
            return None
        f = {a: p for a, p in m.fac if a.kind == "r" and a.key[0] == "A" and pos_atom(a)}
        com = f if com is None else {a: (min(p, f[a]) if p > 0 else max(p, f[a])) for a, p in com.items() if a in f and (f[a] > 0) == (p > 0)}
        if not com:
            return None
    return com


def rcontent(x):
    """positive rational content."""
    g = None
    for c in x.t.values():
        if isinstance(c, GQ):
            return None
        c = abs(Fr(c))
        if g is None:
            g = c
        else:
            g = Fr(gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
    return g


def exact_div(a, b):
    """Polynomial exact division of integer expressions a / b, or None."""
    if not a.t:
        return ZERO
    bc = b.const()
    if bc is not None:
        if bc == 0:
            return None
        r = a.scale(cinv(bc))
        return r if is_int(r) else None
    if len(b.t) == 1:
        ((m, c),) = b.t.items()
        if m.bv or m.ex is not None:
            return None
        r = a * recip(b)
        return r if is_int(r) else None
    # multi-term divisor: long division in the leading variable
    q = ZERO
    rem = a
    lead_b = max(b.t, key=lambda m: (sum(p for _, p in m.fac), m.uid))
    inv_lead = recip(E({lead_b: b.t[lead_b]}))
    for _ in range(20):
        if not rem.t:
            return q if is_int(q) else None
        lead = max(rem.t, key=lambda m: (sum(p for _, p in m.fac), m.uid))
        t = E({lead: rem.t[lead]}) * inv_lead
        if not is_int(t):
            return None
        q = q + t
        rem = rem - t * b
    return None


def int_div(a, b):
    """floor division of integer expressions, b > 0."""
    bc, ac = b.int_const(), a.int_const()
    if bc is not None and ac is not None:
        return num(ac // bc)
    if bc == 1:
        return a
    q = exact_div(a, b)
    if q is not None:
        return q
    # split a = q*b + r  by collecting the terms divisible by b
    if len(b.t) == 1:
        qd, r = {}, {}
        ib = recip(b)
        for m, c in a.t.items():
            t = E({m: c}) * ib
            if is_int(t):
                for mm, cc in t.t.items():
                    qd[mm] = cc
            elif bc is not None and isinstance(c, int) and mono_int(m) and c // bc != 0 and c > 0:
                qd[m] = c // bc
                if c % bc:
                    r[m] = c % bc
            else:
                r[m] = c
        qd, r = E(qd), E(r)
        if qd.t:
            if decide_ge(r) and decide_ge(b - 1 - r):
                return qd
            return qd + int_div(r, b)
    if decide_ge(a) and decide_ge(b - 1 - a):
        return ZERO
    return atom(_mk("F", "div", (a, b), "i"))


def int_mod(a, b):
    return a - b * int_div(a, b)


# ----------------------------------------------------------------------------------------------------------
# Indicators.
# ----------------------------------------------------------------------------------------------------------


def _sign_norm(e):
    """(normalised e, flipped?) so that the leading coefficient is positive."""
    lead = min(e.t, key=lambda m: m.uid)
    c = e.t[lead]
    if not isinstance(c, GQ) and c < 0:
        return -e, True
    return e, False


def _mkI(name, args):
    a = _mk("I", name, args, "i")
    if CTX is not None and CTX.case is not None and CTX.case.allows(a):
        return ONE if CTX.case.decide(a) else ZERO
    return atom(a)


def ind_eq(e):
    """[e == 0] for an integer expression."""
    e = as_e(e)
    c = e.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if not is_int(e):
        g = _clear_int(e)
        if g is None:
            return ind_req(e)
        e = g
    if _has_top_ind(e):
        return shannon(e, ind_eq)
    e, _ = _sign_norm(e)
    g = content(E({m: c for m, c in e.t.items() if m is not ONE_M}))
    if g > 1:
        k = e.t.get(ONE_M, 0)
        if k % g:
            return ZERO
        e = e.scale(Fr(1, g))
    d = decide("eq", e)
    if d is not None:
        return ONE if d else ZERO
    s = _divmod_split(e)
    if s is not None:
        return ind_eq(s[0]) * ind_eq(s[1])
    return _mkI("eq", (e,))


def _divmod_split(e):
    """e = D*b + r with integer D and |r| < b for a positive integer b: e == 0 iff D == 0 and r == 0."""
    if CTX is None or len(e.t) < 3:
        return None
    cand = []
    for m in e.t:
        if m.bv or m.ex is not None:
            return None
        for a, p in m.fac:
            if p == 1 and a not in cand and pos_atom(a) and is_int(atom(a)):
                cand.append(a)
    for b in cand:
        D, r = {}, {}
        for m, c in e.t.items():
            if any(a is b for a, _ in m.fac):
                D[m] = c
            else:
                r[m] = c
        if not r or len(D) < 2:
            continue
        r, be = E(r), atom(b)
        if r.const() is not None:
            continue
        if decide_ge(be - 1 - r) and decide_ge(be - 1 + r):
            q = E(D) * build([], {b: -1}, None)
            if is_int(q):
                return q, r
    for b in sorted({abs(c) for c in e.t.values() if isinstance(c, int) and 1 < abs(c) <= 64}):
        D, r = {}, {}
        for m, c in e.t.items():
            (D if isinstance(c, int) and c % b == 0 and m is not ONE_M else r)[m] = c
        r = E(r)
        if len(D) < 2 or r.const() is not None:
            continue
        if decide_ge(b - 1 - r) and decide_ge(r + (b - 1)):
            return E(D).scale(Fr(1, b)), r
    return None


def _clear_int(e):
    """Multiply by positive integer/dims to make integer; None if not possible."""
    l = 1
    for c in e.t.values():
        if isinstance(c, GQ):
            return None
        d = Fr(c).denominator
        l = l * d // gcd(l, d)
    e = e.scale(l)
    neg = {}
    for m in e.t:
        if m.bv or m.ex is not None:
            return None
        for a, p in m.fac:
            if p < 0:
                if not pos_atom(a):
                    return None
                neg[a] = min(neg.get(a, 0), p)
    if neg:
        e = e * build([], {a: -p for a, p in neg.items()}, None)
    return e if is_int(e) else None


def ind_ge(e):
    """[e >= 0] for an integer expression."""
    e = as_e(e)
    c = e.const()
    if c is not None:
        return ONE if c >= 0 else ZERO
    if not is_int(e):
        g = _clear_int(e)
        if g is None:
            return ind_rge(e)
        e = g
    if _has_top_ind(e):
        return shannon(e, ind_ge)
    g = content(E({m: c for m, c in e.t.items() if m is not ONE_M}))
    if g > 1:
        k = e.t.get(ONE_M, 0)
        ee = E({m: c for m, c in e.t.items() if m is not ONE_M}).scale(Fr(1, g))
        e = ee + (k // g)
    d = decide("ge", e)
    if d is not None:
        return ONE if d else ZERO
    # orientation: leading non-constant coefficient positive
    ne = E({m: c for m, c in e.t.items() if m is not ONE_M})
    _, fl = _sign_norm(ne)
    if fl:
        return ONE - _mkI("ge", (-e - 1,))
    return _mkI("ge", (e,))


def _real_norm(e):
    """positive rescale for real comparisons."""
    g = rcontent(e)
    if g is not None and g != 1 and g != 0:
        e = e.scale(cinv(_nf(g)))
    # multiply by positive denominators
    neg = {}
    for m in e.t:
        for a, p in m.fac:
            if p < 0 and pos_atom(a) and not m.bv:
                neg[a] = min(neg.get(a, 0), p)
    if neg:
        e = e * build([], {a: -p for a, p in neg.items()}, None)
    return e


def ind_gt(e):
    """[e > 0] for a real expression."""
    e = as_e(e)
    c = e.const()
    if c is not None:
        return ONE if c > 0 else ZERO
    if is_int(e):
        return ind_ge(e - 1)
    g = _clear_int(e)
    if g is not None:
        return ind_ge(g - 1)
    if _has_top_ind(e):
        return shannon(e, ind_gt)
    e = _real_norm(e)
    if is_pos(e):
        return ONE
    if is_nonneg(-e):
        return ZERO
    d = decide("gt", e)
    if d is not None:
        return ONE if d else ZERO
    return _mkI("gt", (e,))


def ind_rge(e):
    return ONE - ind_gt(-as_e(e))


def _same_zero(x, e):
    """x and the argument e of a [e == 0] indicator differ by a nonzero factor only (syntactic)."""
    if x.uid == e.uid:
        return True
    if is_real(x):
        y, _ = _sign_norm(_real_norm(x))
        return y.uid == e.uid
    return False


def ind_req(e):
    """[e == 0] real/complex."""
    e = as_e(e)
    c = e.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if _has_top_ind(e):
        return shannon(e, ind_req)
    if is_real(e):
        e = _real_norm(e)
        e, _ = _sign_norm(e)
        if is_pos(e) or is_pos(-e):
            return ZERO
    else:
        lead = min(e.t, key=lambda m: m.uid)
        e = e.scale(cinv(e.t[lead]))
    d = decide("req", e)
    if d is not None:
        return ONE if d else ZERO
    return _mkI("req", (e,))


def ind(name, *args):
    if name == "eq":
        return ind_eq(args[0])
    if name == "ge":
        return ind_ge(args[0])
    if name == "gt":
        return ind_gt(args[0])
    if name == "req":
        return ind_req(args[0])
    if name == "mod0":
        g, N = args
        if g.const() == 0 or exact_div(g, N) is not None:
            return ONE
        if _has_top_ind(g):
            return shannon(g, lambda y: ind("mod0", y, N))
        gc, nc = g.int_const(), N.int_const()
        if gc is not None and nc is not None:
            return ONE if gc % nc == 0 else ZERO
        g, _ = _sign_norm(g)
        if decide_ge(N - 1 - g) and decide_ge(N - 1 + g):
            return ind_eq(g)
        return _mkI("mod0", (g, N))
    # opaque boolean (e.g. all/any over an axis)
    return atom(_mk("I", name, tuple(as_e(a) for a in args), "i"))


# ----------------------------------------------------------------------------------------------------------
# Context hooks (filled in by context.py).
# ----------------------------------------------------------------------------------------------------------

CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def decide(kind, e):
    """True/False/None for e==0 / e>=0 (integers) or e>0 / e==0 (reals) in the current context."""
    if kind == "ge" and quick_ge(e):
        return True
    if kind == "ge" and quick_ge(-e - 1):
        return False
    if kind == "eq" and (quick_ge(e - 1) or quick_ge(-e - 1)):
        return False
    if CTX is not None:
        return CTX.decide(kind, e)
    return None


def decide_ge(e):
    c = e.const()
    if c is not None:
        return c >= 0
    if not is_int(e):
        return False
    if quick_ge(e):
        return True
    if quick_ge(-e - 1):
        return False
    if CTX is not None:
        if CTX.decide("ge", e) is True:
            return True
        # D*b + r with b > 0, D >= 0 and r >= 0
        for b, D, r in _groups(e):
            if decide_ge(D) and decide_ge(r):
                return True
    return False


def _groups(e):
    if len(e.t) < 3:
        return
    cand = []
    for m in e.t:
        if m.bv or m.ex is not None:
            return
        for a, p in m.fac:
            if p == 1 and a not in cand and pos_atom(a) and is_int(atom(a)):
                cand.append(a)
    for b in cand:
        D, r = {}, {}
        for m, c in e.t.items():
            (D if any(a is b for a, _ in m.fac) else r)[m] = c
        if len(D) < 2:
            continue
        D = E(D) * build([], {b: -1}, None)
        if is_int(D):
            yield b, D, E(r)


def quick_ge(e, depth=0):
    """Sound, fast sufficient check for e >= 0 using variable ranges only."""
    c = e.const()
    if c is not None:
        return not isinstance(c, GQ) and c >= 0
    if depth > 6:
        return False
    for m in e.t:
        if m.bv or m.ex is not None:
            return False
        for a, p in m.fac:
            if p < 0:
                return False
    if all((not isinstance(c, GQ)) and c >= 0 and all(nonneg_atom(a) for a, p in m.fac) for m, c in e.t.items()):
        return True
    # eliminate an index variable
    vs = [v for v in e.fv if v.hi is not None]
    # variables whose ranges depend on others first
    for v in vs:
        ab = coeff_of(e, v)
        if ab is None:
            continue
        A, B = ab
        if quick_ge(A, depth + 1):
            return quick_ge(A.scale(v.lo) + B, depth + 1)
        if quick_ge(-A, depth + 1):
            return quick_ge(A * (v.hi - 1) + B, depth + 1)
    if vs:
        return False
    # indicator / bool atoms: bounded 0..1
    for m in e.t:
        for a, p in m.fac:
            if is_idem(a):
                return quick_ge(set_ind(e, a, 0), depth + 1) and quick_ge(set_ind(e, a, 1), depth + 1)
    # dims: shift by lower bound
    ds = [v for v in e.fv if v.hi is None and v.lo]
    if ds:
        mp = {}
        for v in ds:
            w = Var(v.name + "'", 0, None)
            mp[v] = atom(w) + v.lo
        e2 = subst(e, mp)
        return all((not isinstance(c, GQ)) and c >= 0 and all(nonneg_atom(a) for a, p in m.fac) for m, c in e2.t.items())
    return False


# ----------------------------------------------------------------------------------------------------------
# Printing.
# ----------------------------------------------------------------------------------------------------------


def fmt_atom(a):
    t = a.key[0]
    if t == "V":
        return a.name
    if t == "S":
        return a.name
    if t == "A":
        s = f"{a.name}[{', '.join(map(fmt, a.args))}]" if a.args else a.name
        return s + ("*" if a.cj else "")
    if t == "B":
        return "(" + fmt(a.args[0]) + ")"
    if t == "I":
        return f"[{a.name} {', '.join(map(fmt, a.args))}]"
    return f"{a.name}({', '.join(map(fmt, a.args))})" + ("*" if a.cj else "")


def fmt(e, limit=12):
    if not e.t:
        return "0"
    out = []
    for n, (m, c) in enumerate(e.t.items()):
        if n >= limit:
            out.append(f"... ({len(e.t)} terms)")
            break
        parts = []
        if m.bv:
            parts.append("SUM{" + ",".join(f"{v.name}<{fmt(v.hi)}" for v in m.bv) + "}")
        if c != 1 or (not m.fac and m.ex is None):
            parts.append(str(c))
        for a, p in m.fac:
            parts.append(fmt_atom(a) + (f"^{p}" if p != 1 else ""))
        if m.ex is not None:
            parts.append(f"exp({fmt(m.ex)})")
        out.append(" ".join(parts))
    return " + ".join(out)
