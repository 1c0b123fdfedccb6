"""Symbolic kit: contracts run on symbolic arrays; every k.eq / k.true / k.raises is a proof obligation."""
from __future__ import annotations
import contextlib
import itertools
import time
import traceback
import types
from fractions import Fraction as Fr
from . import expr as X, arrays as A, context as C, prover as P, fakejax as FJ, nc as NC, enumer as EN
from .arrays import SArr, SInt, SBool, asarray, mk_int
from .expr import Unsupported, atom, ZERO, ONE, num


class Obl:
    __slots__ = ("name", "status", "method", "detail", "hints", "time", "path")

    def __init__(self, name, status, method="", detail="", hints=None, t=0.0, path=0):
        self.name, self.status, self.method, self.detail, self.hints, self.time, self.path = name, status, method, detail, hints, t, path

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class SymKit:
    symbolic = True

    def __init__(self, ctx, mods, log, path):
        self.ctx = ctx
        self.m = mods
        self.log = log
        self.path = path
        import sys
        self.np = sys.modules["jax.numpy"]
        self.jax = sys.modules["jax"]
        self.onp = sys.modules["numpy"]
        self.patched = []
        self.soft = self.abstracted = False
        self.unknown0 = C.STATS.unknown
        self.split = False
        self.cutter = None

    # -- inputs --------------------------------------------------------------------------------------------
    def dim(self, name, lo=1, big=5):
        return mk_int(atom(X.Var(name, lo, None)))

    def int(self, name, lo=0, hi=None):
        """A symbolic integer lo <= n (< hi)."""
        if hi is not None and A.dim_e(hi).int_const() == lo + 1:
            return lo
        v = X.Var(name, lo, A.dim_e(hi) if hi is not None else None)
        return mk_int(atom(v))

    def carray(self, name, shape=(), **kw):
        return A.opaque(name, shape, "c", kw.get("dtype"))

    def rarray(self, name, shape=(), sign=None, lo=None, hi=None, special=None, **kw):
        facts = None
        if lo is not None or hi is not None:
            def facts(args, a):
                out = []
                if lo is not None:
                    out.append(("ge", atom(a) - num(lo)))
                if hi is not None:
                    out.append(("ge", num(hi) - atom(a)))
                return out
            if lo is not None and lo > 0:
                sign = "+"
            elif lo == 0 and sign is None:
                sign = "0+"
        return A.opaque(name, shape, "r", kw.get("dtype"), sign=sign, facts=facts)

    def iarray(self, name, shape=(), lo=None, hi=None):
        def facts(args, a):
            out = []
            if lo is not None:
                out.append(("ge", atom(a) - A.dim_e(lo)))
            if hi is not None:
                out.append(("ge", A.dim_e(hi) - 1 - atom(a)))
            return out
        return A.opaque(name, shape, "i", sign="0+" if lo == 0 else None, facts=facts if (lo is not None or hi is not None) else None)

    def barray(self, name, shape=()):
        return A.opaque(name, shape, "b")

    def expansion(self, name, n, lattice=None):
        """An Expansion with n distinct integer pairs (arbitrary)."""
        ne = A.dim_e(n)
        gname = name + "_G"

        def bound(c):
            v = X.Var("%r0", 0, ne)
            body = X.fn("abs", (atom(X.app(sym, (atom(v), num(c)))),), "i")
            return A.amax_e(body, [v], "i")

        def facts(args, a):
            c = args[-1].int_const()
            if c is None:
                return []
            b = bound(c)
            return [("ge", b - atom(a)), ("ge", b + atom(a))]
        sym = X.arrsym(gname, "i")
        sym.info = {"inj": 2}
        sym.facts = facts
        g = A.opaque(gname, (n, 2), "i")
        return self.m.basis.Expansion(basis_coefficients=g)

    def gmax(self, ex):
        """(max|G_x|, max|G_y|) of the expansion."""
        g = ex.basis_coefficients
        return tuple(mk_int(A.amax(A.abs_(g[:, c])).el(())) for c in (0, 1))

    def invertible(self, name, shape):
        """(M, M^-1) for an arbitrary invertible matrix M."""
        q = A.opaque(name + "^-1", shape, "c")
        return A.inv(q), q

    def ufun(self, name, kind="c"):
        """An arbitrary (uninterpreted) function applied elementwise."""
        def f(*xs):
            return A.elementwise([asarray(x) for x in xs], lambda *e: X.fn("U:" + name, e, kind), lambda d: A.C128 if kind == "c" else A.F64)
        return f

    def opaque_omega_k(self):
        """Callee contract for fmm_matrices.omega_script_k_matrix_patterned: an arbitrary matrix determined by the
        layer (identified by the elements of its z_permittivity_matrix)."""
        def fn(wavelength, z_permittivity_matrix, transverse_permeability_matrix, transverse_wavevectors):
            z = asarray(z_permittivity_matrix)
            n2 = mk_int(A.dim_e(z.shape[-1]).scale(2))
            rank = transverse_permeability_matrix.ndim

            def f(idx):
                e = z.el(tuple(idx[:-2])[len(idx) - z.ndim:] + (ZERO, ZERO)) if len(idx) != z.ndim else z.el(tuple(idx[:-2]) + (ZERO, ZERO))
                if len(e.t) != 1:
                    raise Unsupported("omega_k of an unknown layer")
                ((m, c),) = e.t.items()
                if c != 1 or len(m.fac) != 1 or m.fac[0][0].key[0] != "A":
                    raise Unsupported("omega_k of an unknown layer")
                a = m.fac[0][0]
                sym = X.arrsym("omega_k:" + a.name, "c")
                return X.app_e(sym, tuple(a.args[:-2]) + tuple(idx[-2:]))
            bs = A.broadcast_shapes(z.shape[:-2], asarray(transverse_permeability_matrix).shape[:-2])
            return SArr(bs + (n2, n2), A.C128, f)
        self.patch(self.m.fmm_matrices, "omega_script_k_matrix_patterned", fn)

    def convolution(self, x, ex):
        """Callee contract for fft.fourier_convolution_matrix: linear in the medium, c -> c * identity for constants c."""
        return A.linear_operator("F:" + self.fingerprint(ex.basis_coefficients), x, ex.num_terms)

    def tangent(self, shape, kind, tag=""):
        """A pair of arrays, not both zero anywhere."""
        syms = [X.arrsym(f"t{c}{tag}", kind) for c in "xy"]

        def facts(args, a):
            sq = ZERO
            for s in syms:
                e = X.app_e(s, args)
                sq = sq + X.fn("abs", (e,), "r") ** 2
            return [("ge", sq - num(1e-4))]
        out = [A.opaque(f"t{c}{tag}", shape, kind) for c in "xy"]
        for s in syms:
            s.facts = facts
        return out

    def seed_array(self, *a, **k):
        raise Unsupported("concrete only")

    # -- assumptions ---------------------------------------------------------------------------------------
    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise C.Infeasible()
            return
        e = self._bool_e(cond)
        c = e.const()
        if c is not None:
            if not c:
                raise C.Infeasible()
            return
        self.ctx.add("true", e)
        if self.ctx.sat([]) == "unsat":
            raise C.Infeasible()

    def _bool_e(self, cond):
        if isinstance(cond, bool):
            return ONE if cond else ZERO
        if isinstance(cond, SBool):
            return cond.e
        a = asarray(cond)
        if a.ndim:
            raise Unsupported("array condition in assume")
        return a.el(())

    # -- obligations ---------------------------------------------------------------------------------------
    def record(self, name, status, method="", detail="", hints=None, t=0.0):
        self.log.append(Obl(name, status, method, detail, hints, t, self.path))

    def hints(self):
        return P.snapshot(self.ctx)

    def shape(self, name, a, shape):
        got = tuple(A.asarray(a).shape)
        shape = A.norm_shape(shape)
        if len(got) != len(shape):
            self.record(name, "failed", "shape", f"rank {got} != {shape}", self.hints())
            return False
        for x, y in zip(got, shape):
            d = A.dim_e(x) - A.dim_e(y)
            if d.t:
                r = P.prove_zero(d, self.ctx)
                if not r.ok:
                    self.record(name, "failed", "shape", f"shape {got} != {shape}", self.hints())
                    return False
        self.record(name, "proved", "shape")
        return True

    def eq(self, name, a, b, tol=None):
        """Arrays equal in shape and in every element."""
        t0 = time.time()
        self.soft = self.abstracted
        a, b = asarray(a), asarray(b)
        if a.ndim != b.ndim:
            self.record(name, "failed", "shape", f"shape {a.shape} vs {b.shape}", self.hints())
            return
        for x, y in zip(a.shape, b.shape):
            d = A.dim_e(x) - A.dim_e(y)
            if d.t and not P.prove_zero(d, self.ctx).ok:
                self.record(name, "failed", "shape", f"shape {a.shape} vs {b.shape}", self.hints())
                return
        if (a._nc is not None or b._nc is not None) and a.ndim >= 2:
            if A.HYPS.eig and self.eq_eigen(a, b):
                self.record(name, "proved", "eigen-equation", "", None, time.time() - t0)
                return
            if self.eq_nc(a, b):
                self.record(name, "proved", "matrix-algebra", "", None, time.time() - t0)
                return
            dl = self.ctx.deadline
            self.ctx.deadline = min(dl, time.time() + 12) if dl else time.time() + 12
            try:
                self.eq_elements(name, a, b, t0)
            except X.OutOfBudget:
                if dl and time.time() > dl:
                    raise
                self.record(name, "undecided", "matrix-algebra", "neither derived nor refuted", None, time.time() - t0)
            finally:
                self.ctx.deadline = dl
            return
        self.eq_elements(name, a, b, t0)

    def eq_elements(self, name, a, b, t0):
        # index blocks
        axes = []
        for k, d in enumerate(b.shape):
            de = A.dim_e(d)
            c = de.int_const()
            nm = f"i{k}"
            if c is not None:
                if c == 0:
                    self.record(name, "proved", "empty")
                    return
                if c <= 9:
                    axes.append([num(q) for q in range(c)])
                else:
                    axes.append([atom(X.Var(nm, 0, de))])
            else:
                g = X.content(de)
                if 2 <= g <= 4:
                    n = de.scale(Fr(1, g))
                    axes.append([n.scale(q) + atom(X.Var(nm, 0, n)) for q in range(g)])
                else:
                    axes.append([atom(X.Var(nm, 0, de))])
        total = 0
        methods = {}
        for idx in itertools.product(*axes):
            total += 1
            if self.split:
                r = self.prove_cases(a, b, idx)
                if not r.ok:
                    dl = self.ctx.deadline
                    self.ctx.deadline = min(dl, time.time() + 6) if dl else time.time() + 6
                    try:
                        r2 = P.prove_zero(a.el(idx) - b.el(idx), self.ctx)
                        if r2.ok:
                            r = r2
                    except X.OutOfBudget:
                        self.soft = True
                    finally:
                        self.ctx.deadline = dl
            else:
                r = P.prove_zero(a.el(idx) - b.el(idx), self.ctx)
            if not r.ok:
                # a residual is a failed obligation only if no resource limit was hit on the way
                st = "failed" if r.ok is False and not self.soft and C.STATS.unknown == self.unknown0 else "undecided"
                self.record(name, st, r.method,
                            f"at index {tuple(X.fmt(i) for i in idx)}: residual {X.fmt(r.residual, 6)[:1500]}",
                            r.model or self.hints(), time.time() - t0)
                return
            methods[r.method] = methods.get(r.method, 0) + 1
        self.record(name, "proved", ",".join(sorted(methods)), f"{total} blocks", None, time.time() - t0)

    def eq_eigen(self, a, b):
        """Equality of matrices that follows from the defining equation of an eigendecomposition."""
        idx = tuple(ZERO if A.dim_e(d).int_const() == 1 else atom(X.Var(f"i{q}", 0, A.dim_e(d))) for q, d in enumerate(b.shape))
        return not P.eig_direct(a.el(idx) - b.el(idx)).t

    def eq_nc(self, a, b):
        """Equality of matrix expressions by non-commutative rewriting (see nc.py)."""
        bi = tuple(ZERO if A.dim_e(d).int_const() == 1 else atom(X.Var(f"i{q}", 0, A.dim_e(d))) for q, d in enumerate(b.shape[:-2]))
        dl = self.ctx.deadline
        self.ctx.deadline = min(dl, time.time() + 40) if dl else time.time() + 40
        try:
            p = a.nc(A.bidx2(bi, a.shape[:-2])) - b.nc(A.bidx2(bi, b.shape[:-2]))
            return NC.prove(p, self.ctx)
        except NC.NCFail as ex:
            self.nc_note = str(ex)
            return False
        except X.OutOfBudget:
            self.soft = True
            return False
        finally:
            self.ctx.deadline = dl

    def prove_cases(self, a, b, idx):
        """Prove a[idx] == b[idx] by case analysis over the conditions on idx (see context.Case)."""
        ctx = self.ctx
        free = set()
        for i in idx:
            free |= set(i.fv)
        pending = [[]]
        n = 0
        methods = set()
        while pending:
            prefix = pending.pop()
            n += 1
            if n > 400:
                return P.Result(None, "too many cases", a.el(idx) - b.el(idx))
            saved = (list(ctx.pc), ctx.pckey)
            case = ctx.case = C.Case(ctx, prefix, pending, free)
            try:
                d = a.el(idx) - b.el(idx)
                case.on = False
                for s in case.subs:
                    q = P.eq_subst(s)
                    if q is not None:
                        d = X.subst(d, {q[0]: q[1]})
                if case.decisions:
                    d = P.pin_vars(d, ctx, free)
                r = P.prove_zero(d, ctx)
                if not r.ok and case.decisions:
                    d2 = P.pin_ge(d, ctx, case, free)
                    if not d2.same(d):
                        r = P.prove_zero(d2, ctx)
                if not r.ok:
                    if r.model is None:
                        r.model = P.snapshot(ctx)
                    r.method += " in case " + "; ".join(f"{X.fmt(X.atom(x))}={int(v)}" for x, v in case.known.items())[:400]
                    return r
                methods.add(r.method)
            except C.Infeasible:
                continue
            finally:
                ctx.case = None
                ctx.pc, ctx.pckey = saved
        return P.Result(True, ("cases/" if n > 1 else "") + "+".join(sorted(methods))[:60])

    def true(self, name, cond):
        """cond (bool / symbolic bool / boolean array) holds, for every index."""
        t0 = time.time()
        if isinstance(cond, bool):
            self.record(name, "proved" if cond else "failed", "const", "" if cond else "False", None if cond else self.hints())
            return
        if isinstance(cond, SBool):
            cs = [cond.e]
        else:
            a = asarray(cond)
            if a.dtype.kind != "b":
                a = a != 0
            axes = []
            for k, d in enumerate(a.shape):
                c = A.dim_e(d).int_const()
                if c is not None and c <= 9:
                    axes.append([num(q) for q in range(c)])
                else:
                    axes.append([atom(X.Var(f"i{k}", 0, A.dim_e(d)))])
            cs = [a.el(i) for i in itertools.product(*axes)]
        for e in cs:
            c = e.const()
            if c == 1:
                continue
            st = self.ctx.sat([("false", e)], timeout_ms=6000)
            if st == "unsat":
                continue
            if st == "sat":
                r, model, tr = self.ctx.sat([("false", e)], timeout_ms=6000, want_model=True)
                h = P.model_hints(model, tr) if model is not None else None
                self.record(name, "failed", "z3", f"not implied: {X.fmt(e)[:800]}", h, time.time() - t0)
            else:
                self.record(name, "undecided", "z3-unknown", X.fmt(e)[:800], None, time.time() - t0)
            return
        self.record(name, "proved", "z3", "", None, time.time() - t0)

    # -- enumerations (see enumer.py) ----------------------------------------------------------------------
    def naming(self):
        """Context in which scalar square roots, quotients, ... get names with defining facts."""
        @contextlib.contextmanager
        def cm():
            if self.cutter is None:
                self.cutter = EN.Cutter(self.ctx)
            old, A.CUT = A.CUT, self.cutter
            try:
                yield
            finally:
                A.CUT = old
        return cm()

    def fact(self, cond):
        return ("true", self._bool_e(cond))

    def derive(self, name, goals, given=()):
        """Every goal (kind, e) follows from the given facts and the definitions of named scalars."""
        t0 = time.time()
        defs = self.cutter.defs if self.cutter is not None else []
        light = [d for d in defs if not EN.square_def(d)]
        for g in goals:
            if g[0] == "true" and g[1].const() == 1:
                continue
            if any(f[0] == g[0] and f[1].same(g[1]) for f in given):
                continue
            if not (self.ctx.implied(light + list(given), g, 4000) or self.ctx.implied(self.ctx.pc + defs + list(given), g, 8000)
                    or self.ctx.sat(defs + list(given) + [EN.negate(g)], timeout_ms=8000) == "unsat"):
                self.record(name, "undecided", "z3", f"not derived: {g[0]} {X.fmt(g[1])[:600]}", None, time.time() - t0)
                return False
        self.record(name, "proved", "z3", "", None, time.time() - t0)
        return True

    def square_lemma(self, name, e, root):
        """e >= 0 because e == root^2 (after unfolding squares of named scalars)."""
        e, root = asarray(e).el(()), asarray(root).el(())
        ok = self.cutter.unfold(e).same(self.cutter.unfold(root * root))
        self.record(name, "proved" if ok else "undecided", "normal-form")
        return ("ge", e)

    def rows(self, g):
        return EN.Enumeration(asarray(g))

    def scalar(self, e):
        return SArr((), A.I64 if X.is_int(e) else A.F64, lambda i: e)

    def every_row(self, name, en, goal, given=()):
        """goal(*row) (a list of conditions) holds for every row of the enumeration."""
        gs = [self.fact(c) for c in goal(*[self.scalar(r) for r in en.rows])]
        rng = [("ge", atom(v) - num(v.lo)) for v in en.vars] + [("ge", v.hi - 1 - atom(v)) for v in en.vars]
        return self.derive(name, gs, rng + [("true", c) for c in en.conds] + list(given))

    def has_row(self, name, en, target, given=()):
        """target is one of the rows."""
        mp = en.solve([asarray(t).el(()) for t in target])
        goals = []
        for v, val in mp.items():
            goals += [("ge", val - num(v.lo)), ("ge", v.hi - 1 - val)]
        for c in en.conds:
            goals.append(("true", X.subst(c, mp)))
        return self.derive(name, goals, given)

    def row_range(self, en):
        """(smallest, largest) value of every component (rows are independent variables plus offsets)."""
        en.solve(en.rows)
        if en.conds:
            raise Unsupported("range of a filtered enumeration")
        out = []
        for r in en.rows:
            v = next(v for v in en.vars if v in r.fv)
            out.append((self.scalar(X.subst(r, {v: num(v.lo)})), self.scalar(X.subst(r, {v: v.hi - 1}))))
        return out

    def distinct_rows(self, name, en):
        """Different positions hold different rows: the row determines the variables of the enumeration, which
        determine the position (permutations, mask enumerations and flattening are injective)."""
        en.solve(en.rows)
        self.record(name, "proved", "enumeration is injective")

    def sorted_by(self, name, en, key):
        """Rows are in non-decreasing order of key(*row): the outermost enumeration is an argsort of it."""
        if not en.perms or en.order[0] != "perm":
            raise Unsupported("rows are not sorted by an argsort")
        a = en.perms[0]
        info = a.meta.info
        want = key(*[self.scalar(r) for r in en.rows_at(0)])
        want = asarray(want).el(())
        with A.no_facts():
            got = info["key"].el((atom(en.at[0]),))
        ok = got.same(want)
        self.record(name, "proved" if ok else "undecided", "argsort", "" if ok else f"sorted by {X.fmt(got)[:300]}, not {X.fmt(want)[:300]}")

    def le(self, name, a, b):
        """a <= b elementwise (reals)."""
        self.true(name, ~(asarray(a) > asarray(b)))

    def raises(self, name, fn, exc=(ValueError, TypeError, AssertionError, IndexError)):
        try:
            fn()
        except Unsupported:
            raise
        except C.Infeasible:
            raise
        except exc as ex:
            if _engine_error(ex):
                raise Unsupported(f"engine: {ex!r}")
            self.record(name, "proved", "raised", type(ex).__name__)
            return
        self.record(name, "failed", "no exception", "call returned instead of raising", self.hints())

    def call(self, name, fn, *a, **k):
        """Call that must not raise."""
        return fn(*a, **k)

    def patch(self, module, attr, value):
        self.patched.append((module, attr, getattr(module, attr)))
        setattr(module, attr, value)

    def fingerprint(self, *arrays):
        """Identifies arrays by their elements."""
        return "-".join(str(A.generic(asarray(a)).uid) for a in arrays)

    def vjp(self, fn, matrix, *rest):
        """Outputs of fn(matrix, *rest) and its vector-Jacobian product with respect to matrix."""
        if not hasattr(fn, "bwd"):
            raise Unsupported("function without a custom vjp rule")
        out, res = fn.fwd(matrix, *rest) if rest else fn.fwd(matrix, *fn.defaults())
        return out, lambda cts: fn.bwd(res, cts)[0]

    def abstract(self, module, attr, value):
        """Symbolic runs only: replace a callee by (a weakening of) its contract."""
        if hasattr(module, attr):
            self.soft = self.abstracted = True      # a refutation may be an artefact of the abstraction
            self.patch(module, attr, value)

    def unpatch(self):
        for m, a, v in reversed(self.patched):
            setattr(m, a, v)
        self.patched.clear()

    def note(self, s):
        pass

    # -- spec helpers --------------------------------------------------------------------------------------
    def gather_free(self):
        return None


def _engine_error(ex):
    s = str(ex)
    if isinstance(ex, (AttributeError, NameError, NotImplementedError, RecursionError)):
        return True
    if isinstance(ex, TypeError) and ("unexpected keyword" in s or "positional argument" in s or "SArr" in s or "SInt" in s or "SBool" in s or "unhashable" in s):
        return True
    tb = traceback.extract_tb(ex.__traceback__)
    # an error the engine did not raise on purpose
    if tb and "/fmverif/" in tb[-1].filename and not (tb[-1].line or "").lstrip().startswith("raise"):
        return True
    return False


def run_variant(contract, variant, mods, deadline, extra_timeout=None):
    """Run one contract variant over all paths. Returns dict."""
    t0 = time.time()
    log = []
    npaths = 0
    status = "ok"
    reason = ""
    A.HYPS.clear()
    X._arrs.clear()
    A._red_info.clear()
    q0, z0 = C.STATS.queries, C.STATS.z3_time

    def body(ctx):
        nonlocal npaths
        npaths += 1
        k = SymKit(ctx, mods, log, npaths)
        k.split = contract.split
        try:
            contract.fn(k, **variant)
        except (C.Infeasible, Unsupported):
            raise
        except RecursionError as ex:
            raise Unsupported(f"recursion: {ex}")
        except Exception as ex:
            if _engine_error(ex):
                raise Unsupported(f"engine: {type(ex).__name__}: {ex} @ {_where(ex)}")
            k.record("no-exception", "undecided" if k.abstracted else "failed", type(ex).__name__, f"{type(ex).__name__}: {str(ex)[:300]} @ {_where(ex)}", k.hints())
        finally:
            k.unpatch()
    try:
        for ctx, _ in C.explore(body, deadline, contract.max_paths):
            pass
    except Unsupported as ex:
        status = "undecided"
        reason = f"{type(ex).__name__}: {str(ex)[:300]} @ {_where(ex)}"
    return dict(contract=contract.key, variant=variant, status=status, reason=reason, paths=npaths,
                obligations=[o.as_dict() for o in log], wall=time.time() - t0,
                z3_queries=C.STATS.queries - q0, z3_time=C.STATS.z3_time - z0)


def _where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    fr = [f for f in tb if "/fmmax/" in f.filename]
    f = fr[-1] if fr else (tb[-1] if tb else None)
    return f"{f.filename.split('/')[-1]}:{f.lineno} {f.name}" if f else "?"
