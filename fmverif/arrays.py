"""Symbolic arrays: shape (possibly symbolic) + element function from index expressions to expressions."""
from __future__ import annotations
import builtins
import contextlib
import itertools
from fractions import Fraction as Fr
from . import expr as X
from .expr import E, Unsupported, as_e, num, atom, ZERO, ONE
from . import nc as NC


class ShapeError(TypeError, ValueError):
    """Raised like numpy/jax do on incompatible shapes (jax raises TypeError, numpy/lax ValueError)."""


# ----------------------------------------------------------------------------------------------------------
# dtypes
# ----------------------------------------------------------------------------------------------------------
class DT:
    _all: dict = {}

    def __init__(self, kind, bits):
        self.kind = kind
        self.bits = bits
        self.name = {"b": "bool", "i": f"int{bits}", "f": f"float{bits}", "c": f"complex{bits}"}[kind]

    def __eq__(self, o):
        try:
            o = as_dtype(o)
        except Exception:
            return False
        return self is o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"dtype({self.name})"

    def __call__(self, x):
        return asarray(x).astype(self)

    @property
    def itemsize(self):
        return max(1, self.bits // 8)


BOOL = DT("b", 8)
I32, I64 = DT("i", 32), DT("i", 64)
F32, F64 = DT("f", 32), DT("f", 64)
C64, C128 = DT("c", 64), DT("c", 128)
_DT = {d.name: d for d in (BOOL, I32, I64, F32, F64, C64, C128)}
_DT.update({"int": I64, "float": F64, "complex": C128, "uint8": I32, "int8": I32, "int16": I32, "uint32": I32,
            "float16": F32, "bfloat16": F32})


def as_dtype(d):
    if isinstance(d, DT):
        return d
    if d is bool:
        return BOOL
    if d is int:
        return I64
    if d is float:
        return F64
    if d is complex:
        return C128
    if isinstance(d, str):
        return _DT[d]
    if isinstance(d, SArr):
        return d.dtype
    n = getattr(d, "__name__", None) or getattr(d, "name", None)
    if n in _DT:
        return _DT[n]
    raise Unsupported(f"dtype {d!r}")


_KR = {"b": 0, "i": 1, "f": 2, "c": 3}


def promote(a, b):
    a, b = as_dtype(a), as_dtype(b)
    if a is b:
        return a
    if _KR[a.kind] < _KR[b.kind]:
        a, b = b, a
    if a.kind == b.kind:
        return a if a.bits >= b.bits else b
    if a.kind == "c" and b.kind == "f":
        return C128 if (a.bits == 128 or b.bits == 64) else C64
    return a


def promote_weak(a, kind):
    """dtype a with a python scalar of the given kind."""
    if _KR[kind] <= _KR[a.kind]:
        return a
    if kind == "c":
        return C128 if (a.kind in "bi" or a.bits == 64) else C64
    return {"b": BOOL, "i": I64, "f": F64}[kind]


# ----------------------------------------------------------------------------------------------------------
# symbolic python scalars
# ----------------------------------------------------------------------------------------------------------
def mk_int(e):
    c = e.int_const()
    if c is not None:
        return c
    return SInt(e)


def dim_e(d):
    if isinstance(d, SInt):
        return d.e
    if isinstance(d, bool):
        return num(int(d))
    if isinstance(d, int):
        return num(d)
    if isinstance(d, E):
        return d
    if isinstance(d, SArr):
        if d.ndim == 0:
            return d.el(())
        raise Unsupported("non-scalar dimension")
    if hasattr(d, "__index__"):
        return num(d.__index__())
    raise TypeError(f"bad integer {d!r}")


class SInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def to_e(self):
        return self.e

    def _lift(self, o, f):
        if isinstance(o, (int, SInt)):
            return mk_int(f(self.e, dim_e(o)))
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, (float, complex, SArr)):
            return asarray(self) + o
        return self._lift(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (float, complex, SArr)):
            return asarray(self) - o
        return self._lift(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, (float, complex, SArr)):
            return o - asarray(self)
        return self._lift(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (float, complex, SArr)):
            return asarray(self) * o
        if isinstance(o, (tuple, list)):
            raise Unsupported("sequence repetition by a symbolic size")
        return self._lift(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self._lift(o, X.int_div)

    def __rfloordiv__(self, o):
        return self._lift(o, lambda a, b: X.int_div(b, a))

    def __mod__(self, o):
        return self._lift(o, X.int_mod)

    def __rmod__(self, o):
        return self._lift(o, lambda a, b: X.int_mod(b, a))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return asarray(self) / asarray(o)

    def __rtruediv__(self, o):
        return asarray(o) / asarray(self)

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            return mk_int(self.e ** n)
        return asarray(self) ** n

    def __neg__(self):
        return mk_int(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(X.fn("abs", (self.e,), "i"))

    def _cmp(self, o, f):
        if isinstance(o, (int, SInt)):
            return SBool(f(self.e, dim_e(o))).simp()
        if isinstance(o, SArr) or isinstance(o, float):
            return NotImplemented
        return None

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: X.ind_eq(a - b))
        if r is NotImplemented:
            return asarray(self) == asarray(o)
        return False if r is None else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: ONE - X.ind_eq(a - b))
        if r is NotImplemented:
            return asarray(self) != asarray(o)
        return True if r is None else r

    def _ord(self, o, f, g):
        r = self._cmp(o, f)
        if r is NotImplemented:
            return g(asarray(self), asarray(o))
        if r is None:
            raise TypeError("unorderable")
        return r

    def __lt__(self, o):
        return self._ord(o, lambda a, b: X.ind_ge(b - a - 1), lambda a, b: a < b)

    def __le__(self, o):
        return self._ord(o, lambda a, b: X.ind_ge(b - a), lambda a, b: a <= b)

    def __gt__(self, o):
        return self._ord(o, lambda a, b: X.ind_ge(a - b - 1), lambda a, b: a > b)

    def __ge__(self, o):
        return self._ord(o, lambda a, b: X.ind_ge(a - b), lambda a, b: a >= b)

    def __hash__(self):
        raise Unsupported("hash of a symbolic size (set membership needs undecided equalities)")

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        raise Unsupported(f"symbolic size {self.e!r} used as a concrete integer")

    def __int__(self):
        raise Unsupported(f"symbolic size {self.e!r} used as a concrete integer")

    def __float__(self):
        raise Unsupported("float of a symbolic size")

    def __repr__(self):
        return f"<{self.e!r}>"

    def __format__(self, spec):
        return repr(self)

    # numpy-scalar-like protocol
    def item(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def simp(self):
        c = self.e.const()
        if c is not None:
            return bool(c)
        return self

    def to_e(self):
        return self.e

    def __bool__(self):
        return branch(self.e)

    def __and__(self, o):
        return SBool(self.e * as_e(o)).simp()

    __rand__ = __and__

    def __or__(self, o):
        o = as_e(o)
        return SBool(self.e + o - self.e * o).simp()

    __ror__ = __or__

    def __invert__(self):
        return SBool(ONE - self.e).simp()

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            o = as_e(int(o)) if isinstance(o, bool) else o.e
            return SBool(self.e * o + (ONE - self.e) * (ONE - o)).simp()
        return NotImplemented

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __repr__(self):
        return f"<bool {self.e!r}>"


def branch(e):
    c = e.const()
    if c is not None:
        return bool(c)
    if X.CTX is None:
        raise Unsupported("branch outside a path context")
    return X.CTX.branch(e)


def dims_equal(a, b):
    """Decide (forking if needed) equality of two dims."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return bool(dim_e(a).same(dim_e(b)) or mk_int(dim_e(a)) == mk_int(dim_e(b)))


def is_one(d):
    return dims_equal(d, 1)


def broadcast_dims(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if a == b or b == 1:
            return a
        if a == 1:
            return b
        raise ShapeError(f"Incompatible shapes for broadcasting: {a} and {b}")
    if dim_e(a).same(dim_e(b)):
        return a
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if dims_equal(a, b):
        return a if not isinstance(a, int) else b
    if is_one(a):
        return b
    if is_one(b):
        return a
    raise ShapeError(f"Incompatible shapes for broadcasting: {a} and {b}")


def broadcast_shapes(*shapes):
    shapes = [tuple(s) if not isinstance(s, (int, SInt)) else (s,) for s in shapes]
    n = max((len(s) for s in shapes), default=0)
    out = [1] * n
    for s in shapes:
        off = n - len(s)
        for k, d in enumerate(s):
            out[off + k] = broadcast_dims(out[off + k], d)
    return tuple(out)


def norm_shape(shape):
    if isinstance(shape, (int, SInt)):
        shape = (shape,)
    if isinstance(shape, SArr):
        shape = tuple(shape)
    out = []
    for d in shape:
        if isinstance(d, SArr):
            d = mk_int(d.el(()))
        elif isinstance(d, SInt):
            d = mk_int(d.e)
        elif not isinstance(d, int):
            d = d.__index__()
        out.append(d)
    return tuple(out)


def size_e(shape):
    r = ONE
    for d in shape:
        r = r * dim_e(d)
    return r


# ----------------------------------------------------------------------------------------------------------
# SArr
# ----------------------------------------------------------------------------------------------------------
class ArrMeta(type):
    pass


class SArr:
    __array_priority__ = 1000

    def __init__(self, shape, dtype, fn, weak=False):
        self._shape = tuple(shape)
        self._dtype = dtype
        self._fn = fn
        self._memo = {}
        self.weak = weak
        self.tag = None
        self._nc = None
        self._view = None
        self._cat = None        # (axis counted from the end, parts): concatenation of the parts along that axis

    def nc(self, b):
        """Matrix-algebra form at batch index b (raises NCFail if there is none)."""
        if self._nc is not None:
            if self._view is None:
                return self._nc(b)
            try:
                return self._nc(b)
            except NC.NCFail:
                pass
        if self.ndim < 2:
            raise NC.NCFail("not a matrix")
        rows, cols = dim_e(self._shape[-2]), dim_e(self._shape[-1])
        if rows.int_const() is not None and rows.int_const() <= 3:
            raise NC.NCFail("small matrix")
        vec = cols.int_const() == 1
        if cols.int_const() is not None and not vec:
            raise NC.NCFail("small matrix")
        e = self.el(tuple(b) + (atom(NC.vi(rows)), ZERO if vec else atom(NC.vj(cols))))
        try:
            return NC.parse(e, rows, cols, vec)
        except NC.NCFail:
            if vec or not e.t:
                raise
            # an arbitrary matrix, identified by its generic element
            return NC.NC({(NC.letter("M", e, ("generic", e.uid), rows, cols),): ONE}, rows, cols)

    @property
    def shape(self):
        return self._shape

    @property
    def dtype(self):
        return self._dtype

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return mk_int(size_e(self._shape))

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def el(self, idx):
        idx = tuple(idx)
        k = tuple(i.uid for i in idx)
        if X.CTX is not None and X.CTX.case is not None:
            k = (k, X.CTX.case.token)
        r = self._memo.get(k)
        if r is None:
            X.TICK()
            r = self._fn(idx)
            self._memo[k] = r
        return r

    def to_e(self):
        if self.ndim == 0:
            return self.el(())
        raise Unsupported("array used as scalar")

    def __repr__(self):
        return f"SArr(shape={self._shape}, {self._dtype.name})"

    def __format__(self, s):
        return repr(self)

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        d = self._shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported("len of symbolic dimension")

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        d = self._shape[0]
        if not isinstance(d, int):
            raise Unsupported("iteration over a symbolic dimension")
        return iter([self[k] for k in range(d)])

    def __bool__(self):
        if self.ndim and not all(isinstance(d, int) and d == 1 for d in self.shape):
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        e = self.el((ZERO,) * self.ndim)
        if self.dtype.kind != "b":
            e = ONE - (X.ind_eq(e) if self.dtype.kind == "i" else X.ind_req(e))
        return branch(e)

    def __index__(self):
        if self.ndim == 0 and self.dtype.kind == "i":
            c = self.el(()).int_const()
            if c is not None:
                return c
            raise Unsupported("symbolic integer used as a concrete integer")
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def item(self):
        if self.dtype.kind == "i":
            return mk_int(self.el((ZERO,) * self.ndim))
        return self.reshape(())

    def __int__(self):
        raise Unsupported("int() of symbolic array: builtin int not intercepted")

    def __float__(self):
        raise Unsupported("float() of symbolic array")

    def __complex__(self):
        raise Unsupported("complex() of symbolic array")

    # -- structure -----------------------------------------------------------------------------------------
    def astype(self, dt, copy=True):
        dt = as_dtype(dt)
        if dt is self.dtype:
            return self
        if dt.kind == "b" and self.dtype.kind != "b":
            return self != 0
        if self.dtype.kind == "c" and dt.kind in "fi":
            return real(self).astype(dt)
        if self.dtype.kind == "f" and dt.kind == "i":
            def f(idx):
                e = self.el(idx)
                if X.is_int(e):
                    return e
                return X.fn("trunc", (e,), "i")
            return SArr(self.shape, dt, f)
        r = SArr(self.shape, dt, self.el)
        r._nc = self._nc
        r._view = self._view
        if self._cat is not None:
            r._cat = (self._cat[0], [p.astype(dt) for p in self._cat[1]])
        return r

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and not isinstance(shape[0], (int, SInt)):
            shape = shape[0]
        return reshape(self, shape)

    def flatten(self):
        return reshape(self, (-1,))

    ravel = flatten

    def transpose(self, *axes):
        if len(axes) == 1 and not isinstance(axes[0], int):
            axes = axes[0]
        return transpose(self, axes or None)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return transpose(self, ax)

    @property
    def T(self):
        return transpose(self, None)

    @property
    def mT(self):
        n = self.ndim
        return transpose(self, tuple(range(n - 2)) + (n - 1, n - 2))

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def conj(self):
        return conj(self)

    conjugate = conj

    @property
    def real(self):
        return real(self)

    @property
    def imag(self):
        return imag(self)

    def copy(self):
        return self

    def sum(self, axis=None, keepdims=False):
        return sum_(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False):
        return mean(self, axis, keepdims)

    def max(self, axis=None, keepdims=False):
        return amax(self, axis, keepdims)

    def min(self, axis=None, keepdims=False):
        return -amax(-self, axis, keepdims)

    def all(self, axis=None, keepdims=False):
        return all_(self, axis, keepdims)

    def any(self, axis=None, keepdims=False):
        return ~all_(~(self.astype(bool)), axis, keepdims)

    def prod(self, axis=None, keepdims=False):
        return prod(self, axis, keepdims)

    def round(self, decimals=0):
        return round_(self)

    def tobytes(self):
        return Bytes(self)

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() for x in self]

    @property
    def at(self):
        return _At(self)

    def block_until_ready(self):
        return self

    # -- indexing ------------------------------------------------------------------------------------------
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        new = setitem(self, key, v)
        frozen = SArr(self._shape, self._dtype, self._fn)
        frozen._memo = self._memo
        # values are immutable functions: rebind this object to the updated function
        new2 = setitem(frozen, key, v)
        self._fn = new2._fn
        self._memo = {}
        self._nc = None
        self._view = None
        self._cat = None

    # -- arithmetic ----------------------------------------------------------------------------------------
    def __add__(self, o):
        return nc_linear(binop(self, o, lambda a, b: a + b), self, o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return nc_linear(binop(self, o, lambda a, b: a - b), self, o, -1)

    def __rsub__(self, o):
        return nc_linear(binop(o, self, lambda a, b: a - b), o, self, -1)

    def __mul__(self, o):
        return nc_mul(binop(self, o, lambda a, b: a * b), self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        r = divide(self, o)
        if self._nc is not None:
            nc_mul(r, self, divide(1, o))
        return r

    def __rtruediv__(self, o):
        return divide(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __neg__(self):
        r = SArr(self.shape, self.dtype, lambda i: -self.el(i), self.weak)
        if self._nc is not None:
            r._nc = lambda b: -self._nc(b)
        return r

    def __pos__(self):
        return self

    def __abs__(self):
        return abs_(self)

    def __pow__(self, n):
        return power(self, n)

    def __rpow__(self, b):
        return power(b, self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __eq__(self, o):
        if o is None:
            return False
        return compare(self, o, "eq")

    def __ne__(self, o):
        if o is None:
            return True
        return ~compare(self, o, "eq")

    def __lt__(self, o):
        return compare(o, self, "gt")

    def __gt__(self, o):
        return compare(self, o, "gt")

    def __le__(self, o):
        return ~compare(self, o, "gt")

    def __ge__(self, o):
        return ~compare(o, self, "gt")

    def __and__(self, o):
        o = asarray(o)
        if self.dtype.kind != "b" or o.dtype.kind != "b":
            raise Unsupported("bitwise and")
        return binop(self, o, lambda a, b: a * b)

    __rand__ = __and__

    def __or__(self, o):
        o = asarray(o)
        if self.dtype.kind != "b" or o.dtype.kind != "b":
            raise Unsupported("bitwise or")
        return binop(self, o, lambda a, b: a + b - a * b)

    __ror__ = __or__

    def __xor__(self, o):
        o = asarray(o)
        return binop(self, o, lambda a, b: a + b - (a * b).scale(2))

    def __invert__(self):
        if self.dtype.kind != "b":
            raise Unsupported("bitwise not")
        return SArr(self.shape, BOOL, lambda i: ONE - self.el(i))

    __hash__ = None


class Bytes:
    """Abstract `tobytes()` value: equal/hash-equal iff generic content is equal."""

    def __init__(self, a):
        self.key = (generic(a).uid, a.dtype.name, tuple(dim_e(d).uid for d in a.shape))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Bytes) and self.key == o.key


# ----------------------------------------------------------------------------------------------------------
# constructors
# ----------------------------------------------------------------------------------------------------------
def kind_of(x):
    if isinstance(x, (bool, SBool)):
        return "b"
    if isinstance(x, (int, SInt)):
        return "i"
    if isinstance(x, float):
        return "f"
    if isinstance(x, complex):
        return "c"
    return None


_weakdt = {"b": BOOL, "i": I64, "f": F64, "c": C128}

NAN = X._mk("F", "nan", (), "r")


def scalar_e(x):
    if isinstance(x, float) and x != x:
        return atom(NAN)
    return as_e(x)


def const_array(x, dtype=None, weak=False):
    e = scalar_e(x)
    return SArr((), as_dtype(dtype) if dtype is not None else _weakdt[kind_of(x)], lambda i: e, weak)


def asarray(x, dtype=None):
    if isinstance(x, SArr):
        return x if dtype is None else x.astype(dtype)
    k = kind_of(x)
    if k is not None:
        a = const_array(x, weak=True)
        return a if dtype is None else SArr((), as_dtype(dtype), a.el)
    if isinstance(x, (list, tuple, range)):
        items = [asarray(y) for y in x]
        if not items:
            return SArr((0,), as_dtype(dtype) if dtype else F64, lambda i: ZERO)
        a = stack(items, axis=0)
        a.weak = False
        return a if dtype is None else a.astype(dtype)
    if hasattr(x, "tolist") and hasattr(x, "dtype"):  # real numpy
        a = asarray(x.tolist())
        a = a.astype(str(x.dtype))
        return a if dtype is None else a.astype(dtype)
    raise TypeError(f"cannot convert {type(x).__name__} to an array")


def opaque(name, shape, kind="c", dtype=None, sign=None, facts=None, info=None):
    sym = X.arrsym(name, kind, sign, facts, info)
    dt = dtype or {"c": C128, "r": F64, "i": I64, "b": BOOL}[kind]
    a = SArr(norm_shape(shape), as_dtype(dt), None)

    def f(idx):
        # size-one axes always read index 0
        return X.app_e(sym, tuple(ZERO if (isinstance(d, int) and d == 1) else i for i, d in zip(idx, a.shape)))

    a._fn = f
    a.tag = sym
    return a


def zeros(shape, dtype=None):
    return SArr(norm_shape(shape), as_dtype(dtype) if dtype is not None else F64, lambda i: ZERO)


def ones(shape, dtype=None):
    return SArr(norm_shape(shape), as_dtype(dtype) if dtype is not None else F64, lambda i: ONE)


def full(shape, v, dtype=None):
    v = asarray(v)
    r = broadcast_to(v, norm_shape(shape))
    return r.astype(dtype) if dtype is not None else r


def eye(n, m=None, dtype=None):
    m = n if m is None else m
    return SArr(norm_shape((n, m)), as_dtype(dtype) if dtype is not None else F64, lambda i: X.ind_eq(i[0] - i[1]))


def arange(*args, dtype=None):
    if len(args) == 1:
        a, b, s = 0, args[0], 1
    elif len(args) == 2:
        (a, b), s = args, 1
    else:
        a, b, s = args
    isint = all(isinstance(t, (int, SInt)) or (isinstance(t, SArr) and t.dtype.kind == "i") for t in (a, b, s))
    ae, be, se = as_e(a), as_e(b), as_e(s)
    if isint:
        if se.const() == 1:
            n = be - ae
        elif se.const() == -1:
            n = ae - be
        elif se.int_const() is not None and se.int_const() > 0:
            n = X.int_div(be - ae + se - 1, se)
        else:
            raise Unsupported("arange step")
        n = mk_int(n)
        if not (n >= 0):
            n = 0
        return SArr((n,), as_dtype(dtype) if dtype else I64, lambda i: ae + se * i[0])
    # real-valued: number of elements is ceil((b-a)/s), mathematically
    q = (be - ae) * X.recip(se)
    if X.is_int(q):
        n = q
    else:
        # q = n - r with 0 <= r < 1, n integer part after rounding up, when decidable
        n = None
        q2 = q + num(Fr(1, 2))
        if X.is_int(q2):
            n = q2  # q = n - 1/2
        if n is None:
            raise Unsupported("real arange with undecided length")
    n = mk_int(n)
    if not (n >= 0):
        n = 0
    return SArr((n,), as_dtype(dtype) if dtype else F64, lambda i: ae + se * i[0])


def linspace(a, b, n=50, endpoint=True, axis=0, dtype=None):
    a, b = asarray(a), asarray(b)
    a, b = broadcast_arrays(a, b)
    ne = dim_e(n)
    den = (ne - 1) if endpoint else ne
    if endpoint:
        if bool(mk_int(ne) == 1):
            den = ONE
    nd = a.ndim + 1
    ax = axis % nd

    def f(i):
        r = i[:ax] + i[ax + 1:]
        x, y = a.el(r), b.el(r)
        return x + (y - x) * i[ax] * X.recip(den)
    dt = promote(promote(a.dtype, b.dtype), F32 if a.dtype.kind == "f" or b.dtype.kind == "f" else F64)
    return SArr(a.shape[:ax] + (mk_int(ne),) + a.shape[ax:], dt if dt.kind != "i" else F64, f)


def meshgrid(*xs, indexing="xy"):
    xs = [asarray(x) for x in xs]
    if any(x.ndim != 1 for x in xs):
        raise ValueError("meshgrid arguments must be 1D")
    n = len(xs)
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    shape = [None] * n
    for k, x in enumerate(xs):
        shape[order[k]] = x.shape[0]
    out = []
    for k, x in enumerate(xs):
        out.append(SArr(tuple(shape), x.dtype, (lambda x, ax: lambda i: x.el((i[ax],)))(x, order[k])))
    return out


# ----------------------------------------------------------------------------------------------------------
# elementwise
# ----------------------------------------------------------------------------------------------------------
def result_dtype(xs):
    strong = [x.dtype for x in xs if not x.weak]
    weak = [x.dtype.kind for x in xs if x.weak]
    if not strong:
        k = max((x.dtype for x in xs), key=lambda d: _KR[d.kind])
        return _weakdt[k.kind], True
    d = strong[0]
    for s in strong[1:]:
        d = promote(d, s)
    for k in weak:
        d = promote_weak(d, k)
    return d, False


def bidx(a, idx):
    """Restrict the output index to array a under broadcasting."""
    n = a.ndim
    idx = idx[len(idx) - n:]
    return tuple(ZERO if (isinstance(d, int) and d == 1) else i for i, d in zip(idx, a.shape))


def elementwise(xs, f, dtype=None):
    xs = [asarray(x) for x in xs]
    shape = broadcast_shapes(*[x.shape for x in xs])
    # a symbolic dim known (on this path) to be 1 against a larger one must read index 0
    xs = [_fit(x, shape) for x in xs]
    dt, weak = result_dtype(xs)
    if dtype is not None:
        dt = as_dtype(dtype) if not callable(dtype) or isinstance(dtype, DT) else dtype(dt)
        weak = False
    return SArr(shape, dt, lambda i: f(*[x.el(bidx(x, i)) for x in xs]), weak and not shape)


def _fit(x, shape):
    off = len(shape) - x.ndim
    sh = []
    ch = False
    for k, d in enumerate(x.shape):
        o = shape[off + k]
        if isinstance(d, SInt) and not dim_e(d).same(dim_e(o)) and not dims_equal(d, o):
            sh.append(1)
            ch = True
        else:
            sh.append(d)
    if not ch:
        return x
    r = SArr(tuple(sh), x.dtype, x.el, x.weak)
    r._nc = x._nc
    return r        # (block structure is not kept: broadcasting over a unit axis)


def _memo_nc(f):
    memo = {}

    def g(b):
        b = tuple(b)
        k = tuple(i.uid for i in b)
        r = memo.get(k)
        if r is None:
            r = memo[k] = f(b)
        return r
    return g


def cat_getitem(x, key):
    try:
        key = norm_key(x, key)
    except Exception:
        return None
    if len(key) != x.ndim or not all(isinstance(k, slice) for k in key):
        return None
    ax = x._cat[0] + x.ndim
    full = slice(None)
    if any(k != full for d, k in enumerate(key) if d != ax) or key[ax] == full or key[ax].step not in (None, 1):
        return None
    a, _, ln = slice_params(key[ax], x.shape[ax])
    return cat_part(x, ax, a if isinstance(a, X.E) else num(a), ln)


class _Base:
    def __init__(self, shape, nc):
        self.shape, self._nc = shape, nc


def gather_op(op):
    """Structural operation (expand_dims, indexing, reshape, transpose ...): the matrix-algebra form follows the elements.

    The operation is applied to the index functions of the array it views, so the result knows which element of that array
    each of its own elements is."""
    def wrapped(x, *args, **kw):
        r = None
        if isinstance(x, SArr) and x._cat is not None and op.__name__ == "getitem":
            r = cat_getitem(x, args[0])
        if r is None:
            r = op(x, *args, **kw)
        if not isinstance(x, SArr) or not isinstance(r, SArr) or r is x:
            return r
        if x._cat is not None and op.__name__ == "expand_dims":
            ax = args[0] if args else kw["axis"]
            ax = norm_axes((ax,) if isinstance(ax, int) else tuple(ax), r.ndim)
            if all(t < r.ndim - 2 for t in ax):
                r._cat = (x._cat[0], [expand_dims(p, ax) for p in x._cat[1]])
        if x._nc is None and x._view is None:
            return r
        base, maps = x._view if x._view is not None else (_Base(x.shape, x._nc), [SArr(x.shape, I64, lambda i, k=k: i[k]) for k in range(x.ndim)])
        r._view = (base, [op(m, *args, **kw) for m in maps])
        if r.ndim >= 2 and all(dim_e(p).same(dim_e(q)) for p, q in zip(r.shape[-2:], base.shape[-2:])):
            vec = dim_e(r.shape[-1]).int_const() == 1
            vi = atom(NC.vi(dim_e(r.shape[-2])))
            vj = ZERO if vec else atom(NC.vj(dim_e(r.shape[-1])))
            vs = (NC.vi(dim_e(r.shape[-2])), NC.vj(dim_e(r.shape[-1])))

            def f(b):
                idx = [m.el(tuple(b) + (vi, vj)) for m in r._view[1]]
                if idx[-2].same(vi) and idx[-1].same(vj) and not any(v in m.fv for e in idx[:-2] for m in e.t for v in vs):
                    return base._nc(tuple(idx[:-2]))
                raise NC.NCFail("not a view of whole matrices")
            r._nc = _memo_nc(f)
        return r
    wrapped.__name__ = op.__name__
    return wrapped


def _mat_like(x):
    return x.ndim >= 2


def nc_linear(r, a, b, s):
    """Matrix form of r = a + s*b when one of them is a matrix expression."""
    a, b = asarray(a), asarray(b)
    if a._nc is None and b._nc is None:
        return r
    for x in (a, b):
        if x.ndim < 2 or not dim_e(x.shape[-1]).same(dim_e(r.shape[-1])) or not dim_e(x.shape[-2]).same(dim_e(r.shape[-2])):
            if not (x.ndim == 0 and x.el(()).const() == 0):
                return r

    def f(bi):
        out = None
        for x, k in ((a, 1), (b, s)):
            if x.ndim == 0:
                continue
            p = x.nc(bidx2(bi, x.shape[:-2]))
            if k < 0:
                p = -p
            out = p if out is None else out + p
        return out
    r._nc = _memo_nc(f)
    return r


def nc_mul(r, a, b):
    """Matrix form of an elementwise product of a matrix expression with a row / column / scalar factor."""
    a, b = asarray(a), asarray(b)
    if (a._nc is None) == (b._nc is None):
        return r
    m, x = (a, b) if a._nc is not None else (b, a)
    if m.ndim < 2 or not dim_e(m.shape[-1]).same(dim_e(r.shape[-1])) or not dim_e(m.shape[-2]).same(dim_e(r.shape[-2])):
        return r
    one = lambda d: isinstance(d, int) and d == 1
    sh = ((1, 1) + x.shape)[-2:] if x.ndim < 2 else x.shape[-2:]
    n, c = dim_e(m.shape[-2]), dim_e(m.shape[-1])
    vec = one(m.shape[-1])

    def f(bi):
        p = m._nc(bidx2(bi, m.shape[:-2]))
        xb = bidx2(bi, x.shape[:-2]) if x.ndim > 2 else ()

        def at(i, j):
            return x.el((xb + (i, j))[len(xb) + 2 - x.ndim:])
        if one(sh[0]) and one(sh[1]):
            return p.scale(at(ZERO, ZERO))
        if one(sh[1]):
            return NC.diag(at(atom(NC.vi(n)), ZERO), n) * p
        if one(sh[0]):
            return p * NC.diag(at(ZERO, atom(NC.vi(c))), c)
        raise NC.NCFail("elementwise product of matrices")
    r._nc = _memo_nc(f)
    return r


def binop(a, b, f):
    if a is None or b is None or isinstance(a, (str, dict)) or isinstance(b, (str, dict)):
        raise TypeError("unsupported operand")
    return elementwise([a, b], f)


CUT = None      # enumer.Cutter: names for scalar results


def _cut(op, *xs):
    return CUT.scalar(op, *[asarray(x) for x in xs]) if CUT is not None else None


def divide(a, b):
    r = _cut("div", a, b)
    if r is not None:
        return r

    def dt(d):
        return d if d.kind in "fc" else F64
    return elementwise([a, b], lambda x, y: x * X.recip(y), dt)


def floordiv(a, b):
    a, b = asarray(a), asarray(b)
    if a.dtype.kind != "i" or b.dtype.kind != "i":
        return elementwise([a, b], lambda x, y: X.fn("floor", (x * X.recip(y),), "i"))
    return elementwise([a, b], X.int_div)


def mod(a, b):
    a, b = asarray(a), asarray(b)
    if a.dtype.kind != "i" or b.dtype.kind != "i":
        return elementwise([a, b], lambda x, y: x - y * X.fn("floor", (x * X.recip(y),), "i"))
    return elementwise([a, b], X.int_mod)


def power(a, n):
    if isinstance(n, SArr) and n.ndim == 0:
        c = n.el(()).const()
        if c is not None and not isinstance(c, X.GQ):
            n = c if isinstance(c, int) else float(c)
    if isinstance(n, float) and n == int(n):
        a = asarray(a)
        r = elementwise([a], lambda x: x ** int(n))
        return r if a.dtype.kind in "fc" else r.astype(float)
    if isinstance(n, float) and n == 0.5:
        return sqrt(a)
    if isinstance(n, float) and n == -0.5:
        return 1 / sqrt(a)
    if isinstance(n, Fr):
        n = float(n)
    if isinstance(n, int):
        return elementwise([a], lambda x: x ** n)
    a, n = asarray(a), asarray(n)
    return elementwise([a, n], lambda x, y: _pow(x, y), lambda d: d if d.kind in "fc" else F64)


def _pow(x, y):
    c = y.const()
    if isinstance(c, int):
        return x ** c
    return X.fn("pow", (x, y), "r" if X.is_nonneg(x) and X.is_real(y) else "c")


def unary(f, keep="f"):
    def g(x, **kw):
        def dt(d):
            if keep == "f" and d.kind in "bi":
                return F64
            return d
        return elementwise([x], f, dt)
    return g


def sqrt(x):
    x = asarray(x)
    r = _cut("sqrt", x)
    if r is not None:
        return r
    if x.dtype.kind == "c":
        return elementwise([x], lambda e: X.fn("sqrt", (e,), "c"))
    # real sqrt: argument must be non-negative (nan otherwise; modelled as the principal complex root)
    return elementwise([x], lambda e: X.fn("sqrt", (e,), "c"), lambda d: d if d.kind == "f" else F64)


exp = unary(X.exp)
sin = unary(X.sin)
cos = unary(X.cos)


def tan(x):
    return sin(x) / cos(x)


log = unary(lambda e: X.fn("log", (e,)))
arcsin = unary(lambda e: X.fn("arcsin", (e,), "r" if X.is_real(e) else "c"))
arccos = unary(lambda e: X.fn("arccos", (e,), "r" if X.is_real(e) else "c"))


def real(x):
    x = asarray(x)
    if x.dtype.kind != "c":
        return x
    return elementwise([x], X.re, lambda d: F64 if d.bits == 128 else F32)


def imag(x):
    x = asarray(x)
    if x.dtype.kind != "c":
        return SArr(x.shape, x.dtype, lambda i: ZERO)
    return elementwise([x], X.im, lambda d: F64 if d.bits == 128 else F32)


def conj(x):
    x = asarray(x)
    if x.dtype.kind != "c":
        return x
    return elementwise([x], lambda e: e.conj())


def abs_(x):
    x = asarray(x)
    r = _cut("abs", x)
    if r is not None:
        return r
    if x.dtype.kind in "ib":
        return elementwise([x], lambda e: X.fn("abs", (e,), "i"))
    return elementwise([x], lambda e: X.fn("abs", (e,), "r"),
                       lambda d: d if d.kind != "c" else (F64 if d.bits == 128 else F32))


def angle(x):
    x = asarray(x)
    return elementwise([x], lambda e: X.fn("arg", (e,), "r"),
                       lambda d: d if d.kind == "f" else (F64 if d.bits != 64 else F32))


def arctan2(y, x):
    return elementwise([y, x], lambda a, b: X.fn("arg", (b + a * X.IUNIT,), "r"), lambda d: d if d.kind == "f" else F64)


def sign(x):
    x = asarray(x)
    if x.dtype.kind == "c":
        return elementwise([x], lambda e: X.fn("csign", (e,), "c"))
    def f(e):
        p = X.ind_ge(e - 1) if X.is_int(e) else X.ind_gt(e)
        n = X.ind_ge(-e - 1) if X.is_int(e) else X.ind_gt(-e)
        return p - n
    return elementwise([x], f)


def round_(x, decimals=0):
    x = asarray(x)
    r = _cut("round", x)
    if r is not None:
        return r
    return elementwise([x], lambda e: e if X.is_int(e) else X.fn("round", (e,), "i"))


def floor(x):
    r = _cut("floor", x)
    if r is not None:
        return r
    return elementwise([x], lambda e: e if X.is_int(e) else X.fn("floor", (e,), "i"))


def ceil(x):
    r = _cut("ceil", x)
    if r is not None:
        return r
    return elementwise([x], lambda e: e if X.is_int(e) else -X.fn("floor", (-e,), "i"))


def maximum(a, b):
    def f(x, y):
        d = x - y
        if X.is_int(d):
            c = X.ind_ge(d)
        else:
            c = X.ONE - X.ind_gt(-d)
        k = c.const()
        if k is not None:
            return x if k else y
        return c * x + (ONE - c) * y
    return elementwise([a, b], f)


def minimum(a, b):
    return -maximum(-asarray(a), -asarray(b))


def compare(a, b, op):
    if isinstance(b, (str,)) or isinstance(a, str):
        return False
    a, b = asarray(a), asarray(b)

    def f(x, y):
        d = x - y
        if op == "eq":
            return X.ind_eq(d) if X.is_int(d) else X.ind_req(d)
        if X.is_int(d):
            return X.ind_ge(d - 1)
        return X.ind_gt(d)
    return elementwise([a, b], f, BOOL)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    """Tolerances are treated as exact equality up to the stated tolerance: |a-b| <= atol + rtol*|b|."""
    a, b = asarray(a), asarray(b)
    rt, at = as_e(float(rtol)), as_e(float(atol))

    def f(x, y):
        d = x - y
        if not d.t:
            return ONE
        return ONE - X.ind_gt(X.fn("abs", (d,), "r") - at - rt * X.fn("abs", (y,), "r"))
    return elementwise([a, b], f, BOOL)


def isnan(a):
    def f(e):
        return X.shannon(e, nan_mask)
    return elementwise([a], f, BOOL)


def nan_mask(e):
    """The 0/1-valued coefficient of nan in e."""
    if not has_nan(e):
        return ZERO
    B = ZERO
    for m, c in e.t.items():
        if any(a is NAN for a, p in m.fac):
            bv, fac, ex = X.open_mono(m)
            if ex is not None or fac.get(NAN) != 1:
                return ONE
            del fac[NAN]
            r = X.build([], fac, None) if fac else ONE
            for v in bv:
                r = X.sum_over(r, v)
            B = B + r.scale(c)
        elif m.ex is not None and has_nan(m.ex):
            return ONE
    if B.const() is not None:
        return ONE if B.const() else ZERO
    h = ONE - B
    if not all(c == 1 for c in h.t.values()) or not (masked_product(h, h) - h).is_zero():
        raise Unsupported("isnan of a partially assigned array")
    return B


def has_nan(e):
    for m in e.t:
        for a, p in m.fac:
            if a is NAN:
                return True
    return False


def masked_product(x, y):
    """x * y, where equalities common to a pair of monomials are eliminated against each other first
    ([e == 0][f == 0] implies [e +- f == 0])."""
    out = ZERO
    for m, c in x.t.items():
        for n, d in y.t.items():
            bm, fm, em = X.open_mono(m)
            bn, fn_, en = X.open_mono(n)
            r = X.E({m: 1}) if not bm else None
            pm = X.build([], dict(fm), em) if (fm or em is not None) else ONE
            pn = X.build([], dict(fn_), en) if (fn_ or en is not None) else ONE
            extra = ONE
            bound = set(bm) | set(bn)
            for a in fm:
                if a.key[0] != "I" or a.name != "eq":
                    continue
                for b in fn_:
                    if b.key[0] != "I" or b.name != "eq":
                        continue
                    free = [v for v in a.args[0].fv if v not in bound]
                    for e in (a.args[0] - b.args[0], a.args[0] + b.args[0]):
                        if e.t and len(e.t) < len(a.args[0].t) + len(b.args[0].t) and any(v not in e.fv for v in free if v in b.args[0].fv):
                            extra = extra * X.ind_eq(e)
            r = extra * pm * pn
            for v in list(bn) + list(bm):
                r = X.sum_over(r, v)
            out = out + r.scale(c * d)
    return out


def _nan_where(ce, x, y):
    """where(ce, x, y) when ce is the missing-mask of y: y without its nan part."""
    if not has_nan(y) or has_nan(x):
        return None
    try:
        B = X.shannon(y, nan_mask)
    except Unsupported:
        return None
    if B.const() is not None or not (B - ce).is_zero():
        return None
    A = X.E({m: c for m, c in y.t.items() if not any(a is NAN for a, p in m.fac)})
    if has_nan(A):
        return None
    h = ONE - B
    if (masked_product(A, h) - A).is_zero():
        return ce * x + A
    return None


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("one-argument where")
    c, a, b = asarray(c), asarray(a), asarray(b)
    if c.dtype.kind != "b":
        c = c != 0
    shape = broadcast_shapes(c.shape, a.shape, b.shape)
    c, a, b = _fit(c, shape), _fit(a, shape), _fit(b, shape)
    dt, weak = result_dtype([a, b])

    def f(i):
        ce = c.el(bidx(c, i))
        k = ce.const()
        if k is not None:
            return a.el(bidx(a, i)) if k else b.el(bidx(b, i))
        x, y = a.el(bidx(a, i)), b.el(bidx(b, i))
        r = _nan_where(ce, x, y)
        if r is not None:
            return r
        return ce * x + (ONE - ce) * y
    return SArr(shape, dt, f, weak and not shape)


def select_e(c, x, y):
    return c * x + (ONE - c) * y


# ----------------------------------------------------------------------------------------------------------
# shape manipulation
# ----------------------------------------------------------------------------------------------------------
def norm_axis(ax, nd):
    if isinstance(ax, SArr):
        ax = ax.__index__()
    if not -nd <= ax < nd:
        raise ValueError(f"axis {ax} is out of bounds for array of dimension {nd}")
    return ax % nd


def norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, SArr)):
        axis = (axis,)
    axes = tuple(norm_axis(a, nd) for a in axis)
    if len(set(axes)) != len(axes):
        raise ValueError("duplicate axes")
    return axes


def broadcast_to(x, shape):
    x = asarray(x)
    shape = norm_shape(shape)
    if x.ndim > len(shape):
        raise ValueError(f"Cannot broadcast to shape with fewer dimensions: {x.shape} to {shape}")
    r = broadcast_shapes(x.shape, shape)
    for a, b in zip(r, shape):
        if not dims_equal(a, b):
            raise ValueError(f"Incompatible shapes for broadcasting: {x.shape} and requested shape {shape}")
    x = _fit(x, shape)
    r = SArr(shape, x.dtype, lambda i: x.el(bidx(x, i)))
    if x._nc is not None and dim_e(x.shape[-1]).same(dim_e(shape[-1])) and dim_e(x.shape[-2]).same(dim_e(shape[-2])):
        r._nc = lambda b: x._nc(bidx2(b, x.shape[:-2]))
    return r


def broadcast_arrays(*xs):
    xs = [asarray(x) for x in xs]
    s = broadcast_shapes(*[x.shape for x in xs])
    return [broadcast_to(x, s) for x in xs]


@gather_op
def transpose(x, axes=None):
    x = asarray(x)
    n = x.ndim
    axes = tuple(reversed(range(n))) if axes is None else tuple(norm_axis(a, n) for a in axes)
    if sorted(axes) != list(range(n)):
        raise ValueError("axes don't match array")

    def f(i):
        j = [None] * n
        for k, a in enumerate(axes):
            j[a] = i[k]
        return x.el(tuple(j))
    return SArr(tuple(x.shape[a] for a in axes), x.dtype, f)


def moveaxis(x, src, dst):
    x = asarray(x)
    src = norm_axes(src, x.ndim)
    dst = norm_axes(dst, x.ndim)
    order = [a for a in range(x.ndim) if a not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return transpose(x, order)


def swapaxes(x, a, b):
    x = asarray(x)
    return x.swapaxes(norm_axis(a, x.ndim), norm_axis(b, x.ndim))


@gather_op
def expand_dims(x, axis):
    x = asarray(x)
    if isinstance(axis, int):
        axis = (axis,)
    axis = tuple(axis)
    n = x.ndim + len(axis)
    axes = norm_axes(axis, n)
    shape = []
    it = iter(x.shape)
    keep = []
    for k in range(n):
        if k in axes:
            shape.append(1)
        else:
            shape.append(next(it))
            keep.append(k)
    return SArr(tuple(shape), x.dtype, lambda i: x.el(tuple(i[k] for k in keep)))


@gather_op
def squeeze(x, axis=None):
    x = asarray(x)
    if axis is None:
        axes = tuple(k for k, d in enumerate(x.shape) if is_one(d))
    else:
        axes = norm_axes(axis, x.ndim)
        for a in axes:
            if not is_one(x.shape[a]):
                raise ValueError(f"cannot squeeze axis with size {x.shape[a]}")
    keep = [k for k in range(x.ndim) if k not in axes]

    def f(i):
        j = [ZERO] * x.ndim
        for k, p in zip(keep, i):
            j[k] = p
        return x.el(tuple(j))
    return SArr(tuple(x.shape[k] for k in keep), x.dtype, f)


@gather_op
def reshape(x, shape):
    x = asarray(x)
    if isinstance(shape, (int, SInt)):
        shape = (shape,)
    shape = list(shape)
    tot = size_e(x.shape)
    neg = [k for k, d in enumerate(shape) if isinstance(d, int) and d == -1]
    if len(neg) > 1:
        raise ValueError("can only specify one unknown dimension")
    if neg:
        known = ONE
        for k, d in enumerate(shape):
            if k != neg[0]:
                known = known * dim_e(d)
        q = X.exact_div(tot, known)
        if q is None:
            if X.CTX is None:
                raise Unsupported("reshape")
            # divisibility must hold for numpy to accept it
            if not branch(X.ind("mod0", tot, known)):
                raise TypeError("cannot reshape: not divisible")
            q = X.int_div(tot, known)
        shape[neg[0]] = mk_int(q)
    shape = norm_shape(shape)
    new = size_e(shape)
    if not (new - tot).is_zero():
        if not branch(X.ind_eq(new - tot)):
            raise TypeError(f"cannot reshape array of shape {x.shape} into shape {shape}")
        # sizes equal on this path but not syntactically
        if tuple(dim_e(d).uid for d in x.shape) == tuple(dim_e(d).uid for d in shape):
            return x
    out = SArr(shape, x.dtype, _reshape_fn(x, shape))
    if len(shape) == 1 and x.ndim > 1:
        out.flat_of = x
    return out


def _reshape_fn(x, shape):
    old = x.shape
    # split into aligned groups
    groups = []
    i = j = 0
    no, nn = len(old), len(shape)
    while i < no or j < nn:
        gi, gj = [], []
        a = ONE
        b = ONE
        if i < no:
            gi.append(i)
            a = dim_e(old[i])
            i += 1
        if j < nn:
            gj.append(j)
            b = dim_e(shape[j])
            j += 1
        while not a.same(b):
            # extend whichever divides less: if b is a multiple of a extend a, else extend b
            if i < no and X.exact_div(b, a) is not None:
                gi.append(i)
                a = a * dim_e(old[i])
                i += 1
            elif j < nn and X.exact_div(a, b) is not None:
                gj.append(j)
                b = b * dim_e(shape[j])
                j += 1
            elif i < no:
                gi.append(i)
                a = a * dim_e(old[i])
                i += 1
            elif j < nn:
                gj.append(j)
                b = b * dim_e(shape[j])
                j += 1
            else:
                break
        # absorb trailing ones of either side when other is exhausted
        groups.append((gi, gj))

    def f(idx):
        out = [ZERO] * no
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                out[gi[0]] = idx[gj[0]]
                continue
            nz = [p for p in gi if not (isinstance(old[p], int) and old[p] == 1)]
            nj = [p for p in gj if not (isinstance(shape[p], int) and shape[p] == 1)]
            if not nz:
                continue
            if len(nz) == 1 and len(nj) == 1:
                out[nz[0]] = idx[nj[0]]
                continue
            flat = ZERO
            for p in gj:
                flat = flat * dim_e(shape[p]) + idx[p]
            rest = flat
            for n, p in enumerate(reversed(nz)):
                d = dim_e(old[p])
                if n == len(nz) - 1:
                    out[p] = rest
                else:
                    q = X.int_div(rest, d)
                    out[p] = rest - q * d
                    rest = q
        return x.el(tuple(out))
    return f


def stack(xs, axis=0):
    xs = [asarray(x) for x in xs]
    if not xs:
        raise ValueError("need at least one array to stack")
    for x in xs[1:]:
        if x.ndim != xs[0].ndim or not all(dims_equal(a, b) for a, b in zip(x.shape, xs[0].shape)):
            raise ValueError(f"all input arrays must have the same shape: {[x.shape for x in xs]}")
    n = xs[0].ndim + 1
    ax = norm_axis(axis, n)
    dt, weak = result_dtype(xs)

    def f(i):
        k = i[ax]
        r = i[:ax] + i[ax + 1:]
        return pick(k, xs, lambda x, kk: x.el(r))
    return SArr(xs[0].shape[:ax] + (len(xs),) + xs[0].shape[ax:], dt, f)


def pick(k, xs, f):
    c = k.int_const()
    if c is not None:
        return f(xs[c], c)
    tot = ZERO
    for n, x in enumerate(xs):
        d = X.ind_eq(k - n)
        if not d.t:
            continue
        v = f(x, n)
        tot = tot + d * v
    return tot


def concatenate(xs, axis=0):
    xs = [asarray(x) for x in xs]
    if not xs:
        raise ValueError("need at least one array to concatenate")
    n = xs[0].ndim
    if n == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    ax = norm_axis(axis, n)
    for x in xs[1:]:
        if x.ndim != n:
            raise ValueError("all the input array dimensions must match")
        for k in range(n):
            if k != ax and not dims_equal(x.shape[k], xs[0].shape[k]):
                raise TypeError(f"Cannot concatenate arrays with shapes that differ: {[y.shape for y in xs]}")
    if len(xs) == 1:
        return xs[0]
    dt, weak = result_dtype(xs)
    offs = []
    o = ZERO
    for x in xs:
        offs.append(o)
        o = o + dim_e(x.shape[ax])
    ends = offs[1:] + [o]

    def f(i):
        k = i[ax]
        tot = ZERO
        for x, a, b in zip(xs, offs, ends):
            lo = X.ind_ge(k - a)
            if not lo.t:
                continue
            hi = X.ind_ge(b - 1 - k)
            c = lo * hi
            if not c.t:
                continue
            v = x.el(i[:ax] + (k - a,) + i[ax + 1:])
            tot = tot + c * v
            if c.const() == 1:
                return v
        return tot
    shape = xs[0].shape[:ax] + (mk_int(o),) + xs[0].shape[ax + 1:]
    r = SArr(shape, dt, f)
    if ax - n in (-1, -2):
        r._cat = (ax - n, xs)
    return r


def cat_part(x, ax, a, ln):
    """The part of a concatenation that starts at a and has size ln along axis ax (or None)."""
    if x._cat is None or x._cat[0] + x.ndim != ax:
        return None
    o = ZERO
    for p in x._cat[1]:
        d = dim_e(p.shape[ax - x.ndim])
        if o.same(a) and d.same(ln):
            return p if p.dtype is x.dtype else p.astype(x.dtype)
        o = o + d
    return None


def cat_slices(x, sizes, axis):
    """x cut along axis (-1 or -2) into pieces of the given sizes."""
    o = ZERO
    out = []
    for d in sizes:
        d = dim_e(d)
        p = cat_part(x, x.ndim + axis, o, d)
        if p is None:
            ax = x.ndim + axis
            sh = x.shape[:ax] + (mk_int(d),) + x.shape[ax + 1:]
            p = SArr(sh, x.dtype, (lambda a: lambda i: x.el(i[:ax] + (i[ax] + a,) + i[ax + 1:]))(o))
        out.append(p)
        o = o + d
    return out


def cat_matmul(r, a, b):
    """Block structure of r = a @ b."""
    if a._cat is not None and a._cat[0] == -2:
        r._cat = (-2, [matmul(p, b) for p in a._cat[1]])
    elif b._cat is not None and b._cat[0] == -1:
        r._cat = (-1, [matmul(a, p) for p in b._cat[1]])
    inner = None
    if a._cat is not None and a._cat[0] == -1:
        inner = [p.shape[-1] for p in a._cat[1]]
    elif b._cat is not None and b._cat[0] == -2:
        inner = [p.shape[-2] for p in b._cat[1]]
    if inner is not None:
        pa, pb = cat_slices(a, inner, -1), cat_slices(b, inner, -2)

        def f(bi):
            out = None
            for p, q in zip(pa, pb):
                t = p.nc(bidx2(bi, p.shape[:-2])) * q.nc(bidx2(bi, q.shape[:-2]))
                out = t if out is None else out + t
            return out
        r._nc = _memo_nc(f)
    return r


def cat_solve(r, a, b):
    """Block structure of the solution r of a @ r = b: its parts satisfy the block equations."""
    if a._cat is None or a._cat[0] != -2:
        return r
    rows = a._cat[1]
    if any(p._cat is None or p._cat[0] != -1 for p in rows):
        return r
    rs = [dim_e(p.shape[-2]) for p in rows]
    for p in rows:
        cs = [dim_e(q.shape[-1]) for q in p._cat[1]]
        if len(cs) != len(rs) or not all(x.same(y) for x, y in zip(cs, rs)):
            return r
    grid = [p._cat[1] for p in rows]
    rhs = cat_slices(b, [mk_int(d) for d in rs], -2)
    parts = cat_slices(r, [mk_int(d) for d in rs], -2)

    def system(bi):
        bl = [[x.nc(bidx2(bi, x.shape[:-2])) for x in row] for row in grid]
        rr = [x.nc(bidx2(bi, x.shape[:-2])) for x in rhs]
        return NC.solution(bl, rr)
    system = _memo_nc(system)
    for k, p in enumerate(parts):
        p._nc = (lambda k: lambda bi: system(bi)[k])(k)
    r._cat = (-2, parts)
    r._nc = None
    return r


def hstack(xs):
    xs = [asarray(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def block(xs):
    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, (list, tuple)) else 0
    d = depth(xs)

    def go(x, lvl):
        if lvl == d:
            return asarray(x)
        parts = [go(y, lvl + 1) for y in x]
        nd = max(max(p.ndim for p in parts), d)
        parts = [expand_dims(p, tuple(range(nd - p.ndim))) if p.ndim < nd else p for p in parts]
        return concatenate(parts, axis=-(d - lvl))
    return go(xs, 0)


def split(x, indices_or_sections, axis=0):
    x = asarray(x)
    n = indices_or_sections
    ax = norm_axis(axis, x.ndim)
    d = dim_e(x.shape[ax])
    if isinstance(n, int):
        q = X.exact_div(d, num(n))
        if q is None:
            if not branch(X.ind("mod0", d, num(n))):
                raise ValueError("array split does not result in an equal division")
            q = X.int_div(d, num(n))
        bounds = [q.scale(k) for k in range(n + 1)]
    else:
        bounds = [ZERO] + [dim_e(t) for t in n] + [d]
    out = []
    for a, b in zip(bounds, bounds[1:]):
        sh = x.shape[:ax] + (mk_int(b - a),) + x.shape[ax + 1:]
        part = cat_part(x, ax, a, b - a)
        if part is not None:
            out.append(part)
            continue
        out.append(SArr(sh, x.dtype, (lambda a: lambda i: x.el(i[:ax] + (i[ax] + a,) + i[ax + 1:]))(a)))
    return out


def tile(x, reps):
    x = asarray(x)
    if isinstance(reps, (int, SInt)):
        reps = (reps,)
    reps = tuple(reps)
    n = max(x.ndim, len(reps))
    reps = (1,) * (n - len(reps)) + reps
    if x.ndim < n:
        x = expand_dims(x, tuple(range(n - x.ndim)))
    shape = tuple(mk_int(dim_e(d) * dim_e(r)) for d, r in zip(x.shape, reps))

    def f(i):
        j = []
        for p, d, r in zip(i, x.shape, reps):
            if isinstance(r, int) and r == 1:
                j.append(p)
            else:
                j.append(X.int_mod(p, dim_e(d)))
        return x.el(tuple(j))
    return SArr(shape, x.dtype, f)


def roll(x, shift, axis=None):
    x = asarray(x)
    if axis is None:
        raise Unsupported("roll without axis")
    axes = (axis,) if isinstance(axis, int) else tuple(axis)
    shifts = (shift,) if not isinstance(shift, (tuple, list)) else tuple(shift)
    axes = [norm_axis(a, x.ndim) for a in axes]

    def f(i):
        j = list(i)
        for a, s in zip(axes, shifts):
            n = dim_e(x.shape[a])
            p = j[a] - dim_e(s)
            j[a] = wrap_mod(p, n)
        return x.el(tuple(j))
    return SArr(x.shape, x.dtype, f)


def wrap_mod(p, n):
    """p mod n for -n <= p < 2n."""
    if X.decide_ge(p) and X.decide_ge(n - 1 - p):
        return p
    if X.decide_ge(p + n) and X.decide_ge(n.scale(2) - 1 - p):
        lo = ONE - X.ind_ge(p)
        hi = X.ind_ge(p - n)
        return p + lo * n - hi * n
    return X.int_mod(p, n)


def pad(x, pad_width, mode="constant", constant_values=0):
    x = asarray(x)
    n = x.ndim
    pw = pad_width
    if isinstance(pw, (int, SInt)):
        pw = ((pw, pw),) * n
    pw = [tuple(p) if not isinstance(p, (int, SInt)) else (p, p) for p in pw]
    if len(pw) == 1:
        pw = pw * n
    if len(pw) != n:
        raise ValueError("pad_width must have one entry per axis")
    shape = tuple(mk_int(dim_e(d) + dim_e(a) + dim_e(b)) for d, (a, b) in zip(x.shape, pw))
    cv = scalar_e(constant_values) if not isinstance(constant_values, SArr) else constant_values.to_e()
    zero = [isinstance(a, int) and a == 0 and isinstance(b, int) and b == 0 for a, b in pw]
    if mode in ("edge", "wrap"):
        for d, z, (a, b) in zip(x.shape, zero, pw):
            if not z and branch(X.ind_eq(dim_e(d))) and branch(X.ind_ge(dim_e(a) + dim_e(b) - 1)):
                raise ValueError("jnp.pad with mode='edge' or 'wrap' cannot pad an empty axis")

    def f(i):
        j = []
        inside = ONE
        for p, d, (a, b), z in zip(i, x.shape, pw, zero):
            if z:
                j.append(p)
                continue
            q = p - dim_e(a)
            de = dim_e(d)
            lo = ONE - X.ind_ge(q)          # left of the array
            hi = X.ind_ge(q - de)           # right
            if mode == "edge":
                j.append((ONE - lo) * (ONE - hi) * q + hi * (de - 1))
            elif mode == "wrap":
                j.append(X.int_mod(q, de) if not (X.decide_ge(q + de) and X.decide_ge(de.scale(2) - 1 - q)) else q + lo * de - hi * de)
            elif mode == "constant":
                inside = inside * (ONE - lo) * (ONE - hi)
                j.append(q)
            else:
                raise Unsupported(f"pad mode {mode}")
        if mode == "constant":
            c = inside.const()
            if c == 0:
                return cv
            v = x.el(tuple(j))
            return inside * v + (ONE - inside) * cv
        return x.el(tuple(j))
    return SArr(shape, x.dtype, f)


# ----------------------------------------------------------------------------------------------------------
# reductions
# ----------------------------------------------------------------------------------------------------------
def _reduce_setup(x, axis, keepdims):
    x = asarray(x)
    axes = norm_axes(axis, x.ndim)
    shape = []
    for k, d in enumerate(x.shape):
        if k in axes:
            if keepdims:
                shape.append(1)
        else:
            shape.append(d)

    def full_index(i, red):
        j = []
        it = iter(i)
        rk = iter(red)
        for k in range(x.ndim):
            if k in axes:
                if keepdims:
                    next(it)
                j.append(next(rk))
            else:
                j.append(next(it))
        return tuple(j)
    return x, axes, tuple(shape), full_index


def sum_(x, axis=None, keepdims=False):
    x, axes, shape, fi = _reduce_setup(x, axis, keepdims)

    def f(i):
        vs = []
        red = []
        for a in axes:
            d = x.shape[a]
            if isinstance(d, int) and d == 1:
                red.append(ZERO)
            else:
                v = X.fresh(dim_e(d))
                vs.append(v)
                red.append(atom(v))
        # small constant axes are summed explicitly (cheaper, and keeps `pick` simple)
        e = None
        consts = [(k, x.shape[a]) for k, a in enumerate(axes) if isinstance(x.shape[a], int) and 1 < x.shape[a] <= 8]
        if consts:
            tot = ZERO
            for combo in itertools.product(*[range(n) for _, n in consts]):
                r2 = list(red)
                for (k, _), c in zip(consts, combo):
                    r2[k] = num(c)
                tot = tot + x.el(fi(i, r2))
            e = tot
            used = {k for k, _ in consts}
            rest = [r for k, r in enumerate(red) if k not in used]
            vs = [v for v in vs if any(v in r.fv for r in rest)]
        else:
            e = x.el(fi(i, red))
        for v in vs:
            e = X.sum_over(e, v)
        return e
    dt = x.dtype if x.dtype.kind != "b" else I64
    return SArr(shape, dt, f)


def mean(x, axis=None, keepdims=False):
    x = asarray(x)
    axes = norm_axes(axis, x.ndim)
    n = ONE
    for a in axes:
        n = n * dim_e(x.shape[a])
    r = sum_(x, axis, keepdims)
    return elementwise([r], lambda e: e * X.recip(n), lambda d: d if d.kind in "fc" else F64)


def prod(x, axis=None, keepdims=False):
    x, axes, shape, fi = _reduce_setup(x, axis, keepdims)
    dims = [x.shape[a] for a in axes]
    if not all(isinstance(d, int) for d in dims):
        raise Unsupported("prod over a symbolic axis")

    def f(i):
        t = ONE
        for c in itertools.product(*[range(d) for d in dims]):
            t = t * x.el(fi(i, [num(k) for k in c]))
        return t
    return SArr(shape, x.dtype, f)


def canon_vars(dims):
    return [Xvar(k, d) for k, d in enumerate(dims)]


def Xvar(k, d):
    return X.Var(f"%{k}", 0, dim_e(d))


def generic(x):
    """Element of x at canonical generic indices."""
    return x.el(tuple(ZERO if (isinstance(d, int) and d == 1) else atom(Xvar(k, d)) for k, d in enumerate(x.shape)))


def hash_cons_reduction(opname, x, axes, fi, oshape, kind, mk):
    """Opaque reduction keyed on the canonical generic body. Returns a function of the output index."""
    red = []
    rvars = []
    for n, a in enumerate(axes):
        d = x.shape[a]
        if isinstance(d, int) and d == 1:
            red.append(ZERO)
        else:
            v = X.Var(f"%r{n}", 0, dim_e(d))
            rvars.append(v)
            red.append(atom(v))
    fvars = [X.Var(f"%o{len(oshape) - k}", 0, dim_e(d)) for k, d in enumerate(oshape)]
    oidx = tuple(ZERO if (isinstance(d, int) and d == 1) else atom(v) for v, d in zip(fvars, oshape))
    e = x.el(fi(oidx, red))
    deps = [k for k, v in enumerate(fvars) if v in e.fv]
    free = [X.Var(f"%f{len(deps) - n}", 0, fvars[k].hi) for n, k in enumerate(deps)]
    mp = {fvars[k]: atom(c) for k, c in zip(deps, free)}
    extra = sorted((v for v in e.fv if v.hi is not None and v not in fvars and v not in rvars), key=lambda v: v.uid)
    for n, v in enumerate(extra):
        c = X.Var(f"%x{n}", 0, v.hi)
        mp[v] = atom(c)
        free.append(c)
        deps.append(v)
    e = X.rename(e, mp) if mp else e
    make = reduce_e(opname, e, rvars, free, kind, mk)
    return lambda idx: make(dep_args(deps, idx))


_red_info: dict = {}


def reduce_e(opname, e, rvars, free, kind, mk):
    name = f"{opname}#{e.uid}#{','.join(str(v.uid) for v in rvars)}"
    info = _red_info.get(name)
    if info is None:
        info = _red_info[name] = dict(body=e, rvars=rvars, free=free, op=opname)
    return lambda args: mk(name, info, args)


def _mk_amax(kind):
    def mk(name, info, args):
        if not any(v in info["body"].fv for v in info["rvars"]):
            return X.subst(info["body"], dict(zip(info["free"], args))) if info["free"] else info["body"]
        sign = "0+" if X.is_nonneg(info["body"]) else None
        return X.app_e(X.arrsym(name, kind, sign, None, {"red": info, "eval": lambda a: special(info, a, mk)}), args)

    def special(info, args, mk):
        """Maxima at constant output indices are maxima of the specialised body (x.max(0)[k] is x[:, k].max())."""
        free = info["free"]
        if len(args) != len(free) or not any(a.int_const() is not None for a in args):
            return None
        keep = [(v, a) for v, a in zip(free, args) if a.int_const() is None]
        if any(w in v.hi.fv for v, _ in keep for w in free):
            return None
        new = [X.Var(f"%f{len(keep) - n}", 0, v.hi) for n, (v, _) in enumerate(keep)]
        mp = {v: a for v, a in zip(free, args) if a.int_const() is not None}
        body = X.subst(info["body"], mp)
        tmp = {v: X.fresh(v.hi) for v, _ in keep}
        body = X.subst(body, {v: atom(w) for v, w in tmp.items()})
        body = X.subst(body, {w: atom(c) for w, c in zip(tmp.values(), new)})
        return reduce_e("amax", body, info["rvars"], new, kind, mk)(tuple(a for _, a in keep))
    return mk


def amax(x, axis=None, keepdims=False, initial=None):
    x, axes, shape, fi = _reduce_setup(x, axis, keepdims)
    dims = [x.shape[a] for a in axes]
    if all(isinstance(d, int) for d in dims) and size_e(dims).int_const() <= 4:
        def f(i):
            vals = [x.el(fi(i, [num(k) for k in c])) for c in itertools.product(*[range(d) for d in dims])]
            r = const_e(vals[0])
            for v in vals[1:]:
                r = maximum(r, const_e(v))
            return r.el(())
        return SArr(shape, x.dtype, f)
    kind = {"i": "i", "f": "r", "b": "b"}.get(x.dtype.kind)
    if kind is None:
        raise Unsupported("amax of complex")

    h = []

    def g(i):
        if not h:
            h.append(hash_cons_reduction("amax", x, axes, fi, shape, kind, _mk_amax(kind)))
        return h[0](i)
    return SArr(shape, x.dtype, g)


def const_e(e, dt=F64):
    return SArr((), dt, lambda i: e)


def amax_e(body, rvars, kind="i"):
    """Build the hash-consed amax symbol for body over rvars (used by contract preconditions)."""
    return reduce_e("amax", body, rvars, [], kind, _mk_amax(kind))(())


def all_(x, axis=None, keepdims=False):
    x = asarray(x)
    if x.dtype.kind != "b":
        x = x != 0
    x, axes, shape, fi = _reduce_setup(x, axis, keepdims)
    dims = [x.shape[a] for a in axes]
    if all(isinstance(d, int) for d in dims) and size_e(dims).int_const() <= 64:
        def f(i):
            t = ONE
            for c in itertools.product(*[range(d) for d in dims]):
                t = t * x.el(fi(i, [num(k) for k in c]))
            return t
        return SArr(shape, BOOL, f)

    def mk(name, info, args):
        b = info["body"]
        if b.const() == 1:
            return ONE
        sym = X.arrsym(name, "b", None, None, {"red": info})
        return X.app_e(sym, args)
    h = []

    def g(i):
        if not h:
            h.append(hash_cons_reduction("all", x, axes, fi, shape, "b", mk))
        return h[0](i)
    return SArr(shape, BOOL, g)


# ----------------------------------------------------------------------------------------------------------
# indexing
# ----------------------------------------------------------------------------------------------------------
def _is_adv(k):
    return isinstance(k, (SArr, list)) or (hasattr(k, "dtype") and hasattr(k, "shape") and not isinstance(k, SArr) and getattr(k, "shape", ()) != ())


def norm_key(x, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = [asarray(k) if isinstance(k, (list,)) or (hasattr(k, "tolist") and not isinstance(k, (SArr, SInt))) else k for k in key]
    key = [asarray(k) if isinstance(k, range) else k for k in key]
    nell = sum(1 for k in key if k is Ellipsis)
    if nell > 1:
        raise IndexError("an index can only have a single ellipsis")
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SArr) and k.dtype.kind == "b":
            used += k.ndim
        else:
            used += 1
    if used > x.ndim:
        raise IndexError(f"Too many indices for array: {used} for {x.ndim} dims")
    fill = [slice(None)] * (x.ndim - used)
    if nell:
        p = [n for n, k in enumerate(key) if k is Ellipsis][0]
        key = key[:p] + fill + key[p + 1:]
    else:
        key = key + fill
    return key


def slice_params(s, d):
    """(start, step, length) of a slice on dim d (expressions)."""
    de = dim_e(d)
    st = 1 if s.step is None else s.step
    if isinstance(st, SInt):
        raise Unsupported("symbolic slice step")
    if st not in (1, -1) and not (isinstance(d, int) or st > 0):
        raise Unsupported("slice step")

    def nb(v, default):
        if v is None:
            return default
        ve = dim_e(v)
        c = ve.int_const()
        if c is not None:
            if c < 0:
                r = de + c
                if X.decide_ge(r):
                    return r
                if branch(X.ind_ge(r)):
                    return r
                return ZERO
        else:
            if not X.decide_ge(ve):
                if not branch(X.ind_ge(ve)):
                    r = de + ve
                    if branch(X.ind_ge(r)):
                        return r
                    return ZERO
        r = de - ve
        if X.decide_ge(r) or branch(X.ind_ge(r)):
            return ve
        return de
    if st == 1:
        a = nb(s.start, ZERO)
        b = nb(s.stop, de)
        n = b - a
        if not (X.decide_ge(n) or branch(X.ind_ge(n))):
            n = ZERO
        return a, 1, n
    if isinstance(d, int) and all(v is None or isinstance(v, int) for v in (s.start, s.stop)):
        a, b, c = s.indices(d)
        return num(a), c, num(len(range(a, b, c)))
    if st == -1 and s.start is None and s.stop is None:
        return de - 1, -1, de
    if st > 1 and s.stop is None:
        a = nb(s.start, ZERO)
        n = X.int_div(de - a + (st - 1), num(st))
        return a, st, n
    raise Unsupported("slice")


UNDEF_OOB = X._mk("F", "undef", (num(7),), "c")


def norm_index(p, d, check=True):
    """Normalise an index expression p (python semantics: negative wraps) for a dim d -> (expr, inrange E)."""
    de = dim_e(d)
    c = p.int_const()
    if c is not None and isinstance(d, int):
        if not -d <= c < d:
            return num(0), ZERO
        return num(c % d), ONE
    if not X.decide_ge(p):
        if X.decide_ge(-p - 1):
            p = p + de
        else:
            p = p + (ONE - X.ind_ge(p)) * de
    inr = ONE
    if not (X.decide_ge(p) and X.decide_ge(de - 1 - p)):
        inr = X.ind_ge(p) * X.ind_ge(de - 1 - p)
    return p, inr


@gather_op
def getitem(x, key):
    key = norm_key(x, key)
    if any(isinstance(k, SArr) and k.dtype.kind == "b" for k in key):
        return mask_getitem(x, key)
    # convert int-array scalars
    adv = [k for k in key if isinstance(k, SArr) and k.ndim > 0]
    scal_arr = [k for k in key if isinstance(k, SArr) and k.ndim == 0]
    has_adv = bool(adv) or bool(scal_arr)
    plan = []  # per input dim: function(outidx) -> E ; building out shape
    out_shape = []
    if has_adv:
        ints_as_adv = True
        bshape = broadcast_shapes(*[k.shape for k in key if isinstance(k, SArr)])
    else:
        ints_as_adv = False
        bshape = ()
    # position of the advanced block
    pos = []
    for n, k in enumerate(key):
        if isinstance(k, SArr) or (ints_as_adv and isinstance(k, (int, SInt)) and not isinstance(k, bool)):
            pos.append(n)
    contiguous = bool(pos) and pos == list(range(pos[0], pos[-1] + 1))
    items = []
    dim = 0
    inserted = False
    layout = []  # list of ('new',), ('slice', dim, a, st), ('adv',)
    for n, k in enumerate(key):
        if k is None:
            layout.append(("new",))
        elif isinstance(k, slice):
            a, st, ln = slice_params(k, x.shape[dim])
            layout.append(("slice", dim, a, st, ln))
            dim += 1
        elif isinstance(k, SArr) or isinstance(k, (int, SInt)):
            if isinstance(k, bool):
                raise Unsupported("bool index")
            if isinstance(k, SArr) and k.dtype.kind != "i":
                raise TypeError("Indexer must have integer or boolean type")
            if has_adv and contiguous and not inserted:
                layout.append(("adv",))
                inserted = True
            items.append((dim, k))
            dim += 1
        else:
            raise Unsupported(f"index {k!r}")
    if has_adv and not contiguous:
        layout = [("adv",)] + layout
    nb = len(bshape)
    for l in layout:
        if l[0] == "new":
            out_shape.append(1)
        elif l[0] == "slice":
            out_shape.append(mk_int(l[4]))
        else:
            out_shape.extend(bshape)
    # static out of bounds check for python ints (jax clamps, numpy raises; treat as IndexError)
    for d, k in items:
        if isinstance(k, int) and isinstance(x.shape[d], int) and not -x.shape[d] <= k < x.shape[d]:
            raise IndexError(f"index {k} is out of bounds for axis {d} with size {x.shape[d]}")
    fitted = [(d, _fit(k, bshape) if isinstance(k, SArr) else k) for d, k in items]

    def f(i):
        j = [None] * x.ndim
        p = 0
        bi = ()
        for l in layout:
            if l[0] == "new":
                p += 1
            elif l[0] == "slice":
                j[l[1]] = l[2] + i[p] if l[3] == 1 else l[2] + i[p].scale(l[3])
                p += 1
            else:
                bi = i[p:p + nb]
                p += nb
        inr = ONE
        for d, k in fitted:
            if isinstance(k, SArr):
                q = k.el(bidx(k, bi))
            else:
                q = dim_e(k)
            q, r = norm_index(q, x.shape[d])
            inr = inr * r
            j[d] = q
        if not inr.t:
            return atom(UNDEF_OOB)
        v = x.el(tuple(j))
        if inr.const() == 1:
            return v
        return inr * v + (ONE - inr) * atom(UNDEF_OOB)
    return SArr(tuple(out_shape), x.dtype, f)


_sel_counter = itertools.count()


def mask_getitem(x, key):
    """x[mask] for a single 1-D boolean mask: an injective, order-preserving, surjective enumeration of the mask."""
    bk = [(n, k) for n, k in enumerate(key) if isinstance(k, SArr) and k.dtype.kind == "b"]
    if len(bk) != 1 or bk[0][1].ndim != 1 or any(isinstance(k, (SArr, int, SInt)) for n, k in enumerate(key) if n != bk[0][0]) or any(k is None for k in key):
        raise Unsupported("boolean mask indexing")
    n, m = bk[0]
    if not dims_equal(m.shape[0], x.shape[n]):
        raise IndexError("boolean index shape mismatch")
    idxarr = nonzero1(m)
    return getitem(x, tuple(key[:n]) + (idxarr,) + tuple(key[n + 1:]))


_busy = []


@contextlib.contextmanager
def no_facts():
    """No mask facts about enumerations while evaluating elements (avoids unbounded recursion)."""
    _busy.append(1)
    try:
        yield
    finally:
        _busy.pop()


def nonzero1(m):
    """Positions of True in a 1-D mask, as an opaque enumeration keyed on the mask's content."""
    g = generic(m)
    d = dim_e(m.shape[0])
    name = f"sel#{g.uid}#{d.uid}"
    cnt = X.Var(f"count#{g.uid}#{d.uid}", 0, None)
    sym = X.arrsym(name, "i")
    if sym.info is None:
        sym.info = dict(sel=m, hi=d, count=cnt)

        def facts(args, a):
            i = atom(a)
            out = [("ge", i), ("ge", d - 1 - i)]
            if _busy:
                return out
            with no_facts():
                v = m.el((i,))
            if v.const() is None:
                out.append(("true", v))
            return out
        sym.facts = facts
    return SArr((mk_int(atom(cnt)),), I64, lambda i: X.app_e(sym, i))


class _At:
    def __init__(self, x):
        self.x = x

    def __getitem__(self, key):
        return _AtIdx(self.x, key)


class _AtIdx:
    def __init__(self, x, key):
        self.x, self.key = x, key

    def set(self, v, **kw):
        return setitem(self.x, self.key, v)

    def add(self, v, **kw):
        return setitem(self.x, self.key, v, "add")

    def multiply(self, v, **kw):
        return setitem(self.x, self.key, v, "mul")

    mul = multiply

    def get(self, **kw):
        return self.x[self.key]

    def divide(self, v, **kw):
        return setitem(self.x, self.key, 1 / asarray(v), "mul")


def _unflatten_key(key, bshape, v):
    """Index arrays that are all flattenings of arrays of one shape are used unflattened."""
    adv = [k for k in key if isinstance(k, SArr)]
    if len(bshape) != 1 or v.ndim < 1 or not adv or any(getattr(k, "flat_of", None) is None for k in adv):
        return key, bshape, v
    src = adv[0].flat_of.shape
    if any(k.flat_of.ndim != len(src) or not all(dims_equal(p, q) for p, q in zip(k.flat_of.shape, src)) for k in adv[1:]):
        return key, bshape, v
    n = len(key)
    last = isinstance(key[-1], SArr)
    if not last or any(isinstance(k, SArr) for k in key[: n - len(adv)]) or dim_e(v.shape[-1]).uid != dim_e(bshape[0]).uid:
        return key, bshape, v
    v = reshape(v, tuple(v.shape[:-1]) + tuple(src))
    return [k.flat_of if isinstance(k, SArr) else k for k in key], src, v


def setitem(x, key, v, mode="set"):
    v = asarray(v)
    key = norm_key(x, key)
    if any(k is None for k in key):
        raise Unsupported("newaxis in scatter")
    if len(key) == 1 and isinstance(key[0], SArr) and key[0].dtype.kind == "b":
        m = key[0]
        if v.ndim:
            raise Unsupported("masked scatter")
        if mode == "set":
            return where(m, v.astype(x.dtype), x)
        raise Unsupported("masked scatter")
    if any(isinstance(k, SArr) and k.dtype.kind == "b" for k in key):
        raise Unsupported("masked scatter")
    has_adv = any(isinstance(k, SArr) for k in key)
    bshape = broadcast_shapes(*[k.shape for k in key if isinstance(k, SArr)]) if has_adv else ()
    key, bshape, v = _unflatten_key(key, bshape, v)
    pos = [n for n, k in enumerate(key) if isinstance(k, SArr) or (has_adv and isinstance(k, (int, SInt)))]
    contiguous = bool(pos) and pos == list(range(pos[0], pos[-1] + 1))
    layout = []
    inserted = False
    for n, k in enumerate(key):
        if isinstance(k, slice):
            a, st, ln = slice_params(k, x.shape[n])
            layout.append(("slice", n, a, st, ln))
        elif isinstance(k, (SArr, int, SInt)):
            if has_adv and contiguous and not inserted:
                layout.append(("adv",))
                inserted = True
        else:
            raise Unsupported("scatter index")
    if has_adv and not contiguous:
        layout = [("adv",)] + layout
    upd_shape = []
    for l in layout:
        if l[0] == "slice":
            upd_shape.append(mk_int(l[4]))
        else:
            upd_shape.extend(bshape)
    vb = broadcast_to(v, tuple(upd_shape))
    arrs = [(n, _fit(k, bshape) if isinstance(k, SArr) else k) for n, k in enumerate(key) if isinstance(k, (SArr, int, SInt))]
    nb = len(bshape)
    # index distinctness for advanced indices
    if has_adv:
        u = [X.fresh(dim_e(d)) for d in bshape]
        w = [X.fresh(dim_e(d)) for d in bshape]
        prod_ = ONE
        for n, k in arrs:
            if isinstance(k, SArr):
                a = k.el(bidx(k, tuple(map(atom, u))))
                b = k.el(bidx(k, tuple(map(atom, w))))
                prod_ = prod_ * (X.ind_eq(a - b) if in_range(a, dim_e(x.shape[n])) else hit(a - b, dim_e(x.shape[n])))
        same = ONE
        for a, b, d in zip(u, w, bshape):
            if dim_e(d).int_const() != 1:
                same = same * X.ind_eq(atom(a) - atom(b))
        if mode != "add" and not (prod_ - same).is_zero():
            raise Unsupported("scatter with possibly repeated indices")

    def f(i):
        upd = [None] * len(upd_shape)
        p = 0
        c = ONE
        bpos = None
        for l in layout:
            if l[0] == "slice":
                _, n, a, st, ln = l
                if st != 1:
                    if st == -1:
                        q = a - i[n]
                    else:
                        raise Unsupported("scatter slice step")
                else:
                    q = i[n] - a
                upd[p] = q
                c = c * X.ind_ge(q) * X.ind_ge(ln - 1 - q)
                p += 1
            else:
                bpos = p
                p += nb
        vs = [X.fresh(dim_e(d)) for d in bshape]
        for t, vv in enumerate(vs):
            upd[bpos + t] = atom(vv)
        dlt = ONE
        for n, k in arrs:
            q = k.el(bidx(k, tuple(map(atom, vs)))) if isinstance(k, SArr) else dim_e(k)
            if not isinstance(k, SArr):
                q, inr = norm_index(q, x.shape[n])
                dlt = dlt * X.ind_eq(i[n] - q) * inr
                continue
            de = dim_e(x.shape[n])
            if in_range(q, de):
                dlt = dlt * X.ind_eq(i[n] - q)
                continue
            if not (X.decide_ge(q + de) and X.decide_ge(de - 1 - q)):
                raise Unsupported("scatter index not provably in range")
            dlt = dlt * hit(i[n] - q, de)
        base = x.el(i)
        if not c.t:
            return base
        val = vb.el(tuple(upd))
        new = dlt * val
        h = dlt
        for vv in vs:
            new = X.sum_over(new, vv)
            h = X.sum_over(h, vv)
        new = new * c
        h = h * c
        if mode == "add":
            return base + new
        if mode == "mul":
            return base * (ONE - h) + base * new
        if not base.t:
            return new
        return base * (ONE - h) + new
    dt = x.dtype
    return SArr(x.shape, dt, f)


def _scalar_const(v):
    return v.ndim == 0 and v.el(()).const() is not None


def in_range(q, n):
    """0 <= q < n (wrapping of negative indices not needed); False if not provable."""
    return X.decide_ge(q) and X.decide_ge(n - 1 - q)


def hit(g, n):
    """[g == 0 (mod n)] for |g| < 2n."""
    return X.ind("mod0", g, n)


# ----------------------------------------------------------------------------------------------------------
# linear algebra
# ----------------------------------------------------------------------------------------------------------
def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul of 0-d array")
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        a = expand_dims(a, 0)
    if vb:
        b = expand_dims(b, 1)
    ka, kb = a.shape[-1], b.shape[-2]
    if not dims_equal(ka, kb):
        raise ShapeError(f"dot_general requires contracting dimensions to have the same shape, got {a.shape} and {b.shape}")
    batch = broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = _fit(a, batch + a.shape[-2:])
    b = _fit(b, batch + b.shape[-2:])
    na, nb = a.ndim - 2, b.ndim - 2
    dt, _ = result_dtype([a, b])
    K = dim_e(ka)
    kc = K.int_const()

    def f(i):
        bi = i[:-2]
        ia = bidx2(bi, a.shape[:-2])
        ib = bidx2(bi, b.shape[:-2])
        if kc is not None and kc <= 6:
            t = ZERO
            for k in range(kc):
                t = t + a.el(ia + (i[-2], num(k))) * b.el(ib + (num(k), i[-1]))
            return t
        v = X.fresh(K)
        return X.sum_over(a.el(ia + (i[-2], atom(v))) * b.el(ib + (atom(v), i[-1])), v)
    r = SArr(batch + (a.shape[-2], b.shape[-1]), dt, f)
    if not va and not vb and kc is None:
        r._nc = _memo_nc(lambda bi: a.nc(bidx2(bi, a.shape[:-2])) * b.nc(bidx2(bi, b.shape[:-2])))
        cat_matmul(r, a, b)
    if va and vb:
        return r.reshape(batch)
    if va:
        return squeeze(r, -2)
    if vb:
        return squeeze(r, -1)
    return r


def bidx2(bi, shape):
    n = len(shape)
    bi = bi[len(bi) - n:]
    return tuple(ZERO if (isinstance(d, int) and d == 1) else i for i, d in zip(bi, shape))


class Hyps:
    """Definitional hypotheses about opaque linear-algebra results (inverse, eigen-decomposition)."""

    def __init__(self):
        self.inv = {}   # name -> dict(sym, A(fn of batch idx, i, j), n, deps)
        self.eig = {}

    def clear(self):
        self.inv.clear()
        self.eig.clear()


HYPS = Hyps()


def _mat_generic(a):
    """Generic element of a (batch of) square matrix and the batch axes it depends on."""
    n = a.shape[-1]
    if not dims_equal(a.shape[-2], n):
        raise ValueError(f"matrix must be square, got {a.shape}")
    bvars = [X.Var(f"%b{a.ndim - 2 - k}", 0, dim_e(d)) for k, d in enumerate(a.shape[:-2])]
    i = X.Var("%i", 0, dim_e(n))
    j = X.Var("%j", 0, dim_e(n))
    e = a.el(tuple(ZERO if (isinstance(d, int) and d == 1) else atom(v) for v, d in zip(bvars, a.shape[:-2])) + (atom(i), atom(j)))
    deps = [k for k, v in enumerate(bvars) if v in e.fv]
    # canonical batch variables: rename by order among dependencies so that different ranks share symbols
    cvars = [X.Var(f"%d{len(deps) - n_}", 0, bvars[k].hi) for n_, k in enumerate(deps)]
    mp = {bvars[k]: atom(c) for k, c in zip(deps, cvars)}
    # index variables of an enclosing map (vmap) are further arguments of the result
    extra = sorted((v for v in e.fv if v.hi is not None and v not in bvars and v is not i and v is not j), key=lambda v: v.uid)
    for n_, v in enumerate(extra):
        c = X.Var(f"%x{n_}", 0, v.hi)
        mp[v] = atom(c)
        cvars.append(c)
        deps.append(v)
    e = X.rename(e, mp) if mp else e
    return e, deps, cvars, i, j, n


def dep_args(deps, idx):
    return tuple(idx[k] if isinstance(k, int) else atom(k) for k in deps)


def diag_form(e, i, j):
    """If e == [i==j]*d(i) return d else None."""
    d = X.ind_eq(atom(i) - atom(j))
    for m in e.t:
        if not any(a.key[0] == "I" and a.name == "eq" and atom_same(a, d) for a, p in m.fac):
            return None
    (dm,) = d.t
    datom = dm.fac[0][0]
    r = X.set_ind(e, datom, 1)
    # normalise: use variable i
    return X.subst(r, {j: atom(i)})


def atom_same(a, d):
    (dm,) = d.t
    return dm.fac[0][0] is a


def inv(a):
    a = asarray(a)
    if a.ndim < 2:
        raise ValueError("inv requires at least 2 dims")
    n = a.shape[-1]
    if not dims_equal(a.shape[-2], n):
        raise ValueError("Argument to inv must be square")
    dt = a.dtype if a.dtype.kind in "fc" else F64
    if isinstance(n, int) and n <= 3:
        return _small_inv(a, n, dt)
    state = []

    def prepare():
        e, deps, cvars, i, j, _ = _mat_generic(a)
        d = diag_form(e, i, j) if e.t else None
        sym = None
        back = _inverse_of(e, deps, cvars, i, j) if d is None else None
        if back is not None:
            state.append((None, deps, cvars, i, back))
            return
        if d is None:
            name = f"inv#{e.uid}#{dim_e(n).uid}"
            sym = X.arrsym(name, "c" if a.dtype.kind == "c" else "r", info={"lin": "inv"})
            if name not in HYPS.inv:
                HYPS.inv[name] = dict(sym=sym, e=e, cvars=cvars, i=i, j=j, n=dim_e(n))
        state.append((d, deps, cvars, i, sym))

    def f(idx):
        if not state:
            prepare()
        d, deps, cvars, i, sym = state[0]
        if callable(sym):
            return sym(idx)
        if d is None:
            return X.app_e(sym, dep_args(deps, idx) + tuple(idx[-2:]))
        delta = X.ind_eq(idx[-2] - idx[-1])
        if not delta.t:
            return ZERO
        mp = dict(zip(cvars, dep_args(deps, idx)))
        mp[i] = idx[-2]
        return delta * X.recip(X.subst(d, mp))
    r = SArr(a.shape, dt, f)
    r._nc = _memo_nc(lambda b: NC.inverse(a.nc(b)))
    return r


def linear_operator(name, x, n):
    """An arbitrary linear map from the last two axes of x to n x n matrices that maps 1 to the identity."""
    x = asarray(x)
    if x.ndim < 2:
        raise ValueError("linear operator requires at least 2 dims")
    pix = [X.Var(f"%pix{c}", 0, dim_e(d)) for c, d in enumerate(x.shape[-2:])]
    pidx = tuple(ZERO if (isinstance(d, int) and d == 1) else atom(v) for v, d in zip(pix, x.shape[-2:]))
    grid = "-".join(str(dim_e(d).uid) for d in x.shape[-2:])
    lead = x.shape[:-2]
    n = mk_int(dim_e(n))
    terms = []

    def prepare():
        bvars = [X.Var(f"%b{len(lead) - k}", 0, dim_e(d)) for k, d in enumerate(lead)]
        e = x.el(tuple(ZERO if (isinstance(d, int) and d == 1) else atom(v) for v, d in zip(bvars, lead)) + pidx)
        for m, c in e.t.items():
            one = E({m: c})
            if not any(v in one.fv for v in pix):
                terms.append((bvars, one, None, None))
                continue
            coef, body = E({X.ONE_M: c}), E({m: 1})
            if not m.bv and m.ex is None:
                out = {a: p for a, p in m.fac if not any(v in a.fv for v in pix)}
                if out:
                    coef = coef * X.build([], dict(out), None)
                    body = X.build([], {a: p for a, p in m.fac if a not in out}, None)
            deps = [k for k, v in enumerate(bvars) if v in body.fv]
            cvars = [X.Var(f"%d{len(deps) - k}", 0, bvars[q].hi) for k, q in enumerate(deps)]
            body = X.rename(body, {bvars[q]: atom(v) for q, v in zip(deps, cvars)}) if deps else body
            terms.append((bvars, coef, X.arrsym(f"{name}#{grid}#{body.uid}", "c"), deps))

    def f(idx):
        if not terms:
            prepare()
        out = ZERO
        for bvars, coef, sym, deps in terms:
            c = X.subst(coef, dict(zip(bvars, idx[:-2]))) if bvars else coef
            out = out + c * (X.ind_eq(idx[-2] - idx[-1]) if sym is None else X.app_e(sym, tuple(idx[k] for k in deps) + tuple(idx[-2:])))
        return out
    return SArr(tuple(lead) + (n, n), C128, f)


def _inverse_of(e, deps, cvars, i, j):
    """If e is element (i, j) of inv(M): the elements of M."""
    if len(e.t) != 1:
        return None
    ((m, c),) = e.t.items()
    if c != 1 or len(m.fac) != 1 or m.fac[0][1] != 1:
        return None
    a = m.fac[0][0]
    h = HYPS.inv.get(a.name) if a.key[0] == "A" else None
    if h is None or not a.args[-2].same(atom(i)) or not a.args[-1].same(atom(j)):
        return None
    outer = a.args[:-2]
    if any(i in x.fv or j in x.fv for x in outer):
        return None

    def f(idx):
        mp = dict(zip(cvars, dep_args(deps, idx)))
        at = {v: X.subst(x, mp) for v, x in zip(h["cvars"], outer)}
        at[h["i"]], at[h["j"]] = idx[-2], idx[-1]
        return X.subst(h["e"], at)
    return f


def _small_inv(a, n, dt):
    if n == 1:
        return SArr(a.shape, dt, lambda i: X.recip(a.el(i)))
    d = det(a)
    if n == 2:
        def f(i):
            b = i[:-2]
            r = X.recip(d.el(b))
            def comp(p, q):
                s = 1 if p == q else -1
                return a.el(b + (num(1 - q), num(1 - p))).scale(s) * r
            return pick(i[-2], [0, 1], lambda _, p: pick(i[-1], [0, 1], lambda _, q: comp(p, q)))
        return SArr(a.shape, dt, f)

    def f3(i):
        b = i[:-2]
        r = X.recip(d.el(b))

        def comp(p, q):
            rows = [t for t in range(3) if t != q]
            cols = [t for t in range(3) if t != p]
            m = (a.el(b + (num(rows[0]), num(cols[0]))) * a.el(b + (num(rows[1]), num(cols[1])))
                 - a.el(b + (num(rows[0]), num(cols[1]))) * a.el(b + (num(rows[1]), num(cols[0]))))
            return m.scale(1 if (p + q) % 2 == 0 else -1) * r
        return pick(i[-2], [0, 1, 2], lambda _, p: pick(i[-1], [0, 1, 2], lambda _, q: comp(p, q)))
    return SArr(a.shape, dt, f3)


def det(a):
    a = asarray(a)
    n = a.shape[-1]
    if not isinstance(n, int) or n > 3 or a.shape[-2] != n:
        raise Unsupported("det of symbolic size")

    def f(b):
        g = lambda p, q: a.el(b + (num(p), num(q)))
        if n == 1:
            return g(0, 0)
        if n == 2:
            return g(0, 0) * g(1, 1) - g(0, 1) * g(1, 0)
        return (g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0))
                + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0)))
    return SArr(a.shape[:-2], a.dtype, f)


def solve(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim < 2 or not dims_equal(a.shape[-1], a.shape[-2]):
        raise ValueError("The arguments to solve must have shapes a=[..., m, m] and b=[..., m, k] or b=[..., m]")
    if b.ndim == 1 or a.ndim == b.ndim + 1:
        # jax: b is a batch of vectors when it has one dimension fewer than a
        return squeeze(matmul(inv(a), expand_dims(b, -1)), -1)
    if not dims_equal(b.shape[-2], a.shape[-1]):
        raise ValueError(f"solve: incompatible shapes {a.shape} {b.shape}")
    r = matmul(inv(a), b)
    dt = promote(a.dtype, b.dtype)
    o = SArr(r.shape, dt if dt.kind in "fc" else F64, r.el)
    o._nc = r._nc
    return cat_solve(o, a, b)


def eig(a):
    a = asarray(a)
    n = a.shape[-1]
    e, deps, cvars, i, j, _ = _mat_generic(a)
    nl, nv = f"eigval#{e.uid}#{dim_e(n).uid}", f"eigvec#{e.uid}#{dim_e(n).uid}"
    sl = X.arrsym(nl, "c", info={"lin": "eigval"})
    sv = X.arrsym(nv, "c", info={"lin": "eigvec"})
    if nv not in HYPS.eig:
        HYPS.eig[nv] = dict(sl=sl, sv=sv, e=e, cvars=cvars, i=i, j=j, n=dim_e(n))
    lam = SArr(a.shape[:-1], C128, lambda idx: X.app_e(sl, dep_args(deps, idx) + (idx[-1],)))
    vec = SArr(a.shape, C128, lambda idx: X.app_e(sv, dep_args(deps, idx) + tuple(idx[-2:])))
    return lam, vec


def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm order")
    x = asarray(x)
    s = sum_(elementwise([x], lambda e: e * e.conj(), lambda d: d if d.kind == "f" else (F32 if d.bits == 64 and d.kind == "c" else F64)), axis, keepdims)
    return sqrt(s)


def trace(x):
    x = asarray(x)
    v = X.fresh(dim_e(x.shape[-1]))
    return SArr(x.shape[:-2], x.dtype, lambda i: X.sum_over(x.el(i + (atom(v), atom(v))), v))


def fft2(x, s=None, axes=(-2, -1), norm=None, inverse=False):
    x = asarray(x)
    if s is not None:
        raise Unsupported("fft2 s")
    axes = [norm_axis(a, x.ndim) for a in axes]
    if len(axes) != 2 or axes[0] == axes[1]:
        raise ValueError("fft2 axes")
    N = [dim_e(x.shape[a]) for a in axes]
    if norm not in (None, "backward", "forward", "ortho"):
        raise ValueError("norm")
    sc = ONE
    if norm == "ortho":
        sc = X.recip(X.fn("sqrt", (N[0] * N[1],)))
    elif (norm == "forward") != inverse:
        sc = X.recip(N[0] * N[1])
    sgn = X.IUNIT * X.PIE * (2 if inverse else -2)

    def f(i):
        u, v = X.fresh(N[0]), X.fresh(N[1])
        j = list(i)
        j[axes[0]], j[axes[1]] = atom(u), atom(v)
        ph = X.exp(sgn * (i[axes[0]] * atom(u) * X.recip(N[0]) + i[axes[1]] * atom(v) * X.recip(N[1])))
        e = x.el(tuple(j)) * ph
        return X.sum_over(X.sum_over(e, u), v) * sc
    return SArr(x.shape, C128 if x.dtype.bits != 64 or x.dtype.kind != "c" else C64, f)


def ifft2(x, s=None, axes=(-2, -1), norm=None):
    return fft2(x, s, axes, norm, inverse=True)


def take_along(x, idx, axis):
    raise Unsupported("take_along_axis")


def cumsum(x, axis=None):
    x = asarray(x)
    if axis is None:
        x = x.flatten()
        axis = 0
    ax = norm_axis(axis, x.ndim)

    def f(i):
        c = i[ax].int_const()
        if c is not None:
            t = ZERO
            for k in range(c + 1):
                t = t + x.el(i[:ax] + (num(k),) + i[ax + 1:])
            return t
        v = X.fresh(dim_e(x.shape[ax]))
        return X.sum_over(x.el(i[:ax] + (atom(v),) + i[ax + 1:]) * X.ind_ge(i[ax] - atom(v)), v)
    return SArr(x.shape, x.dtype, f)


def einsum(spec, *xs):
    spec = spec.replace(" ", "")
    xs = [asarray(x) for x in xs]
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = sorted(c for c in set(ins) if c.isalpha() and ins.count(c) == 1)
        out = ("..." if "..." in ins else "") + "".join(letters)
    ins = ins.split(",")
    dims = {}
    ell = []
    per = []
    for s, x in zip(ins, xs):
        if "..." in s:
            p = s.index("...")
            pre, post = s[:p], s[p + 3:]
            nell = x.ndim - len(pre) - len(post)
            ell.append(x.shape[len(pre):len(pre) + nell])
        else:
            pre, post, nell = s, "", 0
        if len(pre) + len(post) + nell != x.ndim:
            raise ValueError("einsum rank")
        shp = x.shape[:len(pre)] + x.shape[len(pre) + nell:]
        for c, d in zip(pre + post, shp):
            dims[c] = broadcast_dims(dims[c], d) if c in dims else d
        per.append((pre, nell, post))
    eshape = broadcast_shapes(*ell) if ell else ()
    o = out.replace("...", "@")
    oshape = []
    for c in o:
        if c == "@":
            oshape.extend(eshape)
        else:
            oshape.append(dims[c])
    summed = [c for c in dims if c not in out]
    dt, _ = result_dtype(xs)

    def f(i):
        env = {}
        p = 0
        ei = ()
        for c in o:
            if c == "@":
                ei = i[p:p + len(eshape)]
                p += len(eshape)
            else:
                env[c] = i[p]
                p += 1
        vs = []
        for c in summed:
            v = X.fresh(dim_e(dims[c]))
            vs.append(v)
            env[c] = atom(v)
        t = ONE
        for (pre, nell, post), x in zip(per, xs):
            idx = [env[c] for c in pre] + list(ei[len(ei) - nell:] if nell else ()) + [env[c] for c in post]
            idx = [ZERO if (isinstance(d, int) and d == 1) else q for q, d in zip(idx, x.shape)]
            t = t * x.el(tuple(idx))
        for v in vs:
            t = X.sum_over(t, v)
        return t
    return SArr(tuple(oshape), dt, f)
