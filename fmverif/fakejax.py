"""Symbolic stand-ins for jax / numpy: the trusted semantics of the library functions used by the repository."""
from __future__ import annotations
import builtins
import collections.abc
import itertools
import contextlib
import functools
import types
from . import expr as X
from . import arrays as A
from .arrays import SArr, SInt, SBool, asarray, mk_int
from .expr import Unsupported, atom, ZERO, ONE


# ---- pytrees ---------------------------------------------------------------------------------------------
_registry: dict = {}


def register_pytree_node(cls, flatten_func, unflatten_func):
    _registry[cls] = (flatten_func, unflatten_func)


class TreeDef:
    def __init__(self, kind, aux, children):
        self.kind, self.aux, self.children = kind, aux, children

    def __eq__(self, o):
        return isinstance(o, TreeDef) and self.kind == o.kind and self.aux == o.aux and self.children == o.children

    def __hash__(self):
        return hash((self.kind, self.aux if _hashable(self.aux) else 0, tuple(self.children)))


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def tree_flatten(t, is_leaf=None):
    leaves = []

    def go(x):
        if is_leaf is not None and is_leaf(x):
            leaves.append(x)
            return TreeDef("leaf", None, [])
        if x is None:
            return TreeDef("none", None, [])
        ty = type(x)
        if ty in _registry:
            ch, aux = _registry[ty][0](x)
            return TreeDef(ty, aux, [go(c) for c in ch])
        if ty is tuple:
            return TreeDef(tuple, None, [go(c) for c in x])
        if isinstance(x, tuple) and hasattr(x, "_fields"):
            return TreeDef(ty, "nt", [go(c) for c in x])
        if ty is list:
            return TreeDef(list, None, [go(c) for c in x])
        if ty is dict:
            ks = sorted(x)
            return TreeDef(dict, tuple(ks), [go(x[k]) for k in ks])
        leaves.append(x)
        return TreeDef("leaf", None, [])
    d = go(t)
    return leaves, d


def tree_unflatten(d, leaves):
    it = iter(leaves)

    def go(d):
        if d.kind == "leaf":
            return next(it)
        if d.kind == "none":
            return None
        if d.kind in _registry:
            ch = tuple(go(c) for c in d.children)
            return _registry[d.kind][1](d.aux, ch)
        ch = [go(c) for c in d.children]
        if d.aux == "nt":
            return d.kind(*ch)
        if d.kind is tuple:
            return tuple(ch)
        if d.kind is list:
            return ch
        return dict(zip(d.aux, ch))
    r = go(d)
    return r


def tree_map(f, t, *rest, is_leaf=None):
    leaves, d = tree_flatten(t, is_leaf)
    others = [tree_flatten(r, is_leaf)[0] for r in rest]
    return tree_unflatten(d, [f(*xs) for xs in zip(leaves, *others)])


def tree_leaves(t, is_leaf=None):
    return tree_flatten(t, is_leaf)[0]


def tree_structure(t):
    return tree_flatten(t)[1]


# ---- transformations -------------------------------------------------------------------------------------
class custom_vjp:
    def __init__(self, f, nondiff_argnums=()):
        self.f = f
        functools.update_wrapper(self, f)

    def defvjp(self, fwd, bwd, **kw):
        self.fwd, self.bwd = fwd, bwd

    def defaults(self):
        """Default values of the arguments after the first."""
        ps = list(inspect.signature(self.f).parameters.values())[1:]
        return [p.default for p in ps]

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def jit(f=None, **kw):
    if f is None:
        return lambda g: g
    return f


def vmap(f, in_axes=0, out_axes=0, **kw):
    if out_axes != 0:
        raise Unsupported("vmap out_axes")

    def g(*args):
        axes = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
        v = None
        n = None

        def sl(x):
            nonlocal v, n
            x = asarray(x)
            if x.ndim == 0:
                raise ValueError("vmap over a scalar")
            if v is None:
                n = x.shape[0]
                v = X.fresh(A.dim_e(n))
            elif not A.dims_equal(n, x.shape[0]):
                raise ValueError("vmap got inconsistent sizes")
            if isinstance(n, int) and n == 1:
                return SArr(x.shape[1:], x.dtype, lambda i: x.el((ZERO,) + tuple(i)))
            return SArr(x.shape[1:], x.dtype, lambda i: x.el((atom(v),) + tuple(i)))
        new = []
        for a, ax in zip(args, axes):
            if ax is None:
                new.append(a)
            elif ax == 0:
                new.append(tree_map(sl, a))
            else:
                raise Unsupported("vmap in_axes")
        out = f(*new)

        def back(r):
            r = asarray(r)
            return SArr((n,) + r.shape, r.dtype, lambda i: X.subst(r.el(i[1:]), {v: i[0]}))
        return tree_map(back, out)
    return g


def scan(f, init, xs=None, length=None, reverse=False, unroll=1):
    leaves = tree_leaves(xs)
    if leaves:
        n = leaves[0].shape[0]
        for l in leaves:
            if not A.dims_equal(l.shape[0], n):
                raise ValueError("scan got values with different leading axis sizes")
    else:
        n = length
    hook = SCAN_HOOK[0]
    if hook is not None:
        r = hook(f, init, xs, n, reverse)
        if r is not None:
            return r
    if not isinstance(n, int):
        raise Unsupported("scan of symbolic length")
    carry = init
    ys = []
    order = range(n - 1, -1, -1) if reverse else range(n)
    s0 = tree_structure(init)
    for k in order:
        carry, y = f(carry, tree_map(lambda l: l[k], xs))
        if tree_structure(carry) != s0:
            raise TypeError("scan carry structure changed")
        ys.append(y)
    if reverse:
        ys.reverse()
    if ys:
        st = tree_map(lambda *z: A.stack(list(z)), *ys)
    else:
        st = None
    return carry, st


SCAN_HOOK = [None]


def unsupported(name):
    def f(*a, **k):
        raise Unsupported(name)
    f.__name__ = name
    return f


class _Config:
    x64 = True

    def read(self, name):
        return self.x64

    def update(self, *a):
        raise Unsupported("jax.config.update")

    def __getattr__(self, n):
        if n == "jax_enable_x64":
            return self.x64
        raise AttributeError(n)


class _Dev:
    platform = "cpu"


_dev = _Dev()


def ones_like(x, dtype=None, shape=None):
    x = asarray(x)
    return A.ones(x.shape if shape is None else shape, dtype or x.dtype)


def zeros_like(x, dtype=None, shape=None):
    x = asarray(x)
    return A.zeros(x.shape if shape is None else shape, dtype or x.dtype)


def full_like(x, v, dtype=None):
    x = asarray(x)
    return A.full(x.shape, v, dtype or x.dtype)


def array(x, dtype=None, copy=True):
    r = asarray(x, dtype)
    if isinstance(x, (int, float, complex)) and not isinstance(x, SArr):
        r = SArr((), r.dtype, r.el, weak=dtype is None)
    return r


def fasarray(x, dtype=None):
    return array(x, dtype)


def npsize(x, axis=None):
    x = asarray(x)
    return x.size if axis is None else x.shape[axis]


def count_gen(name):
    return unsupported(name)


def diagonal(x, offset=0, axis1=0, axis2=1):
    x = asarray(x)
    a1, a2 = A.norm_axis(axis1, x.ndim), A.norm_axis(axis2, x.ndim)
    if (a1, a2) != (x.ndim - 2, x.ndim - 1) or offset:
        raise Unsupported("diagonal")
    return SArr(x.shape[:-2] + (x.shape[-1],), x.dtype, lambda i: x.el(tuple(i) + (i[-1],)))


def fdiag(x, k=0):
    x = asarray(x)
    if k:
        raise Unsupported("diag offset")
    if x.ndim == 1:
        return SArr(x.shape * 2, x.dtype, lambda i: X.ind_eq(i[0] - i[1]) * x.el((i[0],)))
    return diagonal(x, axis1=-2, axis2=-1)


def flip(x, axis=None):
    x = asarray(x)
    axes = A.norm_axes(axis, x.ndim)
    return x[tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(x.ndim))]


def vdot_like(name):
    return unsupported(name)


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim <= 2 and b.ndim <= 2:
        return A.matmul(a, b)
    raise Unsupported("dot")


def logical_and(a, b):
    return asarray(a).astype(bool) & asarray(b).astype(bool)


def logical_or(a, b):
    return asarray(a).astype(bool) | asarray(b).astype(bool)


def logical_not(a):
    return ~asarray(a).astype(bool)


def fshape(x):
    return asarray(x).shape


def fndim(x):
    return asarray(x).ndim


def allclose(a, b, rtol=1e-5, atol=1e-8):
    return A.all_(A.isclose(a, b, rtol, atol))


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim or not all(A.dims_equal(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    return A.all_(a == b)


def take(x, idx, axis=None):
    x = asarray(x)
    if axis is None:
        return x.flatten()[idx]
    ax = A.norm_axis(axis, x.ndim)
    return x[(slice(None),) * ax + (idx,)]


def outer(a, b):
    a, b = asarray(a).flatten(), asarray(b).flatten()
    return a[:, None] * b[None, :]


def square(x):
    x = asarray(x)
    return x * x


def hypot(a, b):
    return A.sqrt(square(a) + square(b))


def cross(a, b, axis=-1):
    a, b = asarray(a), asarray(b)
    if axis != -1:
        raise Unsupported("cross axis")
    if a.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return A.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                    a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1)


def tensordot(a, b, axes=2):
    raise Unsupported("tensordot")


def broadcast_shapes_(*s):
    return A.broadcast_shapes(*s)


def clip(x, lo=None, hi=None, **kw):
    lo = kw.get("min", lo)
    hi = kw.get("max", hi)
    if lo is not None:
        x = A.maximum(x, lo)
    if hi is not None:
        x = A.minimum(x, hi)
    return x


def rad2deg(x):
    return asarray(x) * 180 / X_pi()


def X_pi():
    return PI


PI = 3.141592653589793


def deg2rad(x):
    return asarray(x) * PI / 180


def np_prod(x, axis=None, **kw):
    if isinstance(x, (tuple, list)) and axis is None and all(isinstance(t, (int, SInt)) for t in x):
        r = 1
        for t in x:
            r = r * t
        return r
    return A.prod(x, axis, **kw)


def argmax(x, axis=None, keepdims=False):
    x = asarray(x)
    if axis is None:
        x = x.flatten()
        axis = 0
    ax = A.norm_axis(axis, x.ndim)
    n = x.shape[ax]
    if isinstance(n, int) and n <= 4:
        # first maximal index
        vals = [x[(slice(None),) * ax + (k,)] for k in range(n)]
        best = vals[0]
        bi = asarray(0)
        for k in range(1, n):
            c = vals[k] > best
            best = A.where(c, vals[k], best)
            bi = A.where(c, k, bi)
        return bi
    y = A.transpose(x, tuple(a for a in range(x.ndim) if a != ax) + (ax,))
    g = A.generic(y)
    shape = y.shape[:-1]
    fv = [A.Xvar(k, d) for k, d in enumerate(shape)]
    deps = [k for k, v in enumerate(fv) if v in g.fv]
    sym = X.arrsym(f"argmax#{g.uid}", "i")
    de = A.dim_e(n)
    if sym.info is None:
        sym.info = {"argmax": True}
        sym.facts = lambda args, a: [("ge", atom(a)), ("ge", de - 1 - atom(a))]
    return SArr(shape, A.I64, lambda i: X.app_e(sym, tuple(i[k] for k in deps)))


def argsort(x, axis=-1, **kw):
    """A permutation that sorts x: opaque, with range, injectivity and monotonicity facts."""
    x = asarray(x)
    if x.ndim != 1:
        raise Unsupported("argsort of rank != 1")
    g = A.generic(x)
    n = A.dim_e(x.shape[0])
    name = f"argsort#{g.uid}#{n.uid}"
    sym = X.arrsym(name, "i")
    if sym.info is None:
        sym.info = dict(perm=True, key=x, n=n, inj1=True)
        sym.facts = lambda args, a: [("ge", atom(a)), ("ge", n - 1 - atom(a))]
    return SArr(x.shape, A.I64, lambda i: X.app_e(sym, i))


def gradient(x, *args, axis=None):
    if args:
        raise Unsupported("gradient spacing")
    x = asarray(x)
    axes = A.norm_axes(axis, x.ndim)
    outs = []
    for ax in axes:
        n = A.dim_e(x.shape[ax])

        def f(i, ax=ax, n=n):
            p = i[ax]
            at = lambda q: x.el(i[:ax] + (q,) + i[ax + 1:])
            first = X.ind_eq(p)
            last = X.ind_eq(p - n + 1)
            mid = (ONE - first) * (ONE - last)
            r = ZERO
            from fractions import Fraction as Fr
            if first.t:
                r = r + first * (at(X.num(1)) - at(ZERO))
            if last.t:
                r = r + last * (at(n - 1) - at(n - 2))
            if mid.t:
                r = r + mid * (at(p + 1) - at(p - 1)).scale(Fr(1, 2))
            return r
        outs.append(SArr(x.shape, x.dtype if x.dtype.kind in "fc" else A.F64, f))
    return outs if (axis is None or not isinstance(axis, int)) and len(outs) != 1 or (axis is not None and not isinstance(axis, int)) else outs[0]


def image_resize(x, shape, method="linear", antialias=True):
    x = asarray(x)
    shape = A.norm_shape(shape)
    if len(shape) != x.ndim:
        raise ValueError("resize rank")
    if all(A.dims_equal(a, b) for a, b in zip(x.shape, shape)):
        return x  # identity at equal shape (linear interpolation at the sample points)
    # contract of jax.image.resize: along each axis, a linear combination with weights that depend on the sizes only
    for ax in range(x.ndim):
        if not A.dims_equal(x.shape[ax], shape[ax]):
            x = _resize_axis(x, ax, shape[ax], method)
    return x


def _resize_axis(x, ax, size, method):
    n, p = A.dim_e(x.shape[ax]), A.dim_e(size)
    sym = X.arrsym(f"resize:{method}#{n.uid}#{p.uid}", "r")

    def f(i):
        v = X.fresh(n)
        w = X.app_e(sym, (i[ax], atom(v)))
        return X.sum_over(w * x.el(i[:ax] + (atom(v),) + i[ax + 1:]), v)
    return SArr(x.shape[:ax] + (size,) + x.shape[ax + 1:], x.dtype, f)


class _Grad:
    pass


def grad(f, argnums=0, **kw):
    """Gradient of a function that is affine in its (symbolic, opaque) argument: coefficient extraction."""
    def g(x, *rest):
        if argnums != 0:
            raise Unsupported("grad argnums")
        x = asarray(x)
        name = f"gradvar#{next(_gc)}"
        z = A.opaque(name, x.shape, "r", x.dtype)
        out = asarray(f(z, *rest))
        if out.ndim != 0:
            raise TypeError("Gradient only defined for scalar-output functions")
        e = out.el(())
        return SArr(x.shape, x.dtype, lambda i: linear_coeff(e, name, i))
    return g


import inspect
import itertools
_gc = itertools.count()


def linear_coeff(e, name, idx):
    """d e / d z[idx] for e affine in the opaque array z."""
    tot = ZERO
    for m, c in e.t.items():
        occ = [(a, p) for a, p in m.fac if _mentions(a, name)]
        if m.ex is not None and any(_mentions(a, name) for mm in m.ex.t for a, p in mm.fac):
            raise Unsupported("grad of a nonlinear function")
        if not occ:
            continue
        if len(occ) != 1 or occ[0][1] != 1 or occ[0][0].key[0] != "A" or occ[0][0].name != name:
            raise Unsupported("grad of a nonlinear function")
        bv, fac, ex = X.open_mono(m)
        za = [a for a in fac if a.key[0] == "A" and a.name == name][0]
        del fac[za]
        r = X.build([], fac, ex) if (fac or ex is not None) else ONE
        for p, q in zip(za.args, idx):
            r = r * X.ind_eq(p - q)
        for v in bv:
            r = X.sum_over(r, v)
        tot = tot + r.scale(c)
    return tot


def _mentions(a, name):
    if a.key[0] == "A" and a.name == name:
        return True
    for x in a.args:
        for m in x.t:
            for b, p in m.fac:
                if _mentions(b, name):
                    return True
            if m.ex is not None:
                for mm in m.ex.t:
                    for b, p in mm.fac:
                        if _mentions(b, name):
                            return True
    return False


def build_numpy(name, is_jax):
    m = types.ModuleType(name)
    d = m.__dict__
    d.update(
        ndarray=SArr, Array=SArr, newaxis=None, pi=PI, e=2.718281828459045, nan=float("nan"), inf=float("inf"),
        float64=A.F64, float32=A.F32, complex64=A.C64, complex128=A.C128, int32=A.I32, int64=A.I64, bool_=A.BOOL,
        where=A.where, squeeze=A.squeeze, stack=A.stack, conj=A.conj, conjugate=A.conj, block=A.block,
        broadcast_to=A.broadcast_to, broadcast_arrays=A.broadcast_arrays, sqrt=A.sqrt, exp=A.exp, asarray=fasarray,
        array=array, sin=A.sin, cos=A.cos, tan=A.tan, zeros_like=zeros_like, ones_like=ones_like, full_like=full_like,
        abs=A.abs_, absolute=A.abs_, isclose=A.isclose, allclose=allclose, arange=A.arange, sum=A.sum_, split=A.split,
        concatenate=A.concatenate, hstack=A.hstack, real=A.real, imag=A.imag, promote_types=lambda a, b: A.promote(a, b),
        ones=A.ones, zeros=A.zeros, full=A.full, empty=A.zeros, pad=A.pad, meshgrid=A.meshgrid,
        expand_dims=A.expand_dims, reshape=A.reshape, transpose=A.transpose, permute_dims=A.transpose, moveaxis=A.moveaxis,
        swapaxes=A.swapaxes, tile=A.tile,
        maximum=A.maximum, minimum=A.minimum, round=A.round_, around=A.round_, rint=A.round_, floor=A.floor, ceil=A.ceil,
        isnan=A.isnan, eye=A.eye, identity=A.eye, broadcast_shapes=A.broadcast_shapes, size=npsize, shape=fshape, ndim=fndim,
        mean=A.mean, arcsin=A.arcsin, arccos=A.arccos, angle=A.angle, arctan2=A.arctan2, amax=A.amax, max=A.amax,
        min=lambda x, axis=None, keepdims=False: -A.amax(-asarray(x), axis, keepdims),
        amin=lambda x, axis=None, keepdims=False: -A.amax(-asarray(x), axis, keepdims),
        argmax=argmax, all=A.all_, any=lambda x, axis=None, keepdims=False: asarray(x).any(axis, keepdims),
        roll=A.roll, prod=np_prod, log=A.log, linspace=A.linspace, gradient=gradient, argsort=argsort,
        matmul=A.matmul, dot=dot, einsum=A.einsum, sign=A.sign, power=A.power, square=square, hypot=hypot,
        add=lambda a, b: asarray(a) + b, subtract=lambda a, b: asarray(a) - b, multiply=lambda a, b: asarray(a) * b,
        divide=lambda a, b: asarray(a) / b, true_divide=lambda a, b: asarray(a) / b, negative=lambda a: -asarray(a),
        logical_and=logical_and, logical_or=logical_or, logical_not=logical_not, array_equal=array_equal,
        diagonal=diagonal, diag=fdiag, flip=flip, take=take, outer=outer, cross=cross, clip=clip, cumsum=A.cumsum,
        atleast_1d=lambda x: asarray(x) if asarray(x).ndim else A.expand_dims(asarray(x), 0), trace=A.trace,
        ravel=lambda x: asarray(x).flatten(), deg2rad=deg2rad, rad2deg=rad2deg, mod=A.mod, remainder=A.mod,
        floor_divide=A.floordiv, equal=lambda a, b: asarray(a) == b, reciprocal=lambda a: 1 / asarray(a),
        result_type=lambda *xs: A.result_dtype([asarray(x) if not isinstance(x, A.DT) else A.zeros((), x) for x in xs])[0],
        iscomplexobj=lambda x: asarray(x).dtype.kind == "c", isrealobj=lambda x: asarray(x).dtype.kind != "c",
        dtype=A.as_dtype,
    )
    lin = types.ModuleType(name + ".linalg")
    lin.__dict__.update(solve=A.solve, inv=A.inv, eig=A.eig, det=A.det, norm=A.norm)
    ff = types.ModuleType(name + ".fft")
    ff.__dict__.update(fft2=A.fft2, ifft2=A.ifft2)
    d["linalg"], d["fft"] = lin, ff

    def missing(attr):
        def __getattr__(n):
            if n.startswith("__"):
                raise AttributeError(n)
            return unsupported(f"{attr}.{n}")
        return __getattr__
    m.__getattr__ = missing(name)
    lin.__getattr__ = missing(name + ".linalg")
    ff.__getattr__ = missing(name + ".fft")
    return {name: m, name + ".linalg": lin, name + ".fft": ff}


def build_modules():
    mods = {}
    mods.update(build_numpy("jax.numpy", True))
    mods.update(build_numpy("numpy", False))
    jax = types.ModuleType("jax")
    tu = types.ModuleType("jax.tree_util")
    tu.__dict__.update(register_pytree_node=register_pytree_node, tree_map=tree_map, tree_flatten=tree_flatten,
                       tree_unflatten=tree_unflatten, tree_leaves=tree_leaves, tree_structure=tree_structure)
    lax = types.ModuleType("jax.lax")

    def fori_loop(lo, hi, f, init):
        if not (isinstance(lo, int) and isinstance(hi, int)):
            raise Unsupported("fori_loop of symbolic length")
        for k in range(lo, hi):
            init = f(k, init)
        return init
    lax.__dict__.update(scan=scan, stop_gradient=lambda x: x, fori_loop=fori_loop)
    image = types.ModuleType("jax.image")
    image.resize = image_resize
    jax.__dict__.update(
        numpy=mods["jax.numpy"], tree_util=tu, lax=lax, image=image, jit=jit, vmap=vmap, grad=grad,
        jacrev=unsupported("jacrev"), jacfwd=unsupported("jacfwd"), value_and_grad=unsupported("value_and_grad"),
        custom_vjp=custom_vjp, config=_Config(), devices=lambda *a: [_dev], Array=SArr,
        default_device=lambda d: contextlib.nullcontext(), ensure_compile_time_eval=contextlib.nullcontext,
        pure_callback=unsupported("pure_callback"), tree=types.SimpleNamespace(map=tree_map, leaves=tree_leaves, flatten=tree_flatten, unflatten=tree_unflatten),
    )

    def ga(n):
        if n.startswith("__"):
            raise AttributeError(n)
        return unsupported("jax." + n)
    jax.__getattr__ = ga
    lax.__getattr__ = ga
    tu.__getattr__ = ga
    jax.__path__ = []
    mods.update({"jax": jax, "jax.tree_util": tu, "jax.lax": lax, "jax.image": image})
    return mods


# ---- builtins --------------------------------------------------------------------------------------------
def f_max(*a, **k):
    if len(a) == 1 and isinstance(a[0], SArr):
        r = A.amax(a[0])
        return mk_int(r.el(())) if r.dtype.kind == "i" else r
    return builtins.max(*a, **k)


def f_min(*a, **k):
    if len(a) == 1 and isinstance(a[0], SArr):
        r = -A.amax(-a[0])
        return mk_int(r.el(())) if r.dtype.kind == "i" else r
    return builtins.min(*a, **k)


def f_sum(x, start=0):
    if isinstance(x, SArr):
        return A.sum_(x, 0) + start if x.ndim else x
    return builtins.sum(x, start)


def f_all(x):
    if isinstance(x, SArr):
        return A.all_(x)
    return builtins.all(x)


def f_any(x):
    if isinstance(x, SArr):
        return x.any()
    return builtins.any(x)


def f_len(x):
    if isinstance(x, SArr):
        if not x.shape:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    return builtins.len(x)


def f_range(*a):
    if any(isinstance(x, SInt) for x in a):
        raise Unsupported("range over a symbolic size")
    return builtins.range(*a)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.int, SInt))

    def __subclasscheck__(cls, x):
        return builtins.issubclass(x, builtins.int)


class FInt(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SArr):
            if x.ndim != 0:
                raise TypeError("Only scalar arrays can be converted to Python scalars")
            e = x.el(())
            if X.is_int(e):
                return mk_int(e)
            return mk_int(X.fn("trunc", (e,), "i"))
        if isinstance(x, (SInt,)):
            return x
        return builtins.int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.float)


class FFloat(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SArr):
            return x.reshape(())
        if isinstance(x, SInt):
            return asarray(x).astype(float)
        return builtins.float(x)


FInt.__name__ = "int"
FFloat.__name__ = "float"


def f_round(x, n=None):
    if isinstance(x, SArr):
        return A.round_(x)
    return builtins.round(x) if n is None else builtins.round(x, n)


class SymSet(collections.abc.MutableSet):
    """Set whose members may be symbolic sizes: membership is decided by equality (forking), not by hash."""

    def __init__(self, items=()):
        self.items = []
        for x in items:
            self.add(x)

    @classmethod
    def _from_iterable(cls, it):
        return cls(it)

    def __contains__(self, x):
        return builtins.any(bool(x == y) for y in self.items)

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return builtins.len(self.items)

    def add(self, x):
        if x not in self:
            self.items.append(x)

    def discard(self, x):
        self.items = [y for y in self.items if not bool(x == y)]

    def union(self, *o):
        return SymSet(itertools.chain(self.items, *o))

    def intersection(self, *o):
        return SymSet(x for x in self.items if builtins.all(x in SymSet(y) for y in o))

    def difference(self, *o):
        return SymSet(x for x in self.items if not builtins.any(x in SymSet(y) for y in o))

    def update(self, *o):
        for x in itertools.chain(*o):
            self.add(x)

    def issubset(self, o):
        return self <= SymSet(o)

    def issuperset(self, o):
        return self >= SymSet(o)

    def copy(self):
        return SymSet(self.items)

    def __hash__(self):
        return hash(builtins.frozenset(self.items))


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.set, SymSet))


class FSet(set, metaclass=_SetMeta):
    def __new__(cls, x=()):
        return SymSet(x)


FSet.__name__ = "set"


BUILTINS = dict(set=FSet, frozenset=FSet, __fm_set__=FSet, max=f_max, min=f_min, sum=f_sum, all=f_all, any=f_any, len=f_len, range=f_range, int=FInt,
                float=FFloat, round=f_round)
