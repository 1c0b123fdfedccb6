"""C19: objects survive tracing, mapping and scanning boundaries."""
import dataclasses
from ..registry import contract
from .common import bshape
from .layers import layer, smatrix, expansion, thickness
from .c01_basis import lattice


def rebuilt(k, x):
    """What a transformation does to its arguments: flatten, then unflatten with the leaves in order."""
    tu = k.jax.tree_util
    leaves, tree = tu.tree_flatten(x)
    return tu.tree_unflatten(tree, leaves)


def same(k, label, a, b):
    k.true(f"{label}: same type", type(a) is type(b))
    if type(a) is not type(b):
        return
    if dataclasses.is_dataclass(a):
        for f in dataclasses.fields(a):
            same(k, f"{label}.{f.name}", getattr(a, f.name), getattr(b, f.name))
    elif a is None:
        k.true(f"{label} is None", b is None)
    elif isinstance(a, tuple):
        k.true(f"{label}: same length", len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same(k, f"{label}[{i}]", x, y)
    elif hasattr(a, "dtype"):
        k.eq(label, a, b)
        k.true(f"{label}: same dtype", a.dtype == b.dtype)
    else:
        k.true(label, a == b)


def objects(k, kind, b):
    n = k.dim("N", 1, 3)
    ex_ = expansion(k, n)
    if kind == "lattice":
        return lattice(k, b, "lv")
    if kind == "expansion":
        return ex_
    if kind == "truncation":
        return k.m.basis.Truncation.CIRCULAR, k.m.basis.Truncation.PARALLELOGRAMIC
    if kind == "formulation":
        return tuple(k.m.fmm.Formulation)
    if kind == "pml":
        return k.m.pml.PMLParams(k.int("nx"), k.int("ny"), k.rarray("a", ()), k.rarray("p", ()), k.rarray("s", ()))
    lay = layer(k, "L", b, ex_, n, small=(1,) * len(b))
    if kind == "layer":
        return lay
    if kind == "layer_vector":
        g = (k.dim("gx", 1), k.dim("gy", 1))
        return dataclasses.replace(lay, tangent_vector_field=(k.carray("tx", b + g), k.carray("ty", b + g)))
    l2 = layer(k, "K", b, ex_, n)
    return smatrix(k, "S", b, n, lay, thickness(k, "d1"), l2, thickness(k, "d2"))


KINDS = ["lattice", "expansion", "truncation", "formulation", "pml", "layer", "layer_vector", "smatrix"]


@contract("C19", funcs=["basis.LatticeVectors", "basis.Truncation", "basis.Expansion", "basis.unflatten_expansion", "fmm.Formulation", "fmm.LayerSolveResult", "scattering.ScatteringMatrix", "pml.PMLParams"],
          kind=KINDS, b=[(), ("B",)], samples=2)
def rebuilt_equal(k, kind, b):
    x = objects(k, kind, bshape(k, b))
    same(k, kind, rebuilt(k, x), x)
    # as part of a larger structure
    y = {"a": (x, k.carray("other", (2,))), "b": [x]}
    z = rebuilt(k, y)
    same(k, kind + " in a tuple", z["a"][0], x)
    same(k, kind + " in a list", z["b"][0], x)


@contract("C19", funcs=["basis.LatticeVectors", "basis.Expansion", "fmm.LayerSolveResult", "scattering.ScatteringMatrix"], kind=["lattice", "layer", "layer_vector", "smatrix"], samples=2)
def leaves_are_fields(k, kind):
    """Mapping over the leaves maps every array field and nothing else (as used for batches of layers)."""
    b = bshape(k, ("B",))
    n = k.dim("N", 1, 3)
    if kind == "lattice":
        x = lattice(k, b, "lv")
    else:
        lay = layer(k, "L", b, expansion(k, n), n, small=b)
        if kind == "layer_vector":
            g = (k.dim("gx", 1), k.dim("gy", 1))
            lay = dataclasses.replace(lay, tangent_vector_field=(k.carray("tx", b + g), k.carray("ty", b + g)))
        x = lay if kind != "smatrix" else smatrix(k, "S", b, n, lay, thickness(k, "d1", b), lay, thickness(k, "d2", b))
    i = k.int("i", 0, b[0])
    y = k.jax.tree_util.tree_map(lambda t: t[i], x)

    def go(label, p, q):
        if isinstance(q, k.m.basis.Expansion):
            k.eq(label, p.basis_coefficients, q.basis_coefficients)
        elif dataclasses.is_dataclass(q):
            for f in dataclasses.fields(q):
                go(f"{label}.{f.name}", getattr(p, f.name), getattr(q, f.name))
        elif isinstance(q, tuple):
            for j, (s, t) in enumerate(zip(p, q)):
                go(f"{label}[{j}]", s, t)
        elif q is None:
            k.true(label, p is None)
        else:
            k.eq(label, p, q[i])
    go(kind, y, x)


@contract("C19", funcs=["basis.LatticeVectors", "basis.Expansion", "fmm.LayerSolveResult", "scattering.ScatteringMatrix"], kind=KINDS, sym=False, samples=2)
def through_jit_vmap_scan(k, kind):
    x = objects(k, kind, (2,))
    if kind == "pml":
        x = k.m.pml.PMLParams(3, 4, 4.0, 4.0, 1.5)
    same(k, "jit", k.jax.jit(lambda t: t)(x), x)
    if kind in ("lattice",):
        same(k, "vmap", k.jax.vmap(lambda t: t)(x), x)
        same(k, "scan", k.jax.lax.scan(lambda c, t: (c, t), None, x)[1], x)
    same(k, "carry", k.jax.lax.scan(lambda c, t: (c, t), x, k.np.arange(2))[0], x)
    same(k, "grad argument", k.jax.eval_shape(lambda t: 0.0, x).shape, ())


ARRS = ["same", "other_value", "other_dtype", "other_shape", "reshaped", "strided", "permuted"]


@contract("C19", funcs=["basis._HashableArray", "basis.Expansion"], how=ARRS, samples=6, sym=False)
def static_equality(k, how):
    """Expansions as static data: equal exactly if shape, type and contents are equal; equal ones hash equal."""
    onp, jax = k.onp, k.jax
    n = k.dim("N", 2, 4)
    a = onp.asarray(k.expansion("ex", n).basis_coefficients)
    eqv = how in ("same", "strided")
    if how == "same":
        b = a.copy()
    elif how == "other_value":
        b = a.copy()
        b[k.int("i", 0, n), k.int("j", 0, 2)] += 1
    elif how == "other_dtype":
        b = a.astype(onp.int32)
    elif how == "other_shape":
        b = onp.concatenate([a, a[-1:] + 7])
    elif how == "reshaped":
        b = onp.concatenate([a, a[:1] * 0])
    elif how == "strided":
        b = onp.asfortranarray(a)
    else:
        b = a[::-1].copy()
    tree = lambda v: jax.tree_util.tree_flatten(k.m.basis.Expansion(basis_coefficients=v))[1]
    ta, tb = tree(a), tree(b)
    k.true("equality of the static data", (ta == tb) == eqv)
    k.true("symmetric", (tb == ta) == eqv)
    if eqv:
        k.true("equal values hash equal", hash(ta) == hash(tb))
    h = k.m.basis._HashableArray
    k.true("equality", (h(a) == h(b)) == eqv)
    if eqv:
        k.true("hash", hash(h(a)) == hash(h(b)))
    k.true("not equal to other types", not (h(a) == 3))


@contract("C19", funcs=["basis._HashableArray"], case=["same_shape", "rank", "length"])
def static_equality_symbolic(k, case):
    """Equal exactly when shapes and all elements are equal, for all integer arrays."""
    jnp = k.np
    n = k.dim("N", 1, 2)
    if case == "same_shape":
        a, b = k.iarray("a", (n, 2), -1, 1), k.iarray("b", (n, 2), -1, 1)
    elif case == "rank":
        a, b = k.iarray("a", (n, 2)), k.iarray("b3", (1, n, 2))
    else:
        p = k.dim("P", 1, 2)
        k.assume(p != n)
        a, b = k.iarray("a", (n, 2)), k.iarray("bp", (p, 2))
    if not k.symbolic:
        a, b = k.onp.asarray(a), k.onp.asarray(b)
    h = k.m.basis._HashableArray
    r = h(a) == h(b)
    if case != "same_shape":
        k.true("different shapes are different", not bool(r))
    else:
        k.true("equal exactly when all elements are equal", bool(r) == bool(jnp.all(a == b)))
    k.true("equal to itself", bool(h(a) == h(a)))
