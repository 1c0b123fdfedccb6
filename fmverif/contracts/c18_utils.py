"""C18: shape, axis and matrix utilities."""
from ..registry import contract

from .common import BATCH, bshape



@contract("C18", funcs=["utils.diag"], batch=BATCH, kind=["c", "r"])
def diag(k, batch, kind):
    b = bshape(k, batch)
    n = k.dim("N")
    x = (k.carray if kind == "c" else k.rarray)("x", b + (n,))
    y = k.m.utils.diag(x)
    k.shape("shape", y, b + (n, n))
    k.eq("value", y, x[..., :, None] * k.np.eye(n))


@contract("C18", funcs=["utils.matrix_adjoint"], batch=BATCH)
def adjoint(k, batch):
    b = bshape(k, batch)
    n, m = k.dim("N"), k.dim("M")
    x = k.carray("x", b + (n, m))
    y = k.m.utils.matrix_adjoint(x)
    k.shape("shape", y, b + (m, n))
    k.eq("value", y, k.np.conj(k.np.swapaxes(x, -1, -2)))
    k.eq("involution", k.m.utils.matrix_adjoint(y), x)


@contract("C18", funcs=["utils.batch_compatible_shapes"], ranks=[(0,), (2,), (0, 0), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (0, 2), (1, 1, 1), (2, 1, 0), (1, 2, 1), (2, 1, 1)],
          max_paths=4000, samples=12)
def batch_compatible(k, ranks):
    """Accepts exactly the lists of (positive) shapes that broadcast together."""
    shapes = [tuple(k.dim(f"d{i}_{j}", 1, 2) for j in range(r)) for i, r in enumerate(ranks)]
    got = k.m.utils.batch_compatible_shapes(*shapes)
    want = True
    for a in range(len(shapes)):
        for b in range(a):
            for x, y in zip(reversed(shapes[a]), reversed(shapes[b])):
                if not (x == y or x == 1 or y == 1):
                    want = False
    k.true("accepted iff broadcastable", bool(got) == want)


@contract("C18", funcs=["utils.absolute_axes"], ndim=[1, 2, 3, 4], n=[0, 1, 2, 3])
def absolute_axes(k, ndim, n):
    import itertools
    bad = []
    for axes in itertools.product(range(-ndim - 1, ndim + 1), repeat=n):
        ok = all(-ndim <= a < ndim for a in axes) and len({a % ndim for a in axes}) == n
        try:
            got = k.m.utils.absolute_axes(axes, ndim)
        except ValueError:
            got = None
        want = tuple(a % ndim for a in axes) if ok else None
        if (got if got is None else tuple(got)) != want:
            bad.append((axes, got, want))
    k.true(f"all axis tuples {str(bad[:2]) if bad else ''}", not bad)


@contract("C18", funcs=["utils.absolute_axes"], ndim=[1, 2, 3, 5], side=["low", "high"], pos=[0, 1])
def absolute_axes_out_of_range(k, ndim, side, pos):
    m = k.dim("m", 0)
    a = ndim + m if side == "high" else -ndim - 1 - m
    axes = (a, 0) if pos == 0 else (0, a)
    k.raises("out of range rejected", lambda: k.m.utils.absolute_axes(axes, ndim), exc=(ValueError,))


@contract("C18", funcs=["utils.atleast_nd"], rank=[0, 1, 2, 3], n=[0, 1, 2, 4])
def atleast_nd(k, rank, n):
    sh = tuple(k.dim(f"d{i}") for i in range(rank))
    x = k.carray("x", sh)
    y = k.m.utils.atleast_nd(x, n)
    k.shape("shape", y, (1,) * max(0, n - rank) + sh)
    k.eq("value", y, x.reshape((1,) * max(0, n - rank) + sh))


@contract("C18", funcs=["utils.interpolate_permittivity"], batch=BATCH, kind=["c", "r+", "r-"])
def interpolate(k, batch, kind):
    jnp = k.np
    b = bshape(k, batch)
    if kind == "c":
        es, ev = k.carray("es", b), k.carray("ev", b)
    else:
        es, ev = k.rarray("es", b, sign="+"), k.rarray("ev", b, sign="+")
        if kind == "r-":
            es, ev = -es + 0j, ev + 0j
    d = k.rarray("density", b, lo=0, hi=1, special=[0.0, 1.0])
    f = k.m.utils.interpolate_permittivity
    k.shape("shape", f(es, ev, d), b)
    k.eq("square of linear index", f(es, ev, d), (d * jnp.sqrt(es) + (1 - d) * jnp.sqrt(ev)) ** 2)
    k.eq("solid at density 1", f(es, ev, jnp.ones(b)), es)
    k.eq("void at density 0", f(es, ev, jnp.zeros(b)), ev)
