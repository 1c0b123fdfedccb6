"""C11: real-space fields."""
from ..registry import contract
from .common import bshape
from .layers import layer, expansion, thickness
from .c10_fields import SHAPES, amps, grid

NAMES = ("ex", "ey", "ez", "hx", "hy", "hz")


def coefs(k, b, n, m):
    c = {f: k.carray("c_" + f, b + (n, m)) for f in NAMES}
    return c, tuple(c[f] for f in NAMES[:3]), tuple(c[f] for f in NAMES[3:])


def bloch_sum(k, lay, c, x, y, nc):
    """sum_n c_n exp(i k_n.r) at the coordinates x, y (the last nc axes are the coordinate axes)."""
    jnp = k.np
    kt = k.m.basis.transverse_wavevectors(lay.in_plane_wavevector, lay.primitive_lattice_vectors, lay.expansion)
    ix = (Ellipsis, slice(None)) + (None,) * nc
    xs, ys = ((t[..., None, :, :] if nc == 2 else (t[..., None, :] if nc == 1 else t[..., None])) for t in (x, y))
    phase = jnp.exp(1j * (kt[..., 0][ix] * xs + kt[..., 1][ix] * ys))
    cc = c[(Ellipsis,) + (None,) * nc + (slice(None),)]
    return jnp.sum(cc * phase[..., None], axis=-2 - nc)


@contract("C11", funcs=["fields.fields_on_grid", "fields._fields_on_grid", "basis.unit_cell_coordinates", "fft.ifft"],
          variants=[dict(s, cells=c) for s in SHAPES[:5] for c in ((1, 1), (2, 1), (1, 3))], samples=3)
def fields_on_grid_bloch_sum(k, lb, ab, cells):
    jnp = k.np
    n, m = k.dim("N", 1, 3), k.dim("M", 1, 3)
    ex_ = expansion(k, n)
    lay = layer(k, "L", bshape(k, lb), ex_, n)
    c, e, h = coefs(k, bshape(k, ab), n, m)
    nx, ny = grid(k, ex_)
    eg, hg, (x, y) = k.m.fields.fields_on_grid(e, h, lay, shape=(nx, ny), num_unit_cells=cells)
    u, v = lay.primitive_lattice_vectors.u, lay.primitive_lattice_vectors.v
    i = (jnp.arange(nx * cells[0]) / nx)[:, None]
    j = (jnp.arange(ny * cells[1]) / ny)[None, :]
    for d, t in enumerate((x, y)):
        k.eq(f"coordinate {d}", t, i * u[..., d, None, None] + j * v[..., d, None, None])
    for f, g in zip(NAMES, eg + hg):
        k.eq(f"{f} is the Bloch sum at the returned coordinates", g, bloch_sum(k, lay, c[f], x, y, 2))


@contract("C11", funcs=["fields.fields_on_coordinates"], variants=[dict(s, cs=c) for s in SHAPES[:5] if s["ab"] or not s["lb"] for c in ((), ("P",), ("P", "Q"))], samples=3)
def fields_on_coordinates_bloch_sum(k, lb, ab, cs):
    n, m = k.dim("N", 1, 3), k.dim("M", 1, 3)
    lay = layer(k, "L", bshape(k, lb), expansion(k, n), n)
    c, e, h = coefs(k, bshape(k, ab), n, m)
    s = tuple(k.dim(d, 1) for d in cs)
    x, y = k.rarray("x", s), k.rarray("y", s)
    eg, hg, (xo, yo) = k.m.fields.fields_on_coordinates(e, h, lay, x=x, y=y)
    k.eq("x returned", xo, x)
    k.eq("y returned", yo, y)
    for f, g in zip(NAMES, eg + hg):
        k.eq(f"{f} is the Bloch sum", g, bloch_sum(k, lay, c[f], x, y, len(cs)))


@contract("C11", funcs=["fields.fields_on_grid"], variants=[dict(s, axis=a) for s in SHAPES[:2] for a in (0, 1)], samples=3)
def bloch_periodic(k, lb, ab, axis):
    """A translation by one lattice vector multiplies the field by exp(i k0.u)."""
    jnp = k.np
    n, m = k.dim("N", 1, 3), k.dim("M", 1, 3)
    ex_ = expansion(k, n)
    lay = layer(k, "L", bshape(k, lb), ex_, n)
    c, e, h = coefs(k, bshape(k, ab), n, m)
    nx, ny = grid(k, ex_)
    eg, hg, _ = k.m.fields.fields_on_grid(e, h, lay, shape=(nx, ny), num_unit_cells=(2, 1) if axis == 0 else (1, 2))
    t = lay.primitive_lattice_vectors.u if axis == 0 else lay.primitive_lattice_vectors.v
    ph = jnp.exp(1j * jnp.sum(t * lay.in_plane_wavevector, axis=-1))[..., None, None, None]
    for f, g in zip(NAMES, eg + hg):
        a, b = (g[..., :nx, :, :], g[..., nx:, :, :]) if axis == 0 else (g[..., :, :ny, :], g[..., :, ny:, :])
        k.eq(f"{f} Bloch periodic", b, a * ph)


def znum_of(k, name):
    z = k.dim(name, 2, 3)
    return z


def slices(k, label, eg, hg, fwd, bwd, lay, d, z, zdim, fn):
    """Slice iz of the 3D fields = fields of the amplitudes colocated at z[iz]."""
    jnp = k.np
    F = k.m.fields
    iz = k.int("i" + label, 0, zdim)
    f, b = F.colocate_amplitudes(fwd, bwd, z_offset=z[iz], layer_solve_result=lay, layer_thickness=d)
    e, h = F.fields_from_wave_amplitudes(f, b, lay)
    es, hs, (x, y) = fn(electric_field=e, magnetic_field=h, layer_solve_result=lay)
    for q in range(3):
        k.eq(f"{label} {NAMES[q]} slice", eg[q][..., iz, :], es[q])
        k.eq(f"{label} {NAMES[q + 3]} slice", hg[q][..., iz, :], hs[q])
    return x, y


def layer_case(k, lb, ab, name="L", n=None, m=None, ex_=None):
    lay = layer(k, name, bshape(k, lb), ex_, n)
    b = bshape(k, ab)
    return lay, amps(k, name + "fwd", b, n, m), amps(k, name + "bwd", b, n, m), thickness(k, name + "d")


@contract("C11", funcs=["fields.layer_fields_3d", "fields.layer_fields_3d_on_coordinates", "fields._layer_fields_3d"],
          variants=[dict(s, kind=c) for s in (SHAPES[0], SHAPES[1], SHAPES[2], SHAPES[4]) for c in ("grid", "cells", "coords") if c != "cells" or s is SHAPES[0]], samples=2, budget=180)
def layer_slices(k, lb, ab, kind):
    jnp = k.np
    k.opaque_omega_k()
    n, m = k.dim("N", 1, 2), k.dim("M", 1, 2)
    ex_ = expansion(k, n)
    lay, fwd, bwd, d = layer_case(k, lb, ab, "L", n, m, ex_)
    zn = znum_of(k, "Z")
    F = k.m.fields
    if kind == "coords":
        x, y = k.rarray("x", (k.dim("P", 1),)), k.rarray("y", (k.dim("P", 1),))
        eg, hg, (xo, yo, z) = F.layer_fields_3d_on_coordinates(fwd, bwd, lay, d, zn, x, y)
        fn = lambda **a: F.fields_on_coordinates(x=x, y=y, **a)
    else:
        g = grid(k, ex_)
        cells = (1, 1) if kind == "grid" else (2, 1)
        eg, hg, (xo, yo, z) = F.layer_fields_3d(fwd, bwd, lay, d, zn, g, cells)
        fn = lambda **a: F.fields_on_grid(shape=g, num_unit_cells=cells, **a)
    k.eq("z runs from the layer start to its end", z, jnp.arange(zn) * d / (zn - 1))
    xs, ys = slices(k, "layer", eg, hg, fwd, bwd, lay, d, z, zn, fn)
    k.eq("x", xo, xs)
    k.eq("y", yo, ys)


@contract("C11", funcs=["fields.stack_fields_3d", "fields.stack_fields_3d_on_coordinates", "fields._stack_fields_3d"],
          variants=[dict(s, kind=c, num=l) for s in (SHAPES[0], SHAPES[1]) for c in ("grid", "coords") for l in (1, 2, 3)], samples=2, budget=180)
def stack_slices(k, lb, ab, kind, num):
    """Stack fields are the layer fields, one after the other, with accumulated z."""
    jnp = k.np
    k.opaque_omega_k()
    n, m = k.dim("N", 1, 2), k.dim("M", 1, 2)
    ex_ = expansion(k, n)
    F = k.m.fields
    cases = [layer_case(k, lb, ab, f"L{q}", n, m, ex_) for q in range(num)]
    zs = [znum_of(k, f"Z{q}") for q in range(num)]
    am, ls, ds = [(c[1], c[2]) for c in cases], [c[0] for c in cases], [c[3] for c in cases]
    if kind == "coords":
        x, y = k.rarray("x", (k.dim("P", 1),)), k.rarray("y", (k.dim("P", 1),))
        eg, hg, (xo, yo, z) = F.stack_fields_3d_on_coordinates(am, ls, ds, zs, x, y)
        one = lambda q: F.layer_fields_3d_on_coordinates(am[q][0], am[q][1], ls[q], ds[q], zs[q], x, y)
    else:
        g = grid(k, ex_)
        eg, hg, (xo, yo, z) = F.stack_fields_3d(am, ls, ds, zs, g, (1, 1))
        one = lambda q: F.layer_fields_3d(am[q][0], am[q][1], ls[q], ds[q], zs[q], g, (1, 1))
    lo, z0 = 0, 0.0
    for q in range(num):
        es, hs, (x1, y1, z1) = one(q)
        s = slice(lo, lo + zs[q])
        k.eq(f"layer {q} electric field", eg[..., s, :], es)
        k.eq(f"layer {q} magnetic field", hg[..., s, :], hs)
        k.eq(f"layer {q} z", z[s], z1 + z0)
        k.eq("x", xo, x1)
        k.eq("y", yo, y1)
        lo, z0 = lo + zs[q], z0 + ds[q]
    k.shape("no further z", z, (lo,))


@contract("C11", funcs=["fields.stack_fields_3d", "fields._validate_matching_lengths"], kind=["amps", "layers", "thick", "znum"])
def stack_lengths_rejected(k, kind):
    k.opaque_omega_k()
    n, m = k.dim("N", 1, 2), k.dim("M", 1, 2)
    ex_ = expansion(k, n)
    c = [layer_case(k, (), (), f"L{q}", n, m, ex_) for q in range(2)]
    am, ls, ds, zs = [(t[1], t[2]) for t in c], [t[0] for t in c], [t[3] for t in c], [k.dim("Z0", 2), k.dim("Z1", 2)]
    cut = dict(amps=am, layers=ls, thick=ds, znum=zs)[kind]
    cut.pop()
    g = grid(k, ex_)
    k.raises("lengths differ", lambda: k.m.fields.stack_fields_3d(am, ls, ds, zs, g, (1, 1)))


@contract("C11", funcs=["fields.stack_fields_3d_auto_grid"], sym=False, samples=4, num=[1, 2])
def auto_grid(k, num):
    """The automatic grid is the explicit grid with round(length / spacing) points."""
    jnp, onp = k.np, k.onp
    n, m = 2, 2
    ex_ = k.m.basis.Expansion(basis_coefficients=onp.asarray([[0, 0], [1, 0]]))
    F = k.m.fields
    cases = [layer_case(k, (), (), f"L{q}", n, m, ex_) for q in range(num)]
    am, ls, ds = [(c[1], c[2]) for c in cases], [c[0] for c in cases], [c[3] for c in cases]
    lv = ls[0].primitive_lattice_vectors
    lens = [float(onp.sqrt(onp.sum(onp.asarray(t) ** 2))) for t in (lv.u, lv.v)]
    sp = min(lens + [float(d) for d in ds]) / 3.3
    eg, hg, (x, y, z) = F.stack_fields_3d_auto_grid(am, ls, ds, sp, (1, 2))
    e2, h2, (x2, y2, z2) = F.stack_fields_3d(am, ls, ds, [int(onp.round(float(d) / sp)) for d in ds], tuple(int(onp.round(l / sp)) for l in lens), (1, 2))
    for name, a, b in (("E", eg, e2), ("H", hg, h2), ("x", x, x2), ("y", y, y2), ("z", z, z2)):
        k.eq(name, a, b)
