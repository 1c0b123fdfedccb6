"""C10: conversion between wave amplitudes and fields."""
from ..registry import contract
from .common import bshape
from .layers import layer, expansion
from .c01_basis import lattice

SHAPES = [dict(lb=(), ab=()), dict(lb=("B",), ab=("B",)), dict(lb=("B",), ab=()), dict(lb=(), ab=("B",)), dict(lb=("B1", "B2"), ab=("B1", "B2")), dict(lb=(1,), ab=("B",))]


def amps(k, name, b, n, m):
    return k.carray(name, b + (2 * n, m))


@contract("C10", funcs=["fields.fields_from_wave_amplitudes", "fields.field_conversion_matrix"], variants=SHAPES, samples=3)
def fields_of_amplitudes(k, lb, ab):
    jnp = k.np
    k.opaque_omega_k()
    n, m = k.dim("N", 1, 3), k.dim("M", 1, 3)
    ex_ = expansion(k, n)
    lay = layer(k, "L", bshape(k, lb), ex_, n)
    b = bshape(k, ab)
    fwd, bwd = amps(k, "fwd", b, n, m), amps(k, "bwd", b, n, m)
    (ex, ey, ez), (hx, hy, hz) = k.m.fields.fields_from_wave_amplitudes(fwd, bwd, lay)
    q, phi, om = lay.eigenvalues[..., None], lay.eigenvectors, lay.omega_script_k_matrix
    w = (2 * jnp.pi / lay.wavelength)[..., None, None]
    e = om @ (phi @ ((fwd - bwd) / (w * q)))
    h = phi @ (fwd + bwd)
    k.eq("Ey", ey, -e[..., :n, :])
    k.eq("Ex", ex, e[..., n:, :])
    k.eq("Hx", hx, h[..., :n, :])
    k.eq("Hy", hy, h[..., n:, :])
    kt = k.m.basis.transverse_wavevectors(lay.in_plane_wavevector, lay.primitive_lattice_vectors, ex_)
    kx, ky = kt[..., 0, None], kt[..., 1, None]
    # curl H = -i w D,  curl E = i w B   (z components)
    k.eq("Ez from the curl of H", ez, -(lay.inverse_z_permittivity_matrix @ (kx * hy - ky * hx)) / w)
    k.eq("Hz from the curl of E", hz, (lay.inverse_z_permeability_matrix @ (kx * ey - ky * ex)) / w)


@contract("C10", funcs=["fields.field_conversion_matrix"], lb=[(), ("B",), ("B1", "B2")], samples=3)
def conversion_matrix(k, lb):
    jnp = k.np
    k.opaque_omega_k()
    n = k.dim("N", 1, 3)
    lay = layer(k, "L", bshape(k, lb), expansion(k, n), n)
    mat = k.m.fields.field_conversion_matrix(lay)
    q, phi, om = lay.eigenvalues, lay.eigenvectors, lay.omega_script_k_matrix
    w = (2 * jnp.pi / lay.wavelength)[..., None, None]
    e = (om @ phi) / (w * q[..., None, :])
    k.eq("electric field of forward modes", mat[..., :2 * n, :2 * n], e)
    k.eq("electric field of backward modes", mat[..., :2 * n, 2 * n:], -e)
    k.eq("magnetic field of forward modes", mat[..., 2 * n:, :2 * n], phi)
    k.eq("magnetic field of backward modes", mat[..., 2 * n:, 2 * n:], phi)


def grid(k, ex_):
    nx, ny = k.dim("nx", 1, 6), k.dim("ny", 1, 6)
    mx, my = k.gmax(ex_)
    k.assume(nx >= 2 * mx + 1)
    k.assume(ny >= 2 * my + 1)
    return nx, ny


@contract("C10", funcs=["sources.amplitudes_for_fields", "fields.field_conversion_matrix", "fields.fields_on_grid", "fft.fft", "fft.ifft"],
          variants=SHAPES[:3] + SHAPES[4:5], tol=1e-6, samples=2)
def amplitudes_reproduce_fields(k, lb, ab):
    """Amplitudes recovered from fields on the grid of one unit cell have exactly the Fourier coefficients of these fields."""
    jnp = k.np
    k.opaque_omega_k()
    n, m = k.dim("N", 1, 2), k.dim("M", 1, 3)
    ex_ = expansion(k, n)
    lay = layer(k, "L", bshape(k, lb), ex_, n, inv=True)[0]
    b = bshape(k, ab)
    c = {f: k.carray("c_" + f, b + (n, m)) for f in ("ex", "ey", "hx", "hy")}
    z = 0 * c["ex"]
    nx, ny = grid(k, ex_)
    (ex, ey, _), (hx, hy, _), _ = k.m.fields.fields_on_grid((c["ex"], c["ey"], z), (c["hx"], c["hy"], z), lay, shape=(nx, ny), num_unit_cells=(1, 1))
    fwd, bwd = k.m.sources.amplitudes_for_fields(ex, ey, hx, hy, lay)
    mat = k.m.fields.field_conversion_matrix(lay)
    out = mat @ jnp.concatenate([fwd, bwd], axis=-2)
    bc = jnp.broadcast_shapes(b, bshape(k, lb))
    full = lambda *xs: jnp.broadcast_to(jnp.concatenate(xs, axis=-2), bc + (2 * n, m))
    k.eq("electric field reproduced", out[..., :2 * n, :], full(-c["ey"], c["ex"]))
    k.eq("magnetic field reproduced", out[..., 2 * n:, :], full(c["hx"], c["hy"]))


def brillouin_layer(k, b, cells, n, ex_):
    lv = lattice(k, (), "lv")
    kin = k.m.basis.brillouin_zone_in_plane_wavevector(cells, lv)
    kin = kin.reshape((1,) * len(b) + kin.shape)
    lay = layer(k, "L", b + cells, ex_, n, small=b + (1, 1), inv=True)[0]
    one = lambda x: x.reshape((1,) * (len(b) + 2) + (2,))
    import dataclasses
    return dataclasses.replace(lay, in_plane_wavevector=kin, primitive_lattice_vectors=k.m.basis.LatticeVectors(one(lv.u), one(lv.v)))


@contract("C10", funcs=["sources.amplitudes_for_fields", "fields.field_conversion_matrix", "fields.fields_on_grid", "fft.fft", "fft.ifft", "basis.brillouin_zone_in_plane_wavevector"],
          variants=[dict(s, cells=c) for s in (dict(lead=(), keep=False), dict(lead=(), keep=True), dict(lead=("B",), keep=True)) for c in ((1, 1),)],
          tol=1e-6, samples=2)
def brillouin_amplitudes_reproduce_fields(k, lead, keep, cells):
    """Fields on the supercell of a Brillouin grid, averaged over the grid: the amplitudes recovered for each Brillouin point have
    the Fourier coefficients of the field of that point."""
    jnp = k.np
    k.opaque_omega_k()
    n, m = k.dim("N", 1, 2), k.dim("M", 1, 3)
    ex_ = expansion(k, n)
    b = bshape(k, lead)
    lay = brillouin_layer(k, b, cells, n, ex_)
    c = {f: k.carray("c_" + f, b + cells + (n, m)) for f in ("ex", "ey", "hx", "hy")}
    z = 0 * c["ex"]
    nx, ny = grid(k, ex_)
    (ex, ey, _), (hx, hy, _), _ = k.m.fields.fields_on_grid((c["ex"], c["ey"], z), (c["hx"], c["hy"], z), lay, shape=(nx, ny), num_unit_cells=cells)
    ax = (len(b), len(b) + 1)
    ex, ey, hx, hy = (jnp.mean(t, axis=ax, keepdims=keep) for t in (ex, ey, hx, hy))
    fwd, bwd = k.m.sources.amplitudes_for_fields(ex, ey, hx, hy, lay, brillouin_grid_axes=ax)
    mat = k.m.fields.field_conversion_matrix(lay)
    out = mat @ jnp.concatenate([fwd, bwd], axis=-2)
    k.eq("electric field reproduced", out[..., :2 * n, :], jnp.concatenate([-c["ey"], c["ex"]], axis=-2))
    k.eq("magnetic field reproduced", out[..., 2 * n:, :], jnp.concatenate([c["hx"], c["hy"]], axis=-2))


@contract("C10", funcs=["sources.amplitudes_for_fields", "fields.fields_from_wave_amplitudes", "fields.fields_on_grid"],
          variants=[dict(s, cells=c) for s in (dict(lead=(), keep=False), dict(lead=(), keep=True), dict(lead=("B",), keep=True)) for c in ((1, 1), (2, 1), (1, 2), (2, 3), (3, 2))],
          tol=1e-6, samples=2, sym=False)
def round_trip_brillouin(k, lead, keep, cells):
    """Fields of a Brillouin grid of wavevectors, averaged over that grid, on the supercell: amplitudes are recovered."""
    jnp = k.np
    n, m = k.dim("N", 1, 3), k.dim("M", 1, 3)
    ex_ = expansion(k, n)
    b = bshape(k, lead)
    lay = brillouin_layer(k, b, cells, n, ex_)
    fwd, bwd = amps(k, "fwd", b + cells, n, m), amps(k, "bwd", b + cells, n, m)
    nx, ny = grid(k, ex_)
    f = k.m.fields
    e, h = f.fields_from_wave_amplitudes(fwd, bwd, lay)
    (ex, ey, _), (hx, hy, _), _ = f.fields_on_grid(e, h, lay, shape=(nx, ny), num_unit_cells=cells)
    ax = (len(b), len(b) + 1)
    ex, ey, hx, hy = (jnp.mean(t, axis=ax, keepdims=keep or bool(b)) for t in (ex, ey, hx, hy))
    a, c = k.m.sources.amplitudes_for_fields(ex, ey, hx, hy, lay, brillouin_grid_axes=ax)
    k.eq("forward amplitudes recovered", a, fwd)
    k.eq("backward amplitudes recovered", c, bwd)


@contract("C10", funcs=["sources.amplitudes_for_fields"], kind=["shape", "rank", "batch", "divisible_x", "divisible_y"])
def malformed_fields_rejected(k, kind):
    k.opaque_omega_k()
    n, m = k.dim("N", 1, 2), k.dim("M", 1, 3)
    ex_ = expansion(k, n)
    nx, ny = grid(k, ex_)
    src = k.m.sources
    if kind in ("shape", "rank"):
        lay = layer(k, "L", (), ex_, n)
        p = k.dim("P", 1, 6)
        k.assume(p != m)
        g, bad = k.carray("g", (nx, ny, m)), k.carray("bad", (nx, ny, p))
        if kind == "rank":
            g2 = k.carray("g2", (nx, ny))
            k.raises("rank 2 fields", lambda: src.amplitudes_for_fields(g2, g2, g2, g2, lay))
        for i in range(4):
            t = [g] * 4
            t[i] = bad if kind == "shape" else k.carray("g4", (1, nx, ny, m))
            k.raises(f"field {i} of different shape", lambda t=t: src.amplitudes_for_fields(*t, lay))
    elif kind == "batch":
        b, c = k.dim("B", 2, 4), k.dim("C", 2, 4)
        k.assume(b != c)
        lay = layer(k, "L", (b,), ex_, n)
        g = k.carray("g", (c, nx, ny, m))
        k.raises("incompatible batch", lambda: src.amplitudes_for_fields(g, g, g, g, lay))
    else:
        cells = (3, 1) if kind == "divisible_x" else (1, 3)
        px, py = k.dim("px", 1, 7), k.dim("py", 1, 7)
        bad = (3 * px + 1, py) if kind == "divisible_x" else (px, 3 * py + 2)
        lay = layer(k, "L", cells, ex_, n)
        g = k.carray("g", bad + (m,))
        k.raises("not divisible into the Brillouin grid", lambda: src.amplitudes_for_fields(g, g, g, g, lay, brillouin_grid_axes=(0, 1)))
