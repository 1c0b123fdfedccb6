"""C15: farfield."""
from ..registry import contract
from .common import bshape
from .layers import expansion
from .c01_basis import lattice


def location(k, ex_, bz):
    """k-space grid location of order n and Brillouin point (i, j), and the size of the grid."""
    jnp = k.np
    g = jnp.asarray(ex_.basis_coefficients)
    lo = [jnp.amin(g[:, c]) for c in (0, 1)]
    hi = [jnp.amax(g[:, c]) for c in (0, 1)]
    size = tuple((hi[c] - lo[c] + 1) * bz[c] for c in (0, 1))
    return (lambda n, c, q: (g[n, c] - lo[c]) * bz[c] + q), size


def hits(k, ex_, bz, shape):
    """(bx, by, N, kx, ky): order n at Brillouin point (i, j) is at location (I, J)."""
    jnp = k.np
    loc, _ = location(k, ex_, bz)
    li = loc(slice(None), 0, jnp.arange(bz[0])[:, None])      # (bx, N)
    lj = loc(slice(None), 1, jnp.arange(bz[1])[:, None])      # (by, N)
    return ((li[:, None, :, None, None] == jnp.arange(shape[0])[:, None])
            & (lj[None, :, :, None, None] == jnp.arange(shape[1])))


def check_unflattened(k, ex_, bz, flat, out, what):
    """`flat` (..., bx, by, N) and `out` (..., kx, ky)."""
    jnp = k.np
    n = ex_.basis_coefficients.shape[0]
    loc, size = location(k, ex_, bz)
    k.true(f"{what}: size of the k-space grid", out.shape[-2] == size[0])
    k.true(f"{what}: size of the k-space grid, second axis", out.shape[-1] == size[1])
    i, j, m = k.int("i", 0, bz[0]), k.int("j", 0, bz[1]), k.int("m", 0, n)
    k.eq(f"{what}: value at its location", out[..., loc(m, 0, i), loc(m, 1, j)], flat[..., i, j, m])
    hit = hits(k, ex_, bz, out.shape[-2:])
    missing = jnp.isnan(out)
    k.eq(f"{what}: missing exactly where no order is located", jnp.where(missing, 0, 1),
         jnp.broadcast_to(jnp.sum(hit, axis=(0, 1, 2)), out.shape))


LEAD = [(), ("B",), ("B1", "B2")]
BZ = [("bx", "by"), (1, 1)]


@contract("C15", funcs=["farfield.unflatten"], lead=LEAD, bz=BZ, samples=4)
def unflatten_location(k, lead, bz):
    """The value of order n at Brillouin point (i, j) is at the location of (i, j, n); other locations are missing."""
    n = k.dim("N", 1, 4)
    ex_ = expansion(k, n)
    bz = bshape(k, bz, 1)
    flat = k.rarray("flat", bshape(k, lead) + bz + (n,))
    check_unflattened(k, ex_, bz, flat, k.m.farfield.unflatten(flat, ex_), "unflatten")


# (leading batch, between the Brillouin axes, trailing batch, Brillouin axes counted from the end)
LAYOUT = [((), (), (), False), (("B",), (), (), False), ((), (), ("W",), True), (("B",), (), ("W",), False),
          (("B",), (), ("W",), True), ((), ("M",), (), False), (("B",), ("M",), ("W",), True)]


def layout(k, layout_, bz, tail):
    """Shape (lead, bx, mid, by, trail) + tail, the Brillouin axes, and the view with axes (lead, mid, trail, tail..., bx, by)."""
    lead, mid, trail, neg = layout_
    lead, mid, trail = bshape(k, lead), bshape(k, mid), bshape(k, trail)
    shape = lead + (bz[0],) + mid + (bz[1],) + trail + tail
    axes = (len(lead), len(lead) + 1 + len(mid))
    if neg:
        axes = tuple(a - len(shape) for a in axes)
    return shape, axes


@contract("C15", funcs=["farfield.unflatten_flux", "farfield.unflatten"], lay=LAYOUT, bz=[("bx", "by")], samples=2)
def unflatten_flux(k, lay, bz):
    """Polarizations and sources are kept on their axes, batch axes keep their order."""
    jnp = k.np
    n, s = k.dim("N", 1, 4), k.dim("S", 1)
    ex_ = expansion(k, n)
    bz = bshape(k, bz, 1)
    shape, axes = layout(k, lay, bz, (2 * n, s))
    flux = k.rarray("flux", shape)
    out = k.m.farfield.unflatten_flux(flux, ex_, axes)
    parts = jnp.stack([flux[..., :n, :], flux[..., n:, :]], axis=-1)          # (..., N, S, 2)
    nl, nm, nt = (len(lay[q]) for q in range(3))
    nd = nl + nm + nt + 2
    parts = jnp.moveaxis(parts, -3, -1)                                        # (..., S, 2, N)
    batch = [a for a in range(nd) if a not in (nl, nl + 1 + nm)]
    flat = jnp.transpose(parts, batch + [nd + 1, nd, nl, nl + 1 + nm, nd + 2])  # (batch, 2, S, bx, by, N)
    k.true("trailing axes", out.shape[-2:] == (2, s))
    check_unflattened(k, ex_, bz, flat, jnp.moveaxis(out, (-4, -3), (-2, -1)), "flux")


@contract("C15", funcs=["farfield.unflatten_transverse_wavevectors", "farfield.unflatten"], lay=LAYOUT, bz=[("bx", "by")], samples=2)
def unflatten_wavevectors(k, lay, bz):
    jnp = k.np
    n = k.dim("N", 1, 4)
    ex_ = expansion(k, n)
    bz = bshape(k, bz, 1)
    shape, axes = layout(k, lay, bz, (n, 2))
    kt = k.rarray("kt", shape)
    out = k.m.farfield.unflatten_transverse_wavevectors(kt, ex_, axes)
    nl, nm, nt = (len(lay[q]) for q in range(3))
    nd = nl + nm + nt + 2
    batch = [a for a in range(nd) if a not in (nl, nl + 1 + nm)]
    flat = jnp.transpose(kt, batch + [nd + 1, nl, nl + 1 + nm, nd])
    k.true("trailing axis", out.shape[-1] == 2)
    check_unflattened(k, ex_, bz, flat, jnp.moveaxis(out, -1, -3), "wavevectors")


@contract("C15", funcs=["farfield.angles_from_unflattened_transverse_wavevectors"], b=LEAD, samples=3)
def angles(k, b):
    """sin(polar) = |k| wavelength / 2 pi and the azimuth is the direction of k; evanescent orders have polar angle pi/2."""
    jnp = k.np
    b = bshape(k, b)
    nx, ny = k.dim("kx", 1), k.dim("ky", 1)
    kt = k.rarray("kt", b + (nx, ny, 2))
    lam = k.rarray("lam", b, sign="+")
    polar, azimuth = k.m.farfield.angles_from_unflattened_transverse_wavevectors(kt, lam)
    mag = jnp.sqrt(kt[..., 0] ** 2 + kt[..., 1] ** 2)
    sin = mag * lam[..., None, None] / (2 * jnp.pi)
    k.eq("polar angle", polar, jnp.where(sin > 1, jnp.pi / 2, jnp.arcsin(sin)))
    k.eq("azimuth is the direction of k", mag * jnp.exp(1j * azimuth), kt[..., 0] + 1j * kt[..., 1])
    k.eq("azimuthal angle", azimuth, jnp.angle(kt[..., 0] + 1j * kt[..., 1]))


@contract("C15", funcs=["farfield.solid_angle_from_unflattened_transverse_wavevectors"], b=[(), ("B",)], samples=4)
def solid_angle(k, b):
    """In the interior of the grid the solid angle is the area of the cell between neighbouring k-points over cos(polar)."""
    jnp = k.np
    b = bshape(k, b)
    nx, ny = k.dim("kx", 1), k.dim("ky", 1)
    lam = k.rarray("lam", b, sign="+")
    kt = k.rarray("kt", b + (nx + 2, ny + 2, 2), lo=-1, hi=1)
    sa = k.m.farfield.solid_angle_from_unflattened_transverse_wavevectors(kt, lam)
    u = kt * lam[..., None, None, None] / (2 * jnp.pi)
    k.true("shape", sa.shape == kt.shape[:-1])
    corner = lambda di, dj: (u[..., di:di + nx + 1, dj:dj + ny + 1, :])
    v = (corner(0, 0) + corner(0, 1) + corner(1, 0) + corner(1, 1)) / 4        # vertices around the interior points
    e1 = v[..., :nx, 1:, :] - v[..., :nx, :ny, :]
    e2 = v[..., 1:, :ny, :] - v[..., :nx, :ny, :]
    area = jnp.abs(e1[..., 0] * e2[..., 1] - e2[..., 0] * e1[..., 1])
    mid = u[..., 1:-1, 1:-1, :]
    cos = jnp.cos(jnp.arcsin(jnp.sqrt(mid[..., 0] ** 2 + mid[..., 1] ** 2)))
    k.eq("cell area over cos(polar)", sa[..., 1:-1, 1:-1], area / cos)


def far_inputs(k, lay, ref=False):
    """Flux with the given layout, wavelength and wavevector compatible with its batch."""
    n, s = k.dim("N", 1, 3), k.dim("S", 1, 3)
    ex_ = expansion(k, n)
    bz = bshape(k, ("bx", "by"), 1)
    shape, axes = layout(k, lay, bz, (2 * n, s))
    batch = shape[:-2]
    pos = [a % len(shape) for a in axes]
    lam_shape = tuple(1 if a in pos else d for a, d in enumerate(batch))
    lam = k.rarray("lam", lam_shape, sign="+")
    kin = k.rarray("kin", batch + (2,), lo=-1, hi=1)
    return ex_, bz, shape, axes, pos, lam, kin


@contract("C15", funcs=["farfield.integrated_flux", "farfield._integrated_flux_weights", "farfield._integrated_flux_upsampled",
                        "farfield.unflatten_flux", "farfield.unflatten_transverse_wavevectors"],
          lay=[((), (), (), False), (("B",), (), (), False), (("B",), (), ("W",), True), ((), ("M",), (), True)], samples=2, budget=120)
def flux_plain_sum(k, lay):
    """With no angular restriction and no upsampling the integrated flux is the plain sum."""
    jnp = k.np
    ex_, bz, shape, axes, pos, lam, kin = far_inputs(k, lay)
    flux = k.rarray("flux", shape)
    out = k.m.farfield.integrated_flux(flux=flux, wavelength=lam, in_plane_wavevector=kin, primitive_lattice_vectors=lattice(k),
                                       expansion=ex_, brillouin_grid_axes=axes, angle_bounds_fn=lambda p, a: jnp.ones_like(p, dtype=bool),
                                       upsample_factor=1)
    k.eq("plain sum", out, jnp.sum(flux, axis=tuple(pos) + (len(shape) - 2,)))


def arbitrary_angles(k):
    """Contract of the angle computation used for linearity: any function of wavevectors and wavelength alone."""
    k.abstract(k.m.farfield, "angles_from_unflattened_transverse_wavevectors",
               lambda transverse_wavevectors, wavelength: (k.rarray("P", transverse_wavevectors.shape[:-1]), k.rarray("A", transverse_wavevectors.shape[:-1])))


@contract("C15", funcs=["farfield.integrated_flux", "farfield._integrated_flux_weights"],
          lay=[((), (), (), False), (("B",), (), ("W",), True)], up=[1, 2], samples=2, budget=120)
def flux_linear(k, lay, up):
    """The integrated flux of a source is a linear function of the flux of that source, the same for every source."""
    jnp = k.np
    ex_, bz, shape, axes, pos, lam, kin = far_inputs(k, lay)
    f1, f2 = k.rarray("f1", shape), k.rarray("f2", shape)
    a, b = k.rarray("a", ()), k.rarray("b", ())
    lat = lattice(k)
    arbitrary_angles(k)
    sel = k.ufun("sel", "r")
    run = lambda f: k.m.farfield.integrated_flux(flux=f, wavelength=lam, in_plane_wavevector=kin, primitive_lattice_vectors=lat,
                                                 expansion=ex_, brillouin_grid_axes=axes,
                                                 angle_bounds_fn=lambda p, az: sel(p, az) > 0.0, upsample_factor=up)
    o1, o2 = run(f1), run(f2)
    k.eq("linear", run(a * f1 + b * f2), a * o1 + b * o2)
    s = k.int("s", 0, shape[-1])
    k.eq("per source", run(f1[..., s][..., None])[..., 0], o1[..., s])


@contract("C15", funcs=["farfield.farfield_profile"], lay=[((), (), (), False), (("B",), (), (), True), (("B",), (), ("W",), True), ((), ("M",), ("W",), False)],
          samples=2, budget=120)
def profile(k, lay):
    """Angles, solid angle and flux per solid angle refer to the same k-space location; batch entries are not mixed."""
    jnp, ff = k.np, k.m.farfield
    ex_, bz, shape, axes, pos, lam, kin = far_inputs(k, lay)
    flux = k.rarray("flux", shape)
    lat = lattice(k)
    k.abstract(ff, "solid_angle_from_unflattened_transverse_wavevectors",
               lambda transverse_wavevectors, wavelength: k.carray("SA", transverse_wavevectors.shape[:-1]))
    polar, azimuth, sa, power = ff.farfield_profile(flux, lam, kin, lat, ex_, axes)
    n = ex_.basis_coefficients.shape[0]
    loc, size = location(k, ex_, bz)
    i, j, m = k.int("i", 0, bz[0]), k.int("j", 0, bz[1]), k.int("m", 0, n)
    q = (Ellipsis, loc(m, 0, i), loc(m, 1, j))
    at = lambda x: x[(slice(None),) * pos[0] + (i,) + (slice(None),) * (pos[1] - pos[0] - 1) + (j,)]
    kt = at(k.m.basis.transverse_wavevectors(kin, lat, ex_))[..., m, :]
    lam1 = at(jnp.broadcast_to(lam, shape[:-2]))
    mag = jnp.sqrt(kt[..., 0] ** 2 + kt[..., 1] ** 2)
    sin = mag * lam1 / (2 * jnp.pi)
    k.eq("polar angle", polar[q], jnp.where(sin > 1, jnp.pi / 2, jnp.arcsin(sin)))
    k.eq("azimuthal angle", azimuth[q], jnp.angle(kt[..., 0] + 1j * kt[..., 1]))
    f = at(flux)
    k.eq("flux per solid angle, first polarization", power[q + (0, slice(None))], f[..., m, :] / sa[q][..., None])
    k.eq("flux per solid angle, second polarization", power[q + (1, slice(None))], f[..., n + m, :] / sa[q][..., None])
