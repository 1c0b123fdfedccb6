"""C01: reciprocal lattice, wavevectors, coordinates."""
from ..registry import contract
from .common import bshape, BATCH


def lattice(k, b=(), name="lv"):
    u = k.rarray(name + "_u", tuple(b) + (2,))
    v = k.rarray(name + "_v", tuple(b) + (2,))
    return k.m.basis.LatticeVectors(u=u, v=v)


def recip(k, lv):
    """Spec: the dual basis."""
    jnp = k.np
    d = lv.u[..., 0] * lv.v[..., 1] - lv.u[..., 1] * lv.v[..., 0]
    ru = jnp.stack([lv.v[..., 1] / d, -lv.v[..., 0] / d], axis=-1)
    rv = jnp.stack([-lv.u[..., 1] / d, lv.u[..., 0] / d], axis=-1)
    return ru, rv


@contract("C01", funcs=["basis.reciprocal", "basis.LatticeVectors.reciprocal", "basis._cross_product"], batch=BATCH, as_property=[False, True])
def reciprocal_dual_basis(k, batch, as_property):
    jnp = k.np
    lv = lattice(k, bshape(k, batch))
    r = lv.reciprocal if as_property else k.m.basis.reciprocal(lv)
    k.shape("shape u'", r.u, lv.u.shape)
    k.shape("shape v'", r.v, lv.v.shape)
    dot = lambda a, b: jnp.sum(a * b, axis=-1)
    one = jnp.ones(lv.u.shape[:-1])
    k.eq("u.u' = 1", dot(lv.u, r.u), one)
    k.eq("v.v' = 1", dot(lv.v, r.v), one)
    k.eq("u.v' = 0", dot(lv.u, r.v), 0 * one)
    k.eq("v.u' = 0", dot(lv.v, r.u), 0 * one)


@contract("C01", funcs=["basis.reciprocal"], batch=[(), ("B",)])
def reciprocal_involution(k, batch):
    lv = lattice(k, bshape(k, batch))
    rr = lv.reciprocal.reciprocal
    k.eq("reciprocal of reciprocal: u", rr.u, lv.u)
    k.eq("reciprocal of reciprocal: v", rr.v, lv.v)


@contract("C01", funcs=["basis.transverse_wavevectors"],
          variants=[dict(kb=a, lb=b) for a in BATCH for b in [(), "same", "one"]])
def transverse_wavevectors(k, kb, lb):
    jnp = k.np
    kb = bshape(k, kb)
    lb = {(): (), "same": kb, "one": (1,) * len(kb)}[lb]
    lv = lattice(k, lb)
    n = k.dim("N")
    ex = k.expansion("exp", n)
    k0 = k.rarray("k0", kb + (2,))
    kt = k.m.basis.transverse_wavevectors(k0, lv, ex)
    k.shape("shape", kt, kb + (n, 2))
    ru, rv = recip(k, lv)
    g = ex.basis_coefficients
    want = k0[..., None, :] + 2 * jnp.pi * (g[:, 0, None] * ru[..., None, :] + g[:, 1, None] * rv[..., None, :])
    k.eq("k = k0 + 2 pi (i u' + j v')", kt, want)


@contract("C01", funcs=["basis.brillouin_zone_in_plane_wavevector"], batch=[(), ("B",)])
def brillouin_grid(k, batch):
    jnp = k.np
    b = bshape(k, batch)
    lv = lattice(k, b)
    ni, nj = k.dim("ni"), k.dim("nj")
    kk = k.m.basis.brillouin_zone_in_plane_wavevector((ni, nj), lv)
    k.shape("shape", kk, b + (ni, nj, 2))
    ru, rv = recip(k, lv)
    ci = (jnp.arange(ni) + 0.5) / ni - 0.5
    cj = (jnp.arange(nj) + 0.5) / nj - 0.5
    want = 2 * jnp.pi * (ci[:, None, None] * ru[..., None, None, :] + cj[None, :, None] * rv[..., None, None, :])
    k.eq("cell centres", kk, want)


@contract("C01", funcs=["basis.brillouin_zone_in_plane_wavevector"], bad=[(0, 1), (1, 0), (2, 0), (0, 2), (2, -1), (-1, 2), (-3, -1), (7, -2), (1,), (2, 2, 2), ()])
def brillouin_grid_rejects(k, bad):
    lv = lattice(k)
    k.raises("non-positive or missing size rejected", lambda: k.m.basis.brillouin_zone_in_plane_wavevector(bad, lv))


@contract("C01", funcs=["basis.brillouin_zone_in_plane_wavevector"], side=[0, 1])
def brillouin_grid_rejects_all(k, side):
    lv = lattice(k)
    n, m = k.dim("n"), k.dim("m", 0)
    shape = (n, -m) if side else (-m, n)
    k.raises("non-positive size rejected", lambda: k.m.basis.brillouin_zone_in_plane_wavevector(shape, lv), exc=(ValueError, TypeError, AssertionError))


@contract("C01", funcs=["basis.unit_cell_coordinates"], batch=[(), ("B",), ("B1", "B2")])
def unit_cell_coordinates(k, batch):
    jnp = k.np
    b = bshape(k, batch)
    lv = lattice(k, b)
    nx, ny, mx, my = k.dim("nx"), k.dim("ny"), k.dim("mx"), k.dim("my")
    x, y = k.m.basis.unit_cell_coordinates(lv, (nx, ny), (mx, my))
    k.shape("shape x", x, b + (nx * mx, ny * my))
    i = jnp.arange(nx * mx)[:, None] / nx
    j = jnp.arange(ny * my)[None, :] / ny
    for c, (nm, z) in enumerate([("x", x), ("y", y)]):
        k.eq(nm + " = i/nx u + j/ny v", z, i * lv.u[..., c, None, None] + j * lv.v[..., c, None, None])


@contract("C01", funcs=["basis.plane_wave_in_plane_wavevector", "utils.angular_frequency_for_wavelength"], batch=BATCH, eps=["r", "c"])
def plane_wave(k, batch, eps):
    jnp = k.np
    b = bshape(k, batch)
    wl = k.rarray("wavelength", b, sign="+")
    th, ph = k.rarray("polar", b), k.rarray("azimuth", b)
    e = k.rarray("eps", b, sign="+") if eps == "r" else k.rarray("eps", b, sign="+") + 1j * k.rarray("epsi", b)
    q = k.m.basis.plane_wave_in_plane_wavevector(wl, th, ph, e)
    k.shape("shape", q, b + (2,))
    kt = 2 * jnp.pi / wl * jnp.sqrt(jnp.real(e)) * jnp.sin(th)
    k.eq("kx", q[..., 0], kt * jnp.cos(ph))
    k.eq("ky", q[..., 1], kt * jnp.sin(ph))
    k.eq("frequency", k.m.utils.angular_frequency_for_wavelength(wl), 2 * jnp.pi / wl)


@contract("C01", funcs=["basis.LatticeVectors.__post_init__"], bad=["u", "v", "both"])
def lattice_rejects(k, bad):
    n = k.dim("n", 3)
    good = k.rarray("g", (2,))
    w = k.rarray("w", (n,))
    u = w if bad in ("u", "both") else good
    v = w if bad in ("v", "both") else good
    k.raises("trailing size other than 2 rejected", lambda: k.m.basis.LatticeVectors(u=u, v=v))
