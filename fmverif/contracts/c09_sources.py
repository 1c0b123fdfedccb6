"""C09: amplitudes radiated by a current sheet between two stacks."""
from ..registry import contract
from .common import bshape
from .c01_basis import lattice
from .layers import layer, smatrix, thickness, expansion, _t

SHAPES = [dict(b0=(), b1=(), bj=()), dict(b0=("B",), b1=("B",), bj=("B",)), dict(b0=("B",), b1=("B",), bj=()), dict(b0=("B1", "B2"), b1=("B1", "B2"), bj=("B1", "B2")),
          dict(b0=("B",), b1=(1,), bj=("B",)), dict(b0=(1,), b1=("B",), bj=("B",)), dict(b0=(), b1=("B",), bj=()), dict(b0=("B",), b1=(), bj=()),
          dict(b0=("B1", "B2"), b1=("B1", "B2"), bj=())]


@contract("C09", funcs=["sources.amplitudes_for_source", "sources.emission_matrix", "sources.polarization_terms"], variants=SHAPES, tol=1e-6, samples=2)
def current_sheet(k, b0, b1, bj):
    jnp = k.np
    k.opaque_omega_k()
    n, m = k.dim("N", 1, 2), k.dim("M", 1, 3)
    ex = expansion(k, n)
    c0, c1 = bshape(k, b0), bshape(k, b1)
    mk = lambda c, b: layer(k, c, b, ex, n, inv=True)[0]
    first, lay = mk("F", c0), mk("L", c0)
    nxt, last = mk("X", c1), mk("Z", c1)
    d, dn = thickness(k, "d"), thickness(k, "dn")
    before = smatrix(k, "A", c0, n, first, thickness(k, "d0"), lay, d)
    after = smatrix(k, "C", c1, n, nxt, dn, last, thickness(k, "dz"))
    b = bshape(k, bj)
    jx, jy, jz = (k.carray(c, b + (n, m)) for c in ("jx", "jy", "jz"))
    b0_end, a_before, b_before, a_after, b_after, an_start = k.m.sources.amplitudes_for_source(jx, jy, jz, before, after)
    # no wave is incident from either end; the amplitudes are related by the scattering matrices
    k.eq("backward amplitude at the start of the stack", b0_end, before.s22 @ b_before)
    k.eq("forward amplitude in the layer before the source", a_before, before.s12 @ b_before)
    k.eq("backward amplitude in the layer after the source", b_after, after.s21 @ a_after)
    k.eq("forward amplitude at the end of the stack", an_start, after.s11 @ a_after)

    def tangential(l, dl, a, b, q_first):
        """omega (-Ey, Ex) and (Hx, Hy) at the sheet from amplitudes (a at the layer start, b at the layer end)."""
        q, phi, om = l.eigenvalues[..., None], l.eigenvectors, l.omega_script_k_matrix
        f = jnp.exp(1j * q * dl)
        fwd, bwd = (a, f * b) if q_first else (f * a, b)
        return om @ (phi @ ((fwd - bwd) / q)), phi @ (fwd + bwd)
    e1, h1 = tangential(lay, d, a_before, b_before, False)
    e2, h2 = tangential(nxt, dn, a_after, b_after, True)
    kt = k.m.basis.transverse_wavevectors(lay.in_plane_wavevector, lay.primitive_lattice_vectors, ex)
    ej = lay.inverse_z_permittivity_matrix @ jz
    kx, ky = kt[..., 0, None], kt[..., 1, None]
    z = 0 * ej
    je = jnp.concatenate([-ky * ej, kx * ej], axis=-2)
    jh = jnp.concatenate([jy + z, -jx + z], axis=-2)
    k.eq("jump of the tangential electric field", e2 - e1, je + 0 * (e2 - e1))
    k.eq("jump of the tangential magnetic field", h2 - h1, jh + 0 * (h2 - h1))


SRC = [dict(bk=bk, bl=bl) for bk, bl in (((), ()), (("B",), ("B",)), (("B",), ()), ((), ("B",)), (("B1", "B2"), ("B1", "B2")), (("B1", 1), (1, "B2")))]


@contract("C09", funcs=["sources.dirac_delta_source", "sources.gaussian_source"], variants=SRC, samples=3)
def point_and_gaussian_sources(k, bk, bl):
    jnp = k.np
    n, m = k.dim("N", 1, 4), k.dim("M", 1, 3)
    ex = expansion(k, n)
    bk, bl = bshape(k, bk), bshape(k, bl)
    kin = k.rarray("kin", bk + (2,))
    lv = lattice(k, bl, "lv")
    loc = k.rarray("loc", (m, 2))
    w = k.rarray("fwhm", (), sign="+")
    src = k.m.sources
    out = src.dirac_delta_source(loc, kin, lv, ex)
    g = src.gaussian_source(w, loc, kin, lv, ex)
    kt = k.m.basis.transverse_wavevectors(kin, lv, ex)
    kx, ky = kt[..., 0, None], kt[..., 1, None]
    want = jnp.exp(-1j * (kx * loc[:, 0] + ky * loc[:, 1]))
    k.eq("point source coefficients", out, want)
    sigma = w / (2 * jnp.sqrt(2 * jnp.log(2)))
    k.eq("Gaussian source coefficients", g, want * jnp.exp(-sigma ** 2 * (kx ** 2 + ky ** 2) / 2))
    k.eq("a Gaussian of zero width is a point source", src.gaussian_source(0 * w, loc, kin, lv, ex), want)


@contract("C09", funcs=["sources.dirac_delta_source", "sources.gaussian_source", "sources.polarization_terms"], kind=["rank", "axis", "kin", "currents"])
def malformed_sources_rejected(k, kind):
    n, m = k.dim("N", 1, 4), k.dim("M", 1, 3)
    ex = expansion(k, n)
    lv = lattice(k, (), "lv")
    src = k.m.sources
    w = k.rarray("fwhm", (), sign="+")
    three = k.dim("T", 1, 5)
    k.assume(three != 2)
    kin, loc = k.rarray("kin", (2,)), k.rarray("loc", (m, 2))
    if kind == "rank":
        bad = [(k.rarray("l1", (2,)), kin), (k.rarray("l3", (m, m, 2)), kin)]
    elif kind == "axis":
        bad = [(k.rarray("lt", (m, three)), kin)]
    elif kind == "kin":
        bad = [(loc, k.rarray("kt", (three,)))]
    else:
        k.opaque_omega_k()
        lay = layer(k, "L", (), ex, n)
        p = k.dim("P", 1, 4)
        k.assume(p != m)
        g, h = k.carray("g", (n, m)), k.carray("h", (n, p))
        for i, t in enumerate([(h, g, g), (g, h, g), (g, g, h)]):
            k.raises(f"currents of different shape {i}", lambda t=t: src.polarization_terms(*t, layer_solve_result=lay))
        return
    for i, (l, q) in enumerate(bad):
        k.raises(f"point source {i}", lambda l=l, q=q: src.dirac_delta_source(l, q, lv, ex))
        k.raises(f"Gaussian source {i}", lambda l=l, q=q: src.gaussian_source(w, l, q, lv, ex))
