"""C04: layer eigenmodes satisfy Maxwell's equations for the layer's media."""
from ..registry import contract
from .common import bshape
from .c01_basis import lattice, recip

BATCH = [(), ("B",), ("B1", "B2")]
# batch shapes of (wavelength, in-plane wavevector, lattice, media)
MIXED = [((), (), (), ()), (("B",), ("B",), (), ("B",)), ((), (), (), ("B",)), (("B",), (), (), ()), ((), ("B",), (), ()), ((), (), ("B",), ()),
         (("B1", 1), ("B2",), (), (1, 1)), ((), ("B1", 1), (), ("B2",)), (("B",), (), ("B",), (1,)), ((), (1, "B2"), ("B1", 1), ())]


def wavevectors(k, kin, lv, ex):
    jnp = k.np
    ru, rv = recip(k, lv)
    g = ex.basis_coefficients
    kt = kin[..., None, :] + 2 * jnp.pi * (g[:, 0, None] * ru[..., None, :] + g[:, 1, None] * rv[..., None, :])
    return kt[..., 0], kt[..., 1]


def script_k(k, zinv, kx, ky):
    jnp = k.np
    r = lambda x: x[..., :, None]
    c = lambda x: x[..., None, :]
    return jnp.block([[r(ky) * zinv * c(ky), -r(ky) * zinv * c(kx)], [-r(kx) * zinv * c(ky), r(kx) * zinv * c(kx)]])


def k_matrix(k, zinv, kx, ky):
    jnp = k.np
    r = lambda x: x[..., :, None]
    c = lambda x: x[..., None, :]
    return jnp.block([[r(kx) * zinv * c(kx), r(kx) * zinv * c(ky)], [r(ky) * zinv * c(kx), r(ky) * zinv * c(ky)]])


def omega(k, wl):
    return 2 * k.np.pi / wl


@contract("C04", funcs=["fmm_matrices.script_k_matrix_patterned", "fmm_matrices.k_matrix_patterned"], b=BATCH, kind=["c", "r"])
def k_matrices(k, b, kind):
    """K and script-K of the (inverse of the) z-component matrix, in their block order and sign."""
    b = bshape(k, b)
    n = k.dim("N", 1)
    z, zinv = k.invertible("Z", b + (n, n))
    kt = (k.rarray if kind == "r" else k.carray)("kt", b + (n, 2))
    kx, ky = kt[..., 0], kt[..., 1]
    k.eq("script K", k.m.fmm_matrices.script_k_matrix_patterned(z, kt), script_k(k, zinv, kx, ky))
    k.eq("K", k.m.fmm_matrices.k_matrix_patterned(z, kt), k_matrix(k, zinv, kx, ky))


@contract("C04", funcs=["fmm_matrices.omega_script_k_matrix_patterned", "fmm_matrices.script_k_matrix_patterned", "utils.angular_frequency_for_wavelength"],
          variants=[dict(wb=w, b=b) for b in BATCH for w in ("same", "none", "one")])
def omega_script_k(k, wb, b):
    """Omega = w^2 M - script K."""
    b = bshape(k, b)
    wb = {"same": b, "none": (), "one": (1,) * len(b)}[wb]
    n = k.dim("N", 1)
    z, zinv = k.invertible("Z", b + (n, n))
    mu = k.carray("M", b + (2 * n, 2 * n))
    kt = k.rarray("kt", b + (n, 2))
    wl = k.rarray("wl", wb, sign="+")
    got = k.m.fmm_matrices.omega_script_k_matrix_patterned(wl, z, mu, kt)
    k.eq("w^2 M - script K", got, omega(k, wl)[..., None, None] ** 2 * mu - script_k(k, zinv, kt[..., 0], kt[..., 1]))


@contract("C04", funcs=["fmm_matrices.script_k_matrix_uniform"], b=BATCH, kind=["c", "r"])
def script_k_uniform(k, b, kind):
    b = bshape(k, b)
    n = k.dim("N", 1)
    eps = (k.rarray if kind == "r" else k.carray)("eps", b)
    kt = k.rarray("kt", b + (n, 2))
    zinv = (1 / eps)[..., None, None] * k.np.eye(n)
    k.eq("script K", k.m.fmm_matrices.script_k_matrix_uniform(eps, kt), script_k(k, zinv, kt[..., 0], kt[..., 1]))


def order(k, nn):
    """One term, or any number of at least two."""
    return 1 if nn == 1 else k.dim("N", 2)


def inputs(k, mixed, n):
    wb, kb, lb, mb = (bshape(k, x) for x in mixed)
    ex = k.expansion("ex", n)
    return k.rarray("wl", wb, sign="+"), k.rarray("kin", kb + (2,)), lattice(k, lb), ex, mb


def batch_of(k, wl, kin, lv, m):
    bb = ()
    for s in (tuple(wl.shape), tuple(kin.shape[:-1]), tuple(lv.u.shape[:-1]), tuple(m.shape[:-2])):
        n = max(len(s), len(bb))
        s, bb = (1,) * (n - len(s)) + s, (1,) * (n - len(bb)) + bb
        bb = tuple(y if (isinstance(x, int) and x == 1) else x for x, y in zip(s, bb))
    return bb


def padded(x, rank):
    return x[(None,) * (rank - x.ndim) + (...,)]


def check_modes(k, r, wl, kin, lv, ex, m, E, M, zeps, zmu, zeps_inv, zmu_inv):
    """(E Omega - K M) phi = phi q^2 with non-negative imaginary parts of q; omega_script_k_matrix is that Omega."""
    jnp = k.np
    n = ex.num_terms
    bb = batch_of(k, wl, kin, lv, m)
    nb = len(bb)
    k.shape("eigenvalues shape", r.eigenvalues, bb + (2 * n,))
    k.shape("eigenvectors shape", r.eigenvectors, bb + (2 * n, 2 * n))
    wl, kin = padded(wl, nb), padded(kin, nb + 1)
    lv = k.m.basis.LatticeVectors(u=padded(lv.u, nb + 1), v=padded(lv.v, nb + 1))
    kx, ky = wavevectors(k, kin, lv, ex)
    Om = omega(k, wl)[..., None, None] ** 2 * M - script_k(k, zeps_inv, kx, ky)
    K = k_matrix(k, zmu_inv, kx, ky)
    q, phi = r.eigenvalues, r.eigenvectors
    k.eq("omega_script_k_matrix", r.omega_script_k_matrix, Om)
    k.eq("(E Omega - K M) phi = phi q^2", (E @ Om - K @ M) @ phi, phi * q[..., None, :] ** 2)
    k.true("non-negative imaginary part", jnp.imag(q) >= 0)
    k.eq("wavelength", r.wavelength, wl)
    k.eq("in-plane wavevector", r.in_plane_wavevector, kin)
    k.eq("lattice u", r.primitive_lattice_vectors.u, lv.u)
    k.eq("lattice v", r.primitive_lattice_vectors.v, lv.v)
    k.eq("expansion", r.expansion.basis_coefficients, ex.basis_coefficients)


def full(k, x, bb, n):
    return k.np.broadcast_to(x, bb + (n, n)) * 1


def same_matrix(k, name, got, want):
    """Equal after broadcasting the batch dimensions."""
    k.true(name + " rank", got.ndim == want.ndim)
    k.eq(name, got + 0 * want, want + 0 * got)


@contract("C04", funcs=["fmm.eigensolve_isotropic_media", "fmm._eigensolve_uniform_isotropic_media", "fmm._select_eigenvalues_sign", "fmm._validate_and_broadcast",
                        "fmm.LayerSolveResult.omega_script_k_matrix"], variants=[dict(mixed=m, kind=c, nn=nn) for m in MIXED for c in "cr" for nn in (1, "N") if nn != 1 or m in MIXED[:2]], tol=1e-6, samples=2)
def uniform_isotropic(k, mixed, kind, nn):
    """Plane waves with q = +-sqrt(eps w^2 - kx^2 - ky^2)."""
    jnp = k.np
    n = order(k, nn)
    wl, kin, lv, ex, mb = inputs(k, mixed, n)
    eps = k.carray("eps", mb + (1, 1)) if kind == "c" else k.rarray("eps", mb + (1, 1))
    r = k.m.fmm.eigensolve_isotropic_media(wl, kin, lv, eps, ex, k.m.fmm.Formulation.FFT)
    nb = len(batch_of(k, wl, kin, lv, eps))
    e = padded(eps, nb + 2)
    eye, eye2 = jnp.eye(n), jnp.eye(2 * n)
    check_modes(k, r, wl, kin, lv, ex, eps, E=e * eye2, M=eye2, zeps=e * eye, zmu=eye, zeps_inv=1 / e * eye, zmu_inv=eye)
    bb = batch_of(k, wl, kin, lv, eps)
    kx, ky = wavevectors(k, padded(kin, nb + 1), k.m.basis.LatticeVectors(u=padded(lv.u, nb + 1), v=padded(lv.v, nb + 1)), ex)
    q2 = e[..., 0] * omega(k, padded(wl, nb))[..., None] ** 2 - kx ** 2 - ky ** 2
    k.eq("q^2, first half", r.eigenvalues[..., :n] ** 2, q2 + 0 * r.eigenvalues[..., :n])
    k.eq("q^2, second half", r.eigenvalues[..., n:] ** 2, q2 + 0 * r.eigenvalues[..., :n])
    k.eq("plane waves", r.eigenvectors, jnp.broadcast_to(eye2, bb + (2 * n, 2 * n)))
    same_matrix(k, "z permittivity", r.z_permittivity_matrix, e * eye)
    same_matrix(k, "inverse z permittivity", r.inverse_z_permittivity_matrix, 1 / e * eye)
    same_matrix(k, "z permeability", r.z_permeability_matrix, jnp.ones(e.shape) * eye)
    same_matrix(k, "inverse z permeability", r.inverse_z_permeability_matrix, jnp.ones(e.shape) * eye)
    same_matrix(k, "transverse permeability", r.transverse_permeability_matrix, jnp.ones(e.shape) * eye2)
    k.true("no tangent field", r.tangent_vector_field is None)


NAMES = ("xx", "xy", "yx", "yy", "zz")


def tensors(k, kind, shape):
    """Arbitrary permittivity and permeability components (in-plane tensors and zz), keyword arguments of the general eigensolve."""
    kw = {}
    for p in ("permittivity", "permeability"):
        for c in NAMES:
            mk = k.rarray if kind == "r" else k.carray
            a = mk(f"{p}_{c}", shape)
            kw[f"{p}_{c}"] = a if k.symbolic or c in ("xy", "yx") else a + (3 if c != "zz" else 2.5) * k.np.sign(k.np.real(a) + 0.1)
    return kw


def diagonal_blocks(k, blocks, n):
    return k.np.block([[b * k.np.eye(n) for b in row] for row in blocks])


@contract("C04", funcs=["fmm.eigensolve_general_anisotropic_media", "fmm._eigensolve_uniform_general_anisotropic_media", "fmm._numerical_eigensolve",
                        "fmm._select_eigenvalues_sign", "fmm._validate_and_broadcast"],
          variants=[dict(mixed=m, kind=c, nn=nn, mu=mu) for m in MIXED for c in "cr" for nn in (1, "N") for mu in (False, True)
                    if (nn != 1 or m in MIXED[:2]) and (c == "c" or m in MIXED[:3])], tol=1e-6, samples=1)
def uniform_anisotropic(k, mixed, kind, nn, mu):
    """Uniform anisotropic (magnetic) media: [-Dy, Dx] = E [-Ey, Ex] and [Bx, By] = M [Hx, Hy] with the given components."""
    jnp = k.np
    n = order(k, nn)
    wl, kin, lv, ex, mb = inputs(k, mixed, n)
    kw = tensors(k, kind, mb + (1, 1))
    eps = {c: kw["permittivity_" + c] for c in NAMES}
    if mu:
        r = k.m.fmm.eigensolve_general_anisotropic_media(wl, kin, lv, expansion=ex, formulation=k.m.fmm.Formulation.FFT, **kw)
        m = {c: kw["permeability_" + c] for c in NAMES}
    else:
        r = k.m.fmm.eigensolve_anisotropic_media(wl, kin, lv, expansion=ex, formulation=k.m.fmm.Formulation.FFT,
                                                 **{q: v for q, v in kw.items() if "permittivity" in q})
        one = jnp.ones(mb + (1, 1))
        m = dict(xx=one, xy=0 * one, yx=0 * one, yy=one, zz=one)
    nb = len(batch_of(k, wl, kin, lv, eps["xx"]))
    eps, m = ({c: padded(v, nb + 2) for c, v in d.items()} for d in (eps, m))
    E = diagonal_blocks(k, [[eps["yy"], -eps["yx"]], [-eps["xy"], eps["xx"]]], n)
    M = diagonal_blocks(k, [[m["xx"], m["xy"]], [m["yx"], m["yy"]]], n)
    eye = jnp.eye(n)
    check_modes(k, r, wl, kin, lv, ex, kw["permittivity_xx"], E, M, zeps=eps["zz"] * eye, zmu=m["zz"] * eye, zeps_inv=1 / eps["zz"] * eye, zmu_inv=1 / m["zz"] * eye)
    same_matrix(k, "z permittivity", r.z_permittivity_matrix, eps["zz"] * eye)
    same_matrix(k, "inverse z permittivity", r.inverse_z_permittivity_matrix, 1 / eps["zz"] * eye)
    same_matrix(k, "z permeability", r.z_permeability_matrix, m["zz"] * eye)
    same_matrix(k, "inverse z permeability", r.inverse_z_permeability_matrix, 1 / m["zz"] * eye)
    same_matrix(k, "transverse permeability", r.transverse_permeability_matrix, M)
    k.true("no tangent field", r.tangent_vector_field is None)


def opaque_fourier_matrices(k):
    """Symbolic runs: the Fourier matrices are arbitrary matrices determined by the arguments (their contract is C05)."""
    import inspect
    fmm = k.m.fmm
    if not k.symbolic:
        return

    def stub(name, kinds):
        if not hasattr(fmm, name):
            return
        sig = inspect.signature(getattr(fmm, name))

        def fake(*args, **kw):
            b = sig.bind(*args, **kw)
            b.apply_defaults()
            a = b.arguments
            media = [x for q, v in a.items() if q not in ("primitive_lattice_vectors", "expansion", "formulation", "vector_field_source")
                     for x in (v if isinstance(v, tuple) else (v,))]
            lv, form = a["primitive_lattice_vectors"], a["formulation"]
            fft = form is fmm.Formulation.FFT
            arrays = media + [lv.u, lv.v, a["expansion"].basis_coefficients] + ([a["vector_field_source"]] if "vector_field_source" in a and not fft else [])
            tag = f"{k.fingerprint(*arrays)}:{form if isinstance(form, fmm.Formulation) else id(form)}"
            mb = tuple(media[0].shape[:-2])
            eb = mb if fft else k.np.broadcast_shapes(mb, lv.u.shape[:-1])
            n = a["expansion"].num_terms
            out = [k.carray(f"{q}:{tag}", (mb if q.startswith(("z", "iz")) else eb) + ((n, n) if q.startswith(("z", "iz")) else (2 * n, 2 * n))) for q in kinds]
            t = None if fft else tuple(k.carray(f"t{c}:{tag}", eb + media[0].shape[-2:]) for c in "xy")
            return (*out, t)
        k.abstract(fmm, name, fake)
    stub("fourier_matrices_patterned_isotropic_media", ["izeps", "zeps", "E"])
    stub("fourier_matrices_patterned_anisotropic_media", ["izeps", "zeps", "E", "izmu", "zmu", "M"])


FORMS = ["FFT", "POL", "callable"]


def formulation(k, form):
    if form != "callable":
        return k.m.fmm.Formulation[form]

    def rotated(arr, expansion, lattice):
        jnp = k.np
        t = jnp.exp(1j * arr)
        return jnp.sin(jnp.real(arr)) * t, jnp.cos(jnp.real(arr)) * t
    return rotated


def grid(k, ex):
    """Grid shape that resolves the expansion."""
    if k.symbolic:
        return k.dim("nx", 2), k.dim("ny", 2)
    return tuple(int(x) + k.dim(f"extra{c}", 1) for c, x in enumerate(k.m.fft.min_array_shape_for_expansion(ex)))


def same_tangent(k, r, t):
    if t is None:
        k.true("no tangent field", r.tangent_vector_field is None)
    else:
        k.eq("tangent field, x", r.tangent_vector_field[0], t[0])
        k.eq("tangent field, y", r.tangent_vector_field[1], t[1])


@contract("C04", funcs=["fmm.eigensolve_isotropic_media", "fmm._eigensolve_patterned_isotropic_media", "fmm._numerical_eigensolve", "fmm._select_eigenvalues_sign",
                        "fmm._validate_and_broadcast"],
          variants=[dict(mixed=m, form=f) for m in MIXED for f in FORMS if f != "POL" or m in MIXED[:3] + MIXED[5:6]], tol=1e-6, samples=1)
def patterned_isotropic(k, mixed, form):
    jnp = k.np
    opaque_fourier_matrices(k)
    n = order(k, "N")
    wl, kin, lv, ex, mb = inputs(k, mixed, n)
    a = k.carray("eps", mb + grid(k, ex))
    eps = a if k.symbolic else a + 3
    f = formulation(k, form)
    r = k.m.fmm.eigensolve_isotropic_media(wl, kin, lv, eps, ex, f)
    nb = len(batch_of(k, wl, kin, lv, eps))
    plv = k.m.basis.LatticeVectors(u=padded(lv.u, nb + 1), v=padded(lv.v, nb + 1))
    izeps, zeps, E, t = k.m.fmm.fourier_matrices_patterned_isotropic_media(plv, padded(eps, nb + 2), ex, f)
    eye, eye2 = jnp.eye(n), jnp.eye(2 * n)
    check_modes(k, r, wl, kin, lv, ex, eps, E, eye2, zeps, eye, jnp.linalg.inv(zeps), eye)
    ones = jnp.ones(tuple(zeps.shape[:-2]) + (1, 1))
    same_matrix(k, "z permittivity", r.z_permittivity_matrix, zeps)
    same_matrix(k, "inverse z permittivity", r.inverse_z_permittivity_matrix, izeps)
    same_matrix(k, "z permeability", r.z_permeability_matrix, ones * eye)
    same_matrix(k, "inverse z permeability", r.inverse_z_permeability_matrix, ones * eye)
    same_matrix(k, "transverse permeability", r.transverse_permeability_matrix, ones * eye2)
    same_tangent(k, r, t)


@contract("C04", funcs=["fmm.eigensolve_anisotropic_media", "fmm.eigensolve_general_anisotropic_media", "fmm._eigensolve_patterned_general_anisotropic_media",
                        "fmm._numerical_eigensolve", "fmm._validate_and_broadcast"],
          variants=[dict(mixed=m, form=f, mu=mu) for m in MIXED for f in FORMS for mu in ("none", "given", "source")
                    if (mu != "source" or m in MIXED[:3]) and (f != "POL" or m in MIXED[:2] + MIXED[5:6])], tol=1e-6, samples=1)
def patterned_anisotropic(k, mixed, form, mu):
    """`mu`: nonmagnetic, magnetic, or magnetic with an explicit source of the vector field."""
    jnp = k.np
    opaque_fourier_matrices(k)
    n = order(k, "N")
    wl, kin, lv, ex, mb = inputs(k, mixed, n)
    shape = mb + grid(k, ex)
    kw = tensors(k, "c", shape)
    f = formulation(k, form)
    source = k.carray("source", shape) if mu == "source" else (kw["permittivity_xx"] + kw["permittivity_yy"]) / 2
    if mu == "none":
        r = k.m.fmm.eigensolve_anisotropic_media(wl, kin, lv, expansion=ex, formulation=f, **{q: v for q, v in kw.items() if "permittivity" in q})
        one = jnp.ones(shape)
        m = dict(xx=one, xy=0 * one, yx=0 * one, yy=one, zz=one)
    else:
        more = dict(vector_field_source=source) if mu == "source" else {}
        r = k.m.fmm.eigensolve_general_anisotropic_media(wl, kin, lv, expansion=ex, formulation=f, **kw, **more)
        m = {c: kw["permeability_" + c] for c in NAMES}
    nb = len(batch_of(k, wl, kin, lv, source))
    plv = k.m.basis.LatticeVectors(u=padded(lv.u, nb + 1), v=padded(lv.v, nb + 1))
    izeps, zeps, E, izmu, zmu, M, t = k.m.fmm.fourier_matrices_patterned_anisotropic_media(
        plv, tuple(padded(kw["permittivity_" + c], nb + 2) for c in NAMES), tuple(padded(m[c], nb + 2) for c in NAMES), ex, f, padded(source, nb + 2))
    check_modes(k, r, wl, kin, lv, ex, source, E, M, zeps, zmu, jnp.linalg.inv(zeps), jnp.linalg.inv(zmu))
    same_matrix(k, "z permittivity", r.z_permittivity_matrix, zeps)
    same_matrix(k, "inverse z permittivity", r.inverse_z_permittivity_matrix, izeps)
    same_matrix(k, "z permeability", r.z_permeability_matrix, zmu)
    same_matrix(k, "inverse z permeability", r.inverse_z_permeability_matrix, izmu)
    same_matrix(k, "transverse permeability", r.transverse_permeability_matrix, M)
    same_tangent(k, r, t)


@contract("C04", funcs=["fmm.eigensolve_isotropic_media", "fmm.eigensolve_general_anisotropic_media"], uniform=[True, False], aniso=[False, True], form=["FFT", "JONES_DIRECT_FOURIER"],
          samples=1, tol=1e-6, sym=False)
def batch_entries_independent(k, uniform, aniso, form):
    """Every batch entry equals the solve of that entry alone (eigenvalues up to their order)."""
    jnp, onp = k.np, k.onp
    B1, B2 = 2, 3
    n = k.dim("N", 2)
    wl, kin, lv, ex, mb = inputs(k, ((B1, 1), (B2,), (B1, B2), (B1, B2)), n)
    shape = mb + ((1, 1) if uniform else grid(k, ex))
    f = k.m.fmm.Formulation[form]
    kw = tensors(k, "c", shape) if aniso else dict(permittivity=k.carray("eps", shape) + 3)
    fn = k.m.fmm.eigensolve_general_anisotropic_media if aniso else k.m.fmm.eigensolve_isotropic_media
    r = fn(wavelength=wl, in_plane_wavevector=kin, primitive_lattice_vectors=lv, expansion=ex, formulation=f, **kw)
    entries = [(0, 1), (1, 2)]
    one = [fn(wavelength=wl[i, 0], in_plane_wavevector=kin[j], primitive_lattice_vectors=k.m.basis.LatticeVectors(u=lv.u[i, j], v=lv.v[i, j]),
              expansion=ex, formulation=f, **{q: v[i, j] for q, v in kw.items()}) for i, j in entries]
    sort = lambda q: jnp.stack([e[jnp.lexsort((jnp.round(e.imag, 4), jnp.round(e.real, 4)))] for e in q])
    k.eq("eigenvalues", sort([r.eigenvalues[i, j] for i, j in entries]), sort([o.eigenvalues for o in one]))
    for name in ("z_permittivity_matrix", "inverse_z_permittivity_matrix", "z_permeability_matrix", "inverse_z_permeability_matrix", "transverse_permeability_matrix"):
        full = getattr(r, name)
        full = jnp.broadcast_to(full, (B1, B2) + full.shape[2:])
        k.eq(name, jnp.stack([full[i, j] for i, j in entries]), jnp.stack([getattr(o, name) for o in one]))
    k.eq("omega script k", jnp.stack([r.omega_script_k_matrix[i, j] for i, j in entries]), jnp.stack([o.omega_script_k_matrix for o in one]))
    if not uniform and form != "FFT":
        for c in (0, 1):
            k.eq("tangent field", jnp.stack([r.tangent_vector_field[c][i, j] for i, j in entries]), jnp.stack([o.tangent_vector_field[c] for o in one]))
