"""Arbitrary layer solve results and scattering matrices (shared by the contracts of several properties)."""
import dataclasses
from .common import bshape
from .c01_basis import lattice


def expansion(k, n, name="ex"):
    return k.expansion(name, n)


def layer(k, name, b, ex, n, small=None, inv=False, lossless=False):
    """An arbitrary LayerSolveResult with batch shape b. `small`: batch shape of the inputs (broadcasts with b)."""
    jnp = k.np
    small = b if small is None else small
    if inv:
        phi, phi_inv = k.invertible(name + "_phi", b + (2 * n, 2 * n))
    else:
        phi, phi_inv = k.carray(name + "_phi", b + (2 * n, 2 * n)), None
    q = k.carray(name + "_q", b + (2 * n,))
    if not k.symbolic:
        q = jnp.real(q) + 1j * jnp.abs(jnp.imag(q)) + 0.3
    if lossless:    # concrete samples only: real matrices, eigenvalues real or imaginary
        q = jnp.where(jnp.real(q) > 0.3, jnp.real(q) + 0j, 1j * jnp.abs(q))
        phi = jnp.real(phi) + 0j
    lsr = k.m.fmm.LayerSolveResult(
        wavelength=k.rarray(f"wavelength{len(small)}{_t(small)}", small, sign="+"),
        in_plane_wavevector=k.rarray(f"kin{len(small)}{_t(small)}", small + (2,)),
        primitive_lattice_vectors=lattice(k, small, f"lv{len(small)}{_t(small)}"),
        expansion=ex,
        eigenvalues=q,
        eigenvectors=phi,
        z_permittivity_matrix=k.invertible(name + "_zeps", small + (n, n))[0] if not k.symbolic else k.carray(name + "_zeps", small + (n, n)),
        inverse_z_permittivity_matrix=k.carray(name + "_izeps", small + (n, n)),
        z_permeability_matrix=k.carray(name + "_zmu", small + (n, n)),
        inverse_z_permeability_matrix=k.carray(name + "_izmu", small + (n, n)),
        transverse_permeability_matrix=k.carray(name + "_tmu", small + (2 * n, 2 * n)),
        tangent_vector_field=None,
    )
    if lossless:
        lsr = dataclasses.replace(lsr, **{f: jnp.real(getattr(lsr, f)) + 0j for f in ("z_permittivity_matrix", "transverse_permeability_matrix")})
    return (lsr, phi_inv) if inv else lsr


def smatrix(k, name, b, n, start, dstart, end, dend):
    f = lambda c: k.carray(f"{name}_{c}", b + (2 * n, 2 * n), scale=0.3)
    return k.m.scattering.ScatteringMatrix(s11=f("s11"), s12=f("s12"), s21=f("s21"), s22=f("s22"),
                                           start_layer_solve_result=start, start_layer_thickness=dstart,
                                           end_layer_solve_result=end, end_layer_thickness=dend)


def thickness(k, name, shape=()):
    return k.rarray(name, shape, sign="+")


def vec(k, name, b, n):
    return k.carray(name, b + (2 * n, 1))


def same_layer(k, label, a, b):
    """All fields of two layer solve results agree."""
    for f in ("wavelength", "in_plane_wavevector", "eigenvalues", "eigenvectors", "z_permittivity_matrix", "inverse_z_permittivity_matrix",
              "z_permeability_matrix", "inverse_z_permeability_matrix", "transverse_permeability_matrix"):
        k.eq(f"{label}.{f}", getattr(a, f), getattr(b, f))
    k.eq(f"{label}.lattice.u", a.primitive_lattice_vectors.u, b.primitive_lattice_vectors.u)
    k.eq(f"{label}.lattice.v", a.primitive_lattice_vectors.v, b.primitive_lattice_vectors.v)
    k.eq(f"{label}.expansion", a.expansion.basis_coefficients, b.expansion.basis_coefficients)


def _t(shape):
    """Name tag of a batch shape (arrays of different shape need different names)."""
    return "".join("1" if isinstance(d, int) and d == 1 else "n" for d in shape)
