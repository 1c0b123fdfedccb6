"""C05: Fourier-factorised media matrices follow their formulation."""
from ..registry import contract
from .common import bshape
from .c01_basis import lattice
from .c04_modes import grid, NAMES

BATCH = [(), ("B",), ("B1", "B2")]


def medium(k, name, shape, kind="c", off=3.0):
    a = (k.rarray if kind == "r" else k.carray)(name, shape)
    return a if k.symbolic else a + off


def setup(k, b):
    n = k.dim("N", 1)
    ex = k.expansion("ex", n)
    g = grid(k, ex)
    if k.symbolic:
        mx, my = k.gmax(ex)
        k.assume(g[0] >= 2 * mx + 1)
        k.assume(g[1] >= 2 * my + 1)
    return n, ex, bshape(k, b) + g


def conv(k, ex):
    """Matrix of the convolution with a medium (contract: C03)."""
    return lambda x: k.m.fft.fourier_convolution_matrix(x, ex)


def abstract_convolution(k):
    """Symbolic runs: the convolution matrix is an arbitrary linear map of the medium (contract: C03)."""
    if k.symbolic:
        k.abstract(k.m.fft, "fourier_convolution_matrix", lambda x, expansion: k.convolution(x, expansion))


def blk(k, a, b, c, d):
    return k.np.block([[a, b], [c, d]])


def laurent(k, ex, xx, xy, yx, yy):
    F = conv(k, ex)
    return blk(k, F(yy), F(-yx), F(-xy), F(xx)), blk(k, F(xx), F(xy), F(yx), F(yy))


@contract("C05", funcs=["fmm_matrices.transverse_permittivity_fft", "fmm_matrices.transverse_permittivity_fft_anisotropic", "fmm_matrices.transverse_permeability_fft_anisotropic"],
          b=BATCH, kind=["c", "r"])
def laurent_rule(k, b, kind):
    """Direct convolution; components ordered (-y, x) for the permittivity, (x, y) for the permeability."""
    n, ex, shape = setup(k, b)
    m = {c: medium(k, c, shape, kind) for c in NAMES[:4]}
    E, M = laurent(k, ex, **m)
    fm = k.m.fmm_matrices
    k.eq("permittivity", fm.transverse_permittivity_fft_anisotropic(m["xx"], m["xy"], m["yx"], m["yy"], ex), E)
    k.eq("permeability", fm.transverse_permeability_fft_anisotropic(m["xx"], m["xy"], m["yx"], m["yy"], ex), M)
    zero = k.np.zeros(shape)
    iso = fm.transverse_permittivity_fft(m["xx"], ex)
    F = conv(k, ex)(m["xx"])
    k.eq("isotropic permittivity", iso, blk(k, F, 0 * F, 0 * F, F))
    k.eq("isotropic medium as an anisotropic one", fm.transverse_permittivity_fft_anisotropic(m["xx"], zero, zero, m["xx"], ex), iso)


def vector_isotropic(k, ex, eps, tx, ty):
    jnp = k.np
    F = conv(k, ex)
    d = jnp.real(tx) ** 2 + jnp.imag(tx) ** 2 + jnp.real(ty) ** 2 + jnp.imag(ty) ** 2
    P = blk(k, F(tx * jnp.conj(tx) / d), F(jnp.conj(tx) * ty / d), F(tx * jnp.conj(ty) / d), F(ty * jnp.conj(ty) / d))
    e = F(eps)
    D = e - jnp.linalg.inv(F(1 / eps))
    return blk(k, e, 0 * e, 0 * e, e) - blk(k, D, 0 * e, 0 * e, D) @ P


KIND = ["c", "r"]


@contract("C05", funcs=["fmm_matrices.transverse_permittivity_vector", "fmm_matrices._tangent_terms"], variants=[dict(b=b, t=t) for b in BATCH for t in KIND], tol=1e-6)
def isotropic_vector(k, b, t):
    """Laurent's rule for the component along the tangent field, the inverse rule for the normal component."""
    abstract_convolution(k)
    n, ex, shape = setup(k, b)
    eps = medium(k, "eps", shape)
    tx, ty = k.tangent(shape, t)
    k.eq("E", k.m.fmm_matrices.transverse_permittivity_vector(eps, tx, ty, ex), vector_isotropic(k, ex, eps, tx, ty))


@contract("C05", funcs=["fmm_matrices.transverse_permittivity_vector", "fmm_matrices._tangent_terms"], b=BATCH)
def isotropic_vector_no_tangent(k, b):
    """Where there is no tangent direction (zero field), Laurent's rule."""
    abstract_convolution(k)
    n, ex, shape = setup(k, b)
    eps = medium(k, "eps", shape)
    F = conv(k, ex)(eps)
    z = k.np.zeros(shape)
    k.eq("E", k.m.fmm_matrices.transverse_permittivity_vector(eps, z, z, ex), blk(k, F, 0 * F, 0 * F, F))


def rotated(k, ex, T, A):
    """F(T) [[F(R00), F(R01)], [F(R10), F(1/R11)^-1]] F(T^-1), R = T^-1 A T."""
    jnp = k.np
    F = conv(k, ex)
    (a, b), (c, d) = T
    det = a * d - b * c
    I = ((d / det, -b / det), (-c / det, a / det))
    mul = lambda p, q: tuple(tuple(p[i][0] * q[0][j] + p[i][1] * q[1][j] for j in (0, 1)) for i in (0, 1))
    R = mul(I, mul(A, T))
    FB = lambda m: blk(k, F(m[0][0]), F(m[0][1]), F(m[1][0]), F(m[1][1]))
    mid = blk(k, F(R[0][0]), F(R[0][1]), F(R[1][0]), jnp.linalg.inv(F(1 / R[1][1])))
    return FB(T) @ mid @ FB(I)


def vector_anisotropic(k, ex, m, tx, ty):
    c = k.np.conj
    E = rotated(k, ex, ((ty, c(tx)), (-tx, c(ty))), ((m["yy"], -m["yx"]), (-m["xy"], m["xx"])))
    M = rotated(k, ex, ((tx, -c(ty)), (ty, c(tx))), ((m["xx"], m["xy"]), (m["yx"], m["yy"])))
    return E, M


@contract("C05", funcs=["fmm_matrices.transverse_permittivity_vector_anisotropic", "fmm_matrices.transverse_permeability_vector_anisotropic", "fmm_matrices._rotation_matrices"],
          variants=[dict(b=b, t=t) for b in BATCH for t in KIND], tol=1e-6)
def anisotropic_vector(k, b, t):
    """Rotation to tangential and normal components: Laurent's rule but for the normal-normal entry, which uses the inverse rule."""
    abstract_convolution(k)
    n, ex, shape = setup(k, b)
    m = {c: medium(k, c, shape, off=3.0 if c in ("xx", "yy") else 0.0) for c in NAMES[:4]}
    tx, ty = k.tangent(shape, t)
    E, M = vector_anisotropic(k, ex, m, tx, ty)
    fm = k.m.fmm_matrices
    k.eq("permittivity", fm.transverse_permittivity_vector_anisotropic(m["xx"], m["xy"], m["yx"], m["yy"], tx, ty, ex), E)
    k.eq("permeability", fm.transverse_permeability_vector_anisotropic(m["xx"], m["xy"], m["yx"], m["yy"], tx, ty, ex), M)


SCHEMES = ["JONES_DIRECT", "JONES", "NORMAL", "POL", "JONES_DIRECT_FOURIER", "JONES_FOURIER", "NORMAL_FOURIER", "POL_FOURIER"]
# batch shapes of the medium and of the lattice
MIXED = [((), ()), (("B",), ()), ((), ("B",)), (("B", 1), ("C",)), ((1, "B"), ("C", 1)), (("B",), ("B",))]
FORMS = [(f, m) for f in ("FFT", "callable", "POL") for m in MIXED] + [(s, MIXED[1]) for s in SCHEMES if s != "POL"]


def vector_scheme(k, form, shape):
    """(formulation, list of recorded calls, field it must use or None, undo).

    Symbolic runs: the named schemes are arbitrary functions (their contract is C16)."""
    calls = []
    F = k.m.fmm.Formulation
    if form == "FFT":
        return F.FFT, calls, None, lambda: None
    if form == "callable":
        t = k.tangent(shape, "c", tag=":user")

        def fn(*args):
            calls.append(args)
            return t[0], t[1]
        return fn, calls, lambda arr, ex, lv: t, lambda: None
    schemes = k.m.vector.VECTOR_FIELD_SCHEMES
    if not k.symbolic:
        return F[form], None, schemes[form.lower()], lambda: None
    saved = dict(schemes)
    fields = {}
    for name in saved:
        fields[name] = k.tangent(shape, "c", tag=":" + name)

        def fn(*args, name=name):
            calls.append(args)
            return tuple(fields[name])
        schemes[name] = fn
    k.soft = k.abstracted = True
    return F[form], calls, lambda arr, ex, lv: fields[form.lower()], lambda: schemes.update(saved)


def check_calls(k, calls, form, arr, ex, lv):
    if form == "FFT" or calls is None:
        return
    k.true("the vector scheme is called", len(calls) >= 1)
    for c in calls:
        k.true("arguments of the vector scheme", len(c) == 3)
        k.eq("medium given to the vector scheme", c[0], arr)
        k.eq("expansion given to the vector scheme", c[1].basis_coefficients, ex.basis_coefficients)
        k.eq("lattice given to the vector scheme, u", c[2].u, lv.u)
        k.eq("lattice given to the vector scheme, v", c[2].v, lv.v)


def check_field(k, got, t):
    if t is None:
        k.true("no tangent field is reported", got is None)
        return
    k.true("tangent field is reported", got is not None and len(got) == 2)
    k.eq("reported tangent field, x", got[0], t[0])
    k.eq("reported tangent field, y", got[1], t[1])


@contract("C05", funcs=["fmm.fourier_matrices_patterned_isotropic_media", "fmm_matrices.transverse_permittivity_fft", "fmm_matrices.transverse_permittivity_vector"],
          variants=[dict(form=f, mb=m[0], lb=m[1]) for f, m in FORMS], samples=2, tol=1e-6)
def isotropic_media(k, form, mb, lb):
    """Every formulation of isotropic media: its own field, its own rule."""
    jnp = k.np
    abstract_convolution(k)
    n, ex, shape = setup(k, mb)
    lv = lattice(k, bshape(k, lb))
    eps = medium(k, "eps", shape)
    f, calls, field, undo = vector_scheme(k, form, jnp.broadcast_shapes(shape[:-2], lv.u.shape[:-1]) + shape[-2:])
    try:
        iz, z, E, t = k.m.fmm.fourier_matrices_patterned_isotropic_media(lv, eps, ex, f)
    finally:
        undo()
    F = conv(k, ex)
    k.eq("z permittivity", z, F(eps))
    k.eq("inverse z permittivity", iz, F(1 / eps))
    check_calls(k, calls, form, eps, ex, lv)
    if form == "FFT":
        want = None
        k.eq("E", E, blk(k, F(eps), 0 * F(eps), 0 * F(eps), F(eps)))
    else:
        want = field(eps, ex, lv)
        k.eq("E", E, vector_isotropic(k, ex, eps, *want) if k.symbolic or form == "callable" else vector_isotropic_any(k, ex, eps, *want))
    check_field(k, t, want)


def vector_isotropic_any(k, ex, eps, tx, ty):
    """Also for fields that vanish in places (concrete runs)."""
    jnp = k.np
    F = conv(k, ex)
    d = jnp.abs(tx) ** 2 + jnp.abs(ty) ** 2
    d = jnp.where(d < 1e-8, 1.0, d)
    P = blk(k, F(tx * jnp.conj(tx) / d), F(jnp.conj(tx) * ty / d), F(tx * jnp.conj(ty) / d), F(ty * jnp.conj(ty) / d))
    e = F(eps)
    D = e - jnp.linalg.inv(F(1 / eps))
    return blk(k, e, 0 * e, 0 * e, e) - blk(k, D, 0 * e, 0 * e, D) @ P


@contract("C05", funcs=["fmm.fourier_matrices_patterned_anisotropic_media", "fmm_matrices.transverse_permittivity_fft_anisotropic", "fmm_matrices.transverse_permeability_fft_anisotropic",
                        "fmm_matrices.transverse_permittivity_vector_anisotropic", "fmm_matrices.transverse_permeability_vector_anisotropic"],
          variants=[dict(form=f, mb=m[0], lb=m[1]) for f, m in FORMS], samples=2, tol=1e-6)
def anisotropic_media(k, form, mb, lb):
    """Every formulation of anisotropic media; the vector field is that of the given source."""
    jnp = k.np
    abstract_convolution(k)
    n, ex, shape = setup(k, mb)
    lv = lattice(k, bshape(k, lb))
    eps = {c: medium(k, "eps" + c, shape, off=3.0 if c[0] == c[1] else 0.0) for c in NAMES}
    mu = {c: medium(k, "mu" + c, shape, off=2.5 if c[0] == c[1] else 0.0) for c in NAMES}
    source = medium(k, "source", shape)
    f, calls, field, undo = vector_scheme(k, form, jnp.broadcast_shapes(shape[:-2], lv.u.shape[:-1]) + shape[-2:])
    try:
        izeps, zeps, E, izmu, zmu, M, t = k.m.fmm.fourier_matrices_patterned_anisotropic_media(
            lv, tuple(eps[c] for c in NAMES), tuple(mu[c] for c in NAMES), ex, f, source)
    finally:
        undo()
    F = conv(k, ex)
    k.eq("z permittivity", zeps, F(eps["zz"]))
    k.eq("inverse z permittivity", izeps, F(1 / eps["zz"]))
    k.eq("z permeability", zmu, F(mu["zz"]))
    k.eq("inverse z permeability", izmu, F(1 / mu["zz"]))
    check_calls(k, calls, form, source, ex, lv)
    if form == "FFT":
        want = None
        k.eq("E", E, laurent(k, ex, *(eps[c] for c in NAMES[:4]))[0])
        k.eq("M", M, laurent(k, ex, *(mu[c] for c in NAMES[:4]))[1])
    else:
        want = field(source, ex, lv)
        if not k.symbolic and bool(jnp.min(jnp.abs(want[0]) ** 2 + jnp.abs(want[1]) ** 2) < 1e-4):
            return          # the rule is stated for fields that vanish nowhere
        k.eq("E", E, vector_anisotropic(k, ex, eps, *want)[0])
        k.eq("M", M, vector_anisotropic(k, ex, mu, *want)[1])
    check_field(k, t, want)
