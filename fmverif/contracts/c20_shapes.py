"""C20: inconsistent inputs are rejected, consistent ones are broadcast."""
from ..registry import contract
from .common import bshape
from .c01_basis import lattice
from .c04_modes import NAMES, tensors, formulation, opaque_fourier_matrices
from . import layers as LY

BATCH = [(), ("B",), ("B1", "B2")]


# --- expansions and lattice vectors ---------------------------------------------------------------------------------------------
@contract("C20", funcs=["basis.Expansion.__post_init__", "basis.LatticeVectors.__post_init__"], shape=[("N",), ("N", 1), ("N", 3), ("N", "M"), ("B", "N", 2), (2, "N"), (2,), ()])
def expansions_are_pairs(k, shape):
    """Integer coefficients have shape (N, 2); lattice vectors have two components."""
    s = tuple(3 + k.dim(d, 0) if d in ("M",) else (k.dim(d, 3) if isinstance(d, str) else d) for d in shape)
    k.raises("expansion", lambda: k.m.basis.Expansion(basis_coefficients=k.iarray("g", s)))
    if s and not (isinstance(s[-1], int) and s[-1] == 2):
        good = k.rarray("good", (2,))
        k.raises("u", lambda: k.m.basis.LatticeVectors(u=k.rarray("bad", s), v=good))
        k.raises("v", lambda: k.m.basis.LatticeVectors(u=good, v=k.rarray("bad", s)))


# --- layer solve results --------------------------------------------------------------------------------------------------------
def result_shapes(b, n):
    return dict(wavelength=b, in_plane_wavevector=b + (2,), u=b + (2,), v=b + (2,), eigenvalues=b + (2 * n,), eigenvectors=b + (2 * n, 2 * n),
                z_permittivity_matrix=b + (n, n), inverse_z_permittivity_matrix=b + (n, n), z_permeability_matrix=b + (n, n),
                inverse_z_permeability_matrix=b + (n, n), transverse_permeability_matrix=b + (2 * n, 2 * n))


FIELDS = list(result_shapes((), 1))
TRAILING = dict(wavelength=0, in_plane_wavevector=1, u=1, v=1, eigenvalues=1, eigenvectors=2, z_permittivity_matrix=2, inverse_z_permittivity_matrix=2,
                z_permeability_matrix=2, inverse_z_permeability_matrix=2, transverse_permeability_matrix=2)


def make(k, ex, shapes, tangent=None):
    a = {f: k.carray(f, s) for f, s in shapes.items()}
    lv = k.m.basis.LatticeVectors(u=a.pop("u"), v=a.pop("v"))
    t = None if tangent is None else (k.carray("tx", tangent), k.carray("ty", tangent))
    return k.m.fmm.LayerSolveResult(primitive_lattice_vectors=lv, expansion=ex, tangent_vector_field=t, **a)


@contract("C20", funcs=["fmm.LayerSolveResult.__post_init__", "fmm.LayerSolveResult.batch_shape"], b=BATCH, small=["", "all"] + FIELDS)
def result_accepts(k, b, small):
    """Compatible shapes: every field may have size-one batch dimensions, but for the eigenvalues and eigenvectors."""
    b = bshape(k, b)
    n = k.dim("N", 1)
    shapes = result_shapes(b, n)
    for f in FIELDS:
        if small in ("all", f) and f not in ("eigenvalues", "eigenvectors"):
            shapes[f] = (1,) * len(b) + shapes[f][len(b):]
    r = make(k, k.expansion("ex", n), shapes)
    k.true("batch shape", tuple(r.batch_shape) == tuple(b))
    for f in FIELDS:
        if f in "uv":
            k.shape(f, getattr(r.primitive_lattice_vectors, f), shapes[f])
        else:
            k.shape(f, getattr(r, f), shapes[f])
    t = make(k, k.expansion("ex", n), shapes, tangent=b + (k.dim("nx", 2), k.dim("ny", 2)))
    k.shape("batch shape with a tangent field", t.eigenvectors, shapes["eigenvectors"])


@contract("C20", funcs=["fmm.LayerSolveResult.__post_init__"],
          variants=[dict(b=b, field=f, how=h) for b in BATCH for f in FIELDS for h in ("extra", "missing", "batch0", "batch1", "size", "last", "one")
                    if not (h == "batch0" and len(b) < 1) and not (h == "batch1" and len(b) < 2) and not (h in ("size", "last", "one") and not TRAILING[f])
                    and not (h == "missing" and not b and not TRAILING[f])
                    and not (h == "one" and f not in ("eigenvalues", "eigenvectors"))
                    and not (h == "size" and f in ("in_plane_wavevector", "u", "v")) and not (f in ("u", "v", "in_plane_wavevector") and h == "missing" and not b)])
def result_rejects(k, b, field, how):
    """One field with a wrong rank or size."""
    nb = len(b)
    b = bshape(k, b)
    n = k.dim("N", 2)
    shapes = result_shapes(b, n)
    s = shapes[field]
    other = k.dim("other", 2)
    if how == "extra":
        s = (other,) + s if nb == 0 or field != "wavelength" else s + (other,)
    elif how == "missing":
        s = s[1:]
    elif how.startswith("batch"):
        i = int(how[-1])
        k.assume(other != b[i])
        s = s[:i] + (other,) + s[i + 1:]
    elif how == "one":
        s = s[:-1] + (1,)
    else:
        i = len(s) - 1 if how == "last" else nb
        k.assume(other != s[i])
        if field == "eigenvectors" and how == "size":
            k.assume(other != 1)
        s = s[:i] + (other,) + s[i + 1:]
    shapes[field] = s
    if field == "eigenvectors" and how == "missing" and nb == 0:
        pass
    ex = k.expansion("ex", n)
    k.raises(f"{field} ({how})", lambda: make(k, ex, shapes))


@contract("C20", funcs=["fmm.LayerSolveResult.__post_init__"], b=BATCH, rank=["extra", "missing"])
def result_rejects_tangent(k, b, rank):
    b = bshape(k, b)
    n = k.dim("N", 1)
    t = b + (k.dim("nx", 2), k.dim("ny", 2))
    t = (k.dim("other", 1),) + t if rank == "extra" else t[1:]
    ex = k.expansion("ex", n)
    k.raises("tangent field", lambda: make(k, ex, result_shapes(b, n), tangent=t))


@contract("C20", funcs=["fmm.LayerSolveResult.__post_init__"], b=BATCH)
def result_rejects_expansion(k, b):
    """The number of terms of the expansion is half the number of modes."""
    b = bshape(k, b)
    n, m = k.dim("N", 1), k.dim("M", 1)
    k.assume(n != m)
    ex = k.expansion("ex", m)
    k.raises("expansion", lambda: make(k, ex, result_shapes(b, n)))


# --- layer solves ---------------------------------------------------------------------------------------------------------------
SOLVES = ["uniform", "patterned", "uniform tensor", "patterned tensor", "magnetic", "patterned magnetic"]


def solve(k, kind, wl, kin, lv, ex, mb, **override):
    """Run one of the layer solves with media of batch shape mb; `override` replaces medium arrays."""
    opaque_fourier_matrices(k)
    g = (k.dim("nx", 2), k.dim("ny", 2)) if k.symbolic else tuple(int(x) + 1 for x in k.m.fft.min_array_shape_for_expansion(ex))
    shape = mb + (g if "patterned" in kind else (1, 1))
    f = formulation(k, override.pop("form", "FFT"))
    if kind in ("uniform", "patterned"):
        eps = k.carray("eps", shape)
        return k.m.fmm.eigensolve_isotropic_media(wl, kin, lv, eps if k.symbolic else eps + 3, ex, f)
    kw = tensors(k, "c", shape)
    more = {}
    if "source" in override:
        more["vector_field_source"] = k.carray("source", override.pop("source")(shape))
    for c, s in override.items():
        kw[c] = k.carray(c + "'", s(shape))
    if kind in ("uniform tensor", "patterned tensor"):
        return k.m.fmm.eigensolve_anisotropic_media(wl, kin, lv, expansion=ex, formulation=f, **{q: v for q, v in kw.items() if "permittivity" in q})
    return k.m.fmm.eigensolve_general_anisotropic_media(wl, kin, lv, expansion=ex, formulation=f, **kw, **more)


# batch shapes (wavelength, in-plane wavevector, lattice, media) that do not broadcast: "C" differs from "B"
CLASH = [(("B",), ("C",), (), ()), (("B",), (), ("C",), ()), (("B",), (), (), ("C",)), ((), ("B",), ("C",), ()), ((), ("B",), (), ("C",)), ((), (), ("B",), ("C",)),
         (("B", "D"), ("C", "D"), (), ()), (("B", 1), ("D",), (), ("C", "D")), (("B",), ("D", "C"), ("D", 1), ()), ((1, "B"), (), ("D", 1), ("C",))]


def two(k):
    b, c = k.dim("B", 2), k.dim("C", 2)
    k.assume(b != c)
    d = {"B": b, "C": c, "D": k.dim("D", 2)}
    return lambda s: tuple(d[x] if isinstance(x, str) else x for x in s)


def base(k, mixed=((), (), (), ())):
    wb, kb, lb, mb = mixed
    ex = k.expansion("ex", k.dim("N", 2))
    return k.rarray("wl", wb, sign="+"), k.rarray("kin", kb + (2,)), lattice(k, lb), ex, mb


@contract("C20", funcs=["fmm._validate_and_broadcast", "fmm.eigensolve_isotropic_media", "fmm.eigensolve_anisotropic_media", "fmm.eigensolve_general_anisotropic_media"],
          kind=SOLVES, mixed=CLASH, samples=1)
def solve_rejects_batches(k, kind, mixed):
    """Batch shapes that do not broadcast together."""
    s = two(k)
    args = base(k, tuple(s(x) for x in mixed))
    k.raises("batch shapes", lambda: solve(k, kind, *args))


@contract("C20", funcs=["fmm._validate_and_broadcast", "basis.LatticeVectors.__post_init__"], kind=SOLVES, which=["kin1", "kin3", "kinn", "lattice"], samples=1)
def solve_rejects_vectors(k, kind, which):
    """In-plane wavevectors have two components; the two lattice vectors' batches agree with everything else."""
    wl, kin, lv, ex, mb = base(k)
    if which == "lattice":
        s = two(k)
        lv = k.m.basis.LatticeVectors(u=k.rarray("u", s(("B",)) + (2,)), v=k.rarray("v", s(("C",)) + (2,)))
    else:
        kin = k.rarray("kin'", ({"kin1": 1, "kin3": 3, "kinn": k.dim("n", 3)}[which],))
    k.raises(which, lambda: solve(k, kind, wl, kin, lv, ex, mb))


COMPONENTS = [f"{p}_{c}" for p in ("permittivity", "permeability") for c in NAMES]
WRONG = {"batch": lambda k: (lambda s: (k.dim("C", 2),) + s), "leading one": lambda k: (lambda s: (1,) + s), "grid": lambda k: (lambda s: s[:-1] + (s[-1] + 1,)),
         "grid x": lambda k: (lambda s: s[:-2] + (s[-2] + k.dim("e", 1), s[-1])), "rank": lambda k: (lambda s: s[1:])}


@contract("C20", funcs=["fmm._validate_and_broadcast", "fmm.eigensolve_anisotropic_media", "fmm.eigensolve_general_anisotropic_media"],
          variants=[dict(kind=s, comp=c, how=h) for s in SOLVES[2:] for c in COMPONENTS + ["source"] for h in WRONG
                    if not ("tensor" in s and ("permeability" in c or c == "source")) and not (c == "source" and "patterned" not in s)], samples=1)
def solve_rejects_components(k, kind, comp, how):
    """One component (or the source of the vector field) whose shape differs from the others."""
    args = base(k)
    k.raises(comp, lambda: solve(k, kind, *args, **{comp: WRONG[how](k)}))


ACCEPT = [((), (), (), ()), (("B",), ("B",), ("B",), ("B",)), (("B",), (), (), ()), ((), ("B",), (), ()), ((), (), ("B",), ()), ((), (), (), ("B",)), (("B", 1), ("D",), (), ()),
          ((1, "B"), (), ("D", 1), (1,)), ((), ("D", 1, 1), ("B",), (1,)), (("D", 1, 1), (), (), ("B", 1))]


@contract("C20", funcs=["fmm._validate_and_broadcast", "fmm.eigensolve_isotropic_media", "fmm.eigensolve_anisotropic_media", "fmm.eigensolve_general_anisotropic_media",
                        "fmm._eigensolve_uniform_isotropic_media", "fmm._numerical_eigensolve"], kind=SOLVES, mixed=ACCEPT, samples=1)
def solve_accepts(k, kind, mixed):
    """Inputs are carried over with leading dimensions of size one only; the modes have the broadcast batch shape."""
    s = two(k)
    m = tuple(s(x) for x in mixed)
    wl, kin, lv, ex, mb = base(k, m)
    r = solve(k, kind, wl, kin, lv, ex, mb)
    rank = max(len(x) for x in m)
    bb = k.np.broadcast_shapes(*m)
    n = ex.num_terms
    pad = lambda x, t: (1,) * (rank - len(x)) + x + t
    k.shape("eigenvalues", r.eigenvalues, bb + (2 * n,))
    k.shape("eigenvectors", r.eigenvectors, bb + (2 * n, 2 * n))
    k.shape("wavelength", r.wavelength, pad(m[0], ()))
    k.eq("wavelength values", r.wavelength, wl[(None,) * (rank - len(m[0])) + (...,)])
    k.shape("in-plane wavevector", r.in_plane_wavevector, pad(m[1], (2,)))
    k.eq("in-plane wavevector values", r.in_plane_wavevector, kin[(None,) * (rank - len(m[1])) + (...,)])
    for c in "uv":
        x = getattr(r.primitive_lattice_vectors, c)
        k.shape(c, x, pad(m[2], (2,)))
        k.eq(c + " values", x, getattr(lv, c)[(None,) * (rank - len(m[2])) + (...,)])
    for f in ("z_permittivity_matrix", "inverse_z_permittivity_matrix", "z_permeability_matrix", "inverse_z_permeability_matrix"):
        k.true(f + " rank", getattr(r, f).ndim == rank + 2)
    k.true("transverse permeability rank", r.transverse_permeability_matrix.ndim == rank + 2)
    k.eq("expansion", r.expansion.basis_coefficients, ex.basis_coefficients)


# --- sources and amplitudes -----------------------------------------------------------------------------------------------------
def layer(k, b=()):
    n = k.dim("N", 2)
    ex = k.expansion("ex", n)
    return n, LY.layer(k, "l", b, ex, n)


@contract("C20", funcs=["sources.polarization_terms", "sources.amplitudes_for_source"], b=[(), ("B",)],
          how=["rank 1", "rank 0", "terms", "one term", "jy", "jz", "jx", "number y", "number z", "terms y"])
def currents(k, b, how):
    """Currents have matching shapes (..., N, sources)."""
    b = bshape(k, b)
    n, r = layer(k, b)
    m = k.dim("M", 2)
    k.assume(m != n)
    ns = k.dim("S", 2)
    shape = {"rank 1": (n,), "rank 0": (), "terms": b + (m, ns), "one term": b + (1, ns)}.get(how, b + (n, ns))
    s = {c: shape for c in ("jx", "jy", "jz")}
    if how in s:
        s[how] = shape[:-1] + (1,)
    elif how.startswith("number"):
        s["j" + how[-1]] = shape[:-1] + (ns + 1,)
    elif how == "terms y":
        s["jy"] = b + (1, ns)
    j = [k.carray(c, s[c]) for c in s]
    k.raises("polarization terms", lambda: k.m.sources.polarization_terms(*j, r))
    if not b:
        d = k.rarray("d", (), sign="+")
        sm = LY.smatrix(k, "S", (), n, r, d, r, d)
        k.raises("source", lambda: k.m.sources.amplitudes_for_source(*j, sm, sm))


@contract("C20", funcs=["sources.dirac_delta_source", "sources.gaussian_source"], shape=[(), (2,), ("S", 1), ("S", 3), ("S", "n"), ("B", "S", 2), (1, 1, 2)])
def locations(k, shape):
    """Locations have shape (sources, 2), in-plane wavevectors have two components."""
    s = tuple(k.dim(x, 3 if x == "n" else 1) if isinstance(x, str) else x for x in shape)
    ex = k.expansion("ex", k.dim("N", 1))
    lv = lattice(k)
    kin = k.rarray("kin", (2,))
    src = k.m.sources
    loc = k.rarray("loc", s)
    fwhm = k.rarray("fwhm", (), sign="+")
    k.raises("delta", lambda: src.dirac_delta_source(loc, kin, lv, ex))
    k.raises("gaussian", lambda: src.gaussian_source(fwhm, loc, kin, lv, ex))
    good, bad = k.rarray("good", (k.dim("S", 1), 2)), k.rarray("kin'", (s or (1,))[:-1] + (k.dim("q", 3),))
    k.raises("delta wavevector", lambda: src.dirac_delta_source(good, bad, lv, ex))
    k.raises("gaussian wavevector", lambda: src.gaussian_source(fwhm, good, bad, lv, ex))


@contract("C20", funcs=["sources.amplitudes_for_fields"], variants=[dict(b=b, how=h) for b in ((), ("B",))
          for h in ("rank", "Ey", "Hx", "Hy", "y grid", "batch", "divisible x", "divisible y") if b or h != "batch"])
def fields_of_sources(k, b, how):
    """Fields have matching shapes (..., nx, ny, fields), batch-compatible with the layer and divisible by the Brillouin grid."""
    b = bshape(k, b)
    if how.startswith("divisible"):
        p, q = (k.dim("p", 2), 1) if how.endswith("x") else (1, k.dim("p", 2))
        n, r = layer(k, (p, q))
        g = k.dim("g", 5)
        x = k.int("rem", 1)
        k.assume(x < (p if how.endswith("x") else q))
        shape = (g * p + x, g * q) if how.endswith("x") else (g * p, g * q + x)
        f = [k.carray(c, shape + (1,)) for c in ("Ex", "Ey", "Hx", "Hy")]
        k.raises(how, lambda: k.m.sources.amplitudes_for_fields(*f, r, (0, 1)))
        return
    n, r = layer(k, b)
    if k.symbolic:
        g = (k.dim("nx", 2), k.dim("ny", 2))
    else:
        g = tuple(int(x) + 1 for x in k.m.fft.min_array_shape_for_expansion(r.expansion))
    shape = b + g + (k.dim("n", 2),)
    if how == "rank":
        shape = shape[-2:]
    elif how == "batch":
        c = k.dim("C", 2)
        k.assume(c != b[0])
        shape = (c,) + shape[1:]
    s = {c: shape for c in ("Ex", "Ey", "Hx", "Hy")}
    if how in s:
        s[how] = shape[:-1] + (1,)
    if how == "y grid":
        s["Hy"] = shape[:-2] + (shape[-2] + 1, shape[-1])
    f = [k.carray(c, s[c]) for c in s]
    k.raises(how, lambda: k.m.sources.amplitudes_for_fields(*f, r))


AMPS = ["rank 1", "rank 0", "terms", "one term", "backward terms", "backward one term", "backward rank", "backward square"]


@contract("C20", funcs=["fields._validate_amplitudes_shape", "fields.propagate_amplitude", "fields.colocate_amplitudes", "fields.amplitude_poynting_flux",
                        "fields.directional_poynting_flux", "fields.fields_from_wave_amplitudes"], b=[(), ("B",)], how=AMPS)
def amplitudes(k, b, how):
    """Amplitudes have shape (..., 2N, amplitudes)."""
    b = bshape(k, b)
    n, r = layer(k, b)
    m = k.dim("M", 2)
    k.assume(m != 2 * n)
    na = k.dim("A", 2)
    good = b + (2 * n, na)
    bad = {"rank 1": (2 * n,), "rank 0": (), "terms": b + (m, na), "one term": b + (1, na)}
    fw, bw = good, good
    if how in bad:
        fw = bw = bad[how]
    elif how == "backward terms":
        bw = bad["terms"]
    elif how == "backward one term":
        bw = bad["one term"]
    elif how == "backward rank":
        k.assume(na != 2 * n)
        bw = (na,)
    else:
        fw, bw = b + (2 * n, 2 * n), (2 * n,)
    F = k.m.fields
    fwd, bwd = k.carray("a", fw), k.carray("c", bw)
    d = k.rarray("d", (), sign="+")
    if how in bad:
        k.raises("propagate", lambda: F.propagate_amplitude(fwd, d, r))
    z = k.rarray("z", (), sign="+")
    k.raises("colocate", lambda: F.colocate_amplitudes(fwd, bwd, z, r, d))
    k.raises("flux", lambda: F.amplitude_poynting_flux(fwd, bwd, r))
    k.raises("fields", lambda: F.fields_from_wave_amplitudes(fwd, bwd, r))


@contract("C20", funcs=["fields._validate_amplitudes_shape", "fields.fields_on_grid", "fields.fields_on_coordinates"], how=["rank", "terms", "one term"],
          which=["all", "Ex", "Ey", "Ez", "Hx", "Hy", "Hz"])
def field_coefficients(k, how, which):
    """Fourier coefficients of fields have shape (..., N, fields)."""
    n, r = layer(k)
    m = k.dim("M", 2)
    k.assume(m != n)
    na = k.dim("A", 2)
    k.assume(na != n)
    bad = {"rank": (na,), "terms": (m, na), "one term": (1, na)}[how]
    f = [k.carray(c, bad if which in ("all", c) else (n, na)) for c in ("Ex", "Ey", "Ez", "Hx", "Hy", "Hz")]
    e, h = tuple(f[:3]), tuple(f[3:])
    if k.symbolic:
        g = (k.dim("nx", 2), k.dim("ny", 2))
    else:
        g = tuple(int(x) + 1 for x in k.m.fft.min_array_shape_for_expansion(r.expansion))
    k.raises("grid", lambda: k.m.fields.fields_on_grid(e, h, r, g, (1, 1)))
    x = k.rarray("x", (k.dim("P", 1),))
    k.raises("coordinates", lambda: k.m.fields.fields_on_coordinates(e, h, r, x, x))


# --- bounded: random combinations of shapes -------------------------------------------------------------------------------------
@contract("C20", funcs=["fmm._validate_and_broadcast", "fmm.LayerSolveResult.__post_init__", "fmm._eigensolve_uniform_isotropic_media", "fmm._numerical_eigensolve"],
          variants=[dict(kind=x, form=f, part=p) for x in SOLVES for f in ("FFT", "POL") for p in (0, 1) if f == "FFT" or "patterned" in x],
          samples=12, sym=False)
def random_shapes(k, kind, form, part):
    """Random batch shapes: accepted exactly if they broadcast."""
    import numpy as onp
    r = k.rng("shapes", kind, form, part)
    s = [tuple(int(x) for x in r.choice([1, 1, 1, 2, 3] if part else [1, 2, 2, 2, 3], size=r.integers(0, 3))) for _ in range(4)]
    try:
        bb = onp.broadcast_shapes(*s)
    except ValueError:
        bb = None
    ex = k.m.basis.Expansion(basis_coefficients=onp.asarray([[0, 0], [1, 0], [-1, 0]]))
    args = (k.rarray("wl", s[0], sign="+"), k.rarray("kin", s[1] + (2,)), lattice(k, s[2]), ex, s[3])
    run = lambda: solve(k, kind, *args, form=form)
    if bb is None:
        k.raises(f"shapes {s}", run)
        return
    res = run()
    k.shape("eigenvalues", res.eigenvalues, bb + (6,))
    k.true("wavelength", res.wavelength.shape == (1,) * (len(bb) - len(s[0])) + s[0])
    k.true("in-plane wavevector", res.in_plane_wavevector.shape == (1,) * (len(bb) - len(s[1])) + s[1] + (2,))
