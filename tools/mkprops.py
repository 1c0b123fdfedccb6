"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, pathlib
P = []
MECH = {
 "C01": {"basis.py": "reciprocal transverse_wavevectors brillouin_zone_in_plane_wavevector unit_cell_coordinates plane_wave_in_plane_wavevector LatticeVectors"},
 "C02": {"basis.py": "generate_expansion _basis_coefficients_circular _basis_coefficients_parallelogramic Expansion"},
 "C03": {"fft.py": "fft ifft fourier_convolution_matrix _standard_toeplitz_indices min_array_shape_for_expansion _validate_shape_for_expansion"},
 "C04": {"fmm.py": "eigensolve_isotropic_media eigensolve_anisotropic_media eigensolve_general_anisotropic_media _numerical_eigensolve _select_eigenvalues_sign LayerSolveResult.omega_script_k_matrix", "fmm_matrices.py": "omega_script_k_matrix_patterned script_k_matrix_patterned k_matrix_patterned"},
 "C05": {"fmm.py": "fourier_matrices_patterned_isotropic_media fourier_matrices_patterned_anisotropic_media", "fmm_matrices.py": "transverse_permittivity_fft transverse_permittivity_vector transverse_permittivity_fft_anisotropic transverse_permeability_fft_anisotropic transverse_permittivity_vector_anisotropic transverse_permeability_vector_anisotropic _tangent_terms _rotation_matrices"},
 "C06": {"scattering.py": "append_layer prepend_layer _extend_s_matrix _pair_s_matrix solve"},
 "C07": {"scattering.py": "stack_s_matrix stack_s_matrix_scan stack_s_matrices_interior redheffer_star_product set_end_layer_thickness set_start_layer_thickness"},
 "C08": {"fields.py": "amplitudes_interior stack_amplitudes_interior stack_amplitudes_interior_with_source propagate_amplitude colocate_amplitudes _validate_amplitudes_shape"},
 "C09": {"sources.py": "amplitudes_for_source emission_matrix polarization_terms dirac_delta_source gaussian_source"},
 "C10": {"fields.py": "fields_from_wave_amplitudes field_conversion_matrix", "sources.py": "amplitudes_for_fields"},
 "C11": {"fields.py": "fields_on_grid fields_on_coordinates layer_fields_3d stack_fields_3d layer_fields_3d_on_coordinates stack_fields_3d_on_coordinates stack_fields_3d_auto_grid"},
 "C12": {"fields.py": "amplitude_poynting_flux directional_poynting_flux eigenmode_poynting_flux _poynting_flux_a_matrix"},
 "C13": {"pml.py": "apply_uniaxial_pml _crop_and_edge_pad_pml_region _normalized_distance_into_pml PMLParams"},
 "C14": {"beams.py": "rotation_matrix shifted_rotated_fields"},
 "C15": {"farfield.py": "unflatten unflatten_flux unflatten_transverse_wavevectors farfield_profile angles_from_unflattened_transverse_wavevectors solid_angle_from_unflattened_transverse_wavevectors integrated_flux"},
 "C16": {"vector.py": "normalize normalize_elementwise normalize_jones compute_gradient compute_tangent_field _compute_tangent_field_no_batch VECTOR_FIELD_SCHEMES"},
 "C17": {"utils.py": "eig _eig_fwd _eig_bwd"},
 "C18": {"utils.py": "diag matrix_adjoint batch_compatible_shapes atleast_nd absolute_axes interpolate_permittivity"},
 "C19": {"basis.py": "unflatten_expansion _HashableArray", "fmm.py": "register_pytree_node", "scattering.py": "register_pytree_node", "pml.py": "register_pytree_node"},
 "C20": {"fmm.py": "_validate_and_broadcast LayerSolveResult.__post_init__", "sources.py": "amplitudes_for_fields polarization_terms dirac_delta_source", "fields.py": "_validate_amplitudes_shape", "basis.py": "Expansion.__post_init__"},
}
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/fmmax/" + f for f in files], mechanism=[dict(name=n, where="src/fmmax/" + f) for f, ns in MECH[id].items() for n in ns.split()],
                     **({"observe_at": [observe]} if observe else {}))))

I = ["inputs"]; IC = ["inputs", "configurations"]

prop("C01", "Reciprocal lattice, wavevector and coordinate generation are exact",
 "For every non-degenerate pair of lattice vectors, in every batch entry, the reciprocal vectors satisfy u·u'=v·v'=1 and u·v'=v·u'=0; the transverse wavevectors are the in-plane wavevector plus 2*pi times the integer combinations of reciprocal vectors named by the expansion, in the expansion's order. Brillouin-zone grids are the cell-centred points of the requested regular grid, grids with a non-positive or missing size are rejected, and unit-cell coordinates are the regular grid i/nx*u + j/ny*v over all requested cells. A plane wave's in-plane wavevector is (2*pi/wavelength)*sqrt(Re eps)*sin(polar)*(cos(azimuth), sin(azimuth)).",
 I, "all lattice vectors, batch shapes, expansions, grid shapes, wavelengths and angles",
 "Tests compare a few fixed lattices and unbatched vectors; a sign, transpose or batching slip for oblique or batched lattices is not sampled.",
 ["basis.py"], "Contracts on the lattice functions; obligations are polynomial identities over symbolic lattice components, indices and batch sizes.",
 "return values of the lattice and wavevector functions")

prop("C02", "Generated expansions are symmetric, complete, duplicate-free and ordered",
 "Every generated expansion contains only distinct integer pairs, starts with the zeroth order, is ordered by non-decreasing magnitude of the reciprocal lattice vector, and contains -G whenever it contains G. Circular truncation contains exactly the reciprocal lattice points strictly inside the circle whose area is the requested number of terms times the reciprocal cell area; parallelogramic truncation is the full centred grid |i|<=nu, |j|<=nv, where nu and nv are the solutions of (2 nu+1)(2 nv+1) = requested number with nu:nv inverse to the reciprocal vector lengths, each rounded to a nearest integer.",
 IC, "all lattices (including strongly anisotropic and oblique ones), all requested numbers of terms, both truncations",
 "Tests use a handful of near-square lattices with a few sizes.",
 ["basis.py"], "Contract on the expansion generator over symbolic lattice vectors and symbolic number of terms; set-membership obligations.",
 "basis coefficients of the returned expansion")

prop("C03", "Fourier transform, inverse and convolution matrices are exact and invertible",
 "The forward transform returns, for each expansion order, the normalised discrete Fourier coefficient of the array along the two chosen (adjacent, ascending) axes, the inverse transform returns the truncated Fourier sum on the requested grid, and forward(inverse(y)) == y for every y, axis choice and batch shape. Entry (i,j) of a convolution matrix is the Fourier coefficient of order G_i - G_j, so that it is diagonal for constant arrays. Arrays or grids too small to represent the expansion without aliasing (fewer than 2*max|G|+1 points along an axis) are rejected, and all others are accepted.",
 I, "all expansions, array shapes, batch ranks, axes, and element values",
 "Tests sample a few shapes with one expansion; aliasing and axis handling only show for particular shapes.",
 ["fft.py", "utils.py"], "Contracts over symbolic shapes; discrete orthogonality and delta-elimination obligations.",
 "return values and raised errors of the transform functions")

prop("C04", "Layer eigenmodes satisfy Maxwell's equations for the layer's media",
 "For every layer solve the returned modes satisfy (E*Omega - K*M) phi = phi q^2 with Omega = w^2 M - script-K built from the layer's own Fourier permittivity and permeability matrices and transverse wavevectors, in every batch entry, for uniform or patterned, isotropic, anisotropic or magnetic media. Every eigenvalue has non-negative imaginary part; for uniform isotropic media it equals +/- sqrt(eps*w^2 - kx^2 - ky^2) with plane-wave eigenvectors. Nothing in the result depends on other batch entries.",
 IC, "all media tensors, wavelengths, in-plane wavevectors, lattices, expansions, formulations, and batch-broadcast combinations",
 "Tests compare isotropic and anisotropic paths on a few media; sign or index swaps between off-diagonal tensor entries that vanish in those media are invisible.",
 ["fmm.py", "fmm_matrices.py"], "Contracts on all eigensolve entry points with the dense eigen-decomposition as an axiomatised dependency.",
 "fields of the layer solve result")

prop("C05", "Fourier-factorised media matrices follow their formulation",
 "The transverse permittivity and permeability matrices map field Fourier coefficients to flux Fourier coefficients: direct (Laurent) convolution for the FFT formulation; for vector formulations Laurent's rule along the tangent field and the inverse rule normal to it (anisotropic media: for tangent fields that vanish nowhere), in the component order (-Ey, Ex) for permittivity and (Hx, Hy) for permeability. The z-components use the convolution matrices of the medium and of its inverse, and a caller-supplied or named vector scheme receives the medium, expansion and lattice and its field is the one used and reported. For isotropic media the isotropic and anisotropic Laurent formulations agree exactly.",
 IC, "all permittivity and permeability tensor arrays, tangent fields, formulations, shapes and batch dimensions",
 "Tests check a few media; index placement and conjugation only matter for complex or rotated tangent fields and asymmetric tensors.",
 ["fmm.py", "fmm_matrices.py"], "Contracts on the matrix-assembly functions relating them to an independent statement of the factorisation rules.",
 "returned matrices")

prop("C06", "Scattering matrices enforce field continuity at every interface",
 "For any layer solve results and thicknesses (any batch shapes that broadcast), the amplitudes related by a scattering matrix extended by a layer on either side satisfy continuity of the tangential electric and magnetic fields at the new interface, and amplitudes at the interfaces already in the stack are related exactly as before. A single layer has the identity scattering matrix. This holds for both solve precisions.",
 I, "all layer modes, thicknesses, incident amplitudes and batch shapes",
 "Tests check energy conservation and equivalences on a few stacks; they share the same interface formula on both sides of the comparison.",
 ["scattering.py"], "Contracts on layer append, prepend and two-layer construction; obligations reduce to ideal membership over the linear-solve axioms.",
 "scattering-matrix blocks")

prop("C07", "All ways of composing a stack give the same scattering matrix",
 "Building a stack from a sequence, by scanning batched layers, by repeated appending or prepending, by the star product of two sub-stacks, or by changing the first or last thickness of a stack of two or more layers afterwards gives the same scattering matrix and the same record of the start and end layers and thicknesses. For each layer the interior matrices are exactly those of the sub-stack up to and including it and of the sub-stack from it onwards, in order. Mismatched numbers of layers and thicknesses are rejected.",
 ["inputs", "histories"], "all stacks, all split points, all sequences of append/prepend/star-product/thickness changes",
 "Tests compare a couple of stacks with equal batch shapes; book-keeping of start and end layers matters only for later operations.",
 ["scattering.py"], "Contracts relating each construction to append; equality obligations by normal form and by cancellation of invertible matrices.",
 "scattering-matrix blocks and start/end layer record")

prop("C08", "Interior amplitudes and propagation are consistent with the scattering matrices",
 "Amplitudes computed inside a stack satisfy both sub-stack scattering relations simultaneously for the given incident amplitudes, for every layer. Propagating amplitudes multiplies each mode by exp(i q d), so propagation composes additively in distance, and colocated forward and backward amplitudes at offset z are the start amplitude propagated by z and the end amplitude propagated by (thickness - z). Amplitudes whose shape does not match the expansion are rejected.",
 I, "all stacks, incident amplitudes, offsets (including 0 and the thickness), and batch shapes",
 "Tests sample a few offsets and incidence vectors.",
 ["fields.py"], "Contracts on interior amplitude and propagation functions.",
 "returned amplitudes")

prop("C09", "Internal sources satisfy the current-sheet jump conditions with outgoing waves",
 "The amplitudes returned for a current sheet between two stacks satisfy the tangential field jump conditions for that current (jump of H equal to the in-plane current, jump of E from the z-directed current through the inverse permittivity), with no wave incident from either end, and the remaining returned amplitudes follow from the two scattering matrices. Point-source coefficients are exp(-i k.r) for each order and source, Gaussian coefficients multiply these by exp(-sigma^2 |k|^2/2) with sigma = fwhm/(2 sqrt(2 ln 2)).",
 I, "all currents, stacks, source locations, widths and batch shapes",
 "Tests compare reciprocity and symmetry on a few stacks.",
 ["sources.py", "fields.py"], "Contracts on the source functions; jump obligations over linear-solve axioms.",
 "returned amplitudes and coefficients")

prop("C10", "Fields and wave amplitudes convert into each other without loss",
 "Transverse fields obtained from amplitudes are ((-Ey, Ex),(Hx, Hy)) = conversion matrix times amplitudes, Ez and Hz follow from the curl equations using the layer's inverse zz permittivity and permeability, and recovering amplitudes from these fields sampled on a real-space grid (with one or several unit cells and the matching Brillouin grid) returns the original amplitudes. Fields whose shapes mismatch, or are not divisible into the Brillouin grid, are rejected.",
 IC, "all layers, amplitudes, grid shapes, supercell shapes and batch layouts",
 "Tests use one layer and grid; Brillouin axes and supercell phases are sampled once.",
 ["fields.py", "sources.py"], "Contracts on field conversion and amplitude recovery.",
 "returned fields and amplitudes")

prop("C11", "Real-space fields are the Bloch-Fourier sum at the stated coordinates",
 "Fields on a grid equal the Fourier sum over all orders exp(i k.r) at exactly the coordinates that are returned with them, are Bloch-periodic across unit cells, and agree with direct evaluation at those coordinates. Three-dimensional layer and stack fields are, slice by slice, the fields of the amplitudes colocated at the returned z, which run from the layer start to its end inclusive (for two or more points) and accumulate layer thicknesses in order.",
 IC, "all expansions, grids, numbers of unit cells, batch shapes, coordinates, layer counts and z-counts",
 "Tests sample a few grids with one amplitude batch; reshapes that mix z and amplitude batches need particular sizes.",
 ["fields.py", "basis.py", "fft.py"], "Contracts on the grid, coordinate and 3D field functions over symbolic sizes.",
 "returned field arrays and coordinates")

prop("C12", "Poynting-flux decompositions add up to the true flux",
 "Forward and backward flux, in both the amplitude-based and the direction-based decomposition, add up order by order to the time-average flux Re(conj(-Ey)*Hx + conj(Ex)*Hy) of the total field, are real, and are zero for zero amplitudes. The direction-based split assigns to forward exactly the part of the field carried by modes with positive flux. Per-mode flux is the order-summed flux of that mode alone.",
 I, "all layers, including lossy and evanescent modes, all amplitudes and batch shapes",
 "Tests check a few cases where cross terms vanish.",
 ["fields.py"], "Contracts on the flux functions.",
 "returned flux arrays")

prop("C13", "Uniaxial PML is a matched, reflection-symmetric, interior-preserving medium",
 "Outside the PML the media are exactly the original permittivity and unit permeability; inside, permittivity and permeability are stretched by the same factors (xx: sy/sx, yy: sx/sy, zz: sx*sy; off-diagonals zero), the factors follow the documented profile in the normalised depth, which is 0 outside and 1 at the boundary pixel, symmetric on opposite sides, and independent of the other axis. The permittivity in the PML is the edge value of the interior, and widths that leave no interior along either axis are rejected.",
 IC, "all permittivity arrays, batch shapes, PML widths per axis (including zero) and profile parameters",
 "Tests check a few widths, mostly equal along both axes.",
 ["pml.py"], "Contracts over symbolic shapes and widths; integer case-split obligations.",
 "returned tensor components and raised errors")

prop("C14", "Beam reorientation is a rigid motion of the field",
 "The rotation matrix is orthogonal with unit determinant, sends the beam axis to the direction given by polar and azimuthal angle, and the polarization angle rotates about that direction. The fields returned at a point are the rotated field vectors of the original beam at the back-rotated, origin-shifted point, for electric and magnetic fields alike.",
 I, "all angles, origins, coordinate arrays and field functions",
 "Tests check a few angles.",
 ["beams.py"], "Contracts with an arbitrary (uninterpreted) field function; trigonometric identities by exponential normal form.",
 "returned matrix and fields")

prop("C15", "Farfield unflattening, angles and integration are consistent",
 "Unflattening places the value of Fourier order G at Brillouin point b at the k-space grid location of G and b, for flux (keeping polarization and source axes) and for wavevectors alike, and marks only locations with no order as missing, so no value is lost, duplicated or mixed between batch entries. Angles satisfy sin(polar) = |k|*wavelength/(2*pi) with azimuth the direction of k, evanescent orders get pi/2, and solid angle is the k-cell area divided by cos(polar). The integrated flux is a linear function of the flux per source and, with no angular restriction and no upsampling, equals the plain sum.",
 IC, "all expansions, Brillouin grids, batch ranks, axis choices, fluxes, wavelengths",
 "Tests sample two layouts; axis permutations need particular ranks.",
 ["farfield.py"], "Contracts on the unflatten functions over symbolic sizes, and on angle and integration functions.",
 "returned arrays")

prop("C16", "Tangent vector fields are normalised and tangential",
 "Normalisation never changes direction: the field is divided by a positive scalar so that the largest magnitude is one (global) or every non-zero element has magnitude one (elementwise), fields of magnitude up to about 1e-8 are left as they are, and Jones fields of real input fields have unit magnitude everywhere including where the input vanishes. For media varying in one direction only, the tangent field is perpendicular to the variation, also for oblique lattices. The gradient is exact for the periodic lattice geometry and invariant to the unit-cell scale, and every named scheme uses its own documented losses.",
 IC, "all arrays, lattices, expansions, batch shapes and schemes",
 "Tests cover a few gratings aligned with the axes.",
 ["vector.py"], "Contracts on normalisation, gradient, 1D detection and loss functions; the Newton minimiser is covered through its stationarity condition where expressible.",
 "returned vector fields")

prop("C17", "The eigen-decomposition gradient rule is the exact adjoint of the eigenproblem",
 "The reverse-mode rule of the eigen-decomposition returns, for every matrix and every cotangent, the cotangent implied by first-order perturbation theory, with the documented broadening of inverse eigenvalue differences (scaled with the eigenvalue range, never below the documented minimum) and no contribution from the diagonal. The forward rule returns exactly the plain decomposition, and each batch entry is treated independently.",
 I, "all matrices, cotangents, broadening parameters, sizes and batch shapes",
 "Tests compare finite differences at a few matrices.",
 ["utils.py"], "Contract on the backward rule; the adjoint identity is an obligation over linear-solve axioms.",
 "returned cotangent")

prop("C18", "Shape, axis and matrix utilities obey their documented semantics",
 "Batch compatibility accepts exactly the lists of shapes of positive sizes that broadcast together; absolute axes are unique, in range, equal modulo the rank and in the given order, and anything else is rejected; diag puts the vector on the diagonal and zeros elsewhere, the adjoint is the conjugate transpose of the last two axes, added dimensions are leading. Interpolated permittivity equals the void and solid values at density 0 and 1 and is the square of the linearly interpolated refractive index.",
 I, "all shapes, ranks, axes, values and densities",
 "Tests sample a few shapes.",
 ["utils.py"], "Contracts on the utility functions over symbolic shapes.",
 "return values and raised errors")

prop("C19", "Results survive transformation boundaries unchanged",
 "Every object that crosses a tracing, mapping or scanning boundary (lattice vectors, truncation, expansion, formulation, layer solve result, scattering matrix, PML parameters) is rebuilt field by field equal to the original. Static (integer) values compare equal exactly when their shape, type and contents are equal, and equal values hash equal.",
 ["inputs", "programs"], "all values of each type, including batch shapes and the optional tangent field",
 "Tests round-trip single examples; swapping two same-shaped fields is invisible to most of them.",
 ["basis.py", "fmm.py", "scattering.py", "pml.py"], "Contracts on each flatten/unflatten pair with distinct symbolic fields.",
 "rebuilt objects")

prop("C20", "Inconsistent inputs are rejected, consistent ones are broadcast",
 "A layer solve accepts exactly those inputs (media of rank two or more) whose wavelength, in-plane wavevector, lattice and media batch shapes broadcast together and whose media components agree in shape, and its result carries the inputs with leading dimensions added only. A layer solve result is constructible exactly when its fields have mutually compatible shapes. Current, source-location and amplitude arrays with the wrong rank or sizes are rejected.",
 I, "all combinations of shapes and ranks",
 "Tests try a few bad shapes.",
 ["fmm.py", "sources.py", "fields.py", "basis.py"], "Contracts on the validators over symbolic shapes, checked path by path.",
 "raised errors and returned shapes")

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
