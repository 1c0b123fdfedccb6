From a41098efe79dcefead30414b4f26475c56ce16f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:19 +0000
Subject: [PATCH 01/10] fix: reciprocal vectors and wavevectors of batched
 lattices

The cross product and the reciprocal vectors lacked the trailing axes needed
to broadcast against the vector components, the expansion and the Brillouin
grid: batched lattice vectors raised, or silently mixed batch entries.
---
 src/fmmax/basis.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 882a636..7cae183 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -118,6 +118,7 @@ def generate_expansion(
 def reciprocal(lattice_vectors: LatticeVectors) -> LatticeVectors:
     """Computes the reciprocal vectors for the `basis`."""
     cross_product = _cross_product(lattice_vectors.u, lattice_vectors.v)
+    cross_product = cross_product[..., jnp.newaxis]
     uprime = (
         jnp.stack([lattice_vectors.v[..., 1], -lattice_vectors.v[..., 0]], axis=-1)
         / cross_product
@@ -224,14 +225,12 @@ def brillouin_zone_in_plane_wavevector(
         indexing="ij",
     )
     reciprocal_vectors = primitive_lattice_vectors.reciprocal
+    u = reciprocal_vectors.u[..., jnp.newaxis, jnp.newaxis, :]
+    v = reciprocal_vectors.v[..., jnp.newaxis, jnp.newaxis, :]
     return jnp.stack(
         [
-            2
-            * jnp.pi
-            * (i * reciprocal_vectors.u[..., 0] + j * reciprocal_vectors.v[..., 0]),
-            2
-            * jnp.pi
-            * (i * reciprocal_vectors.u[..., 1] + j * reciprocal_vectors.v[..., 1]),
+            2 * jnp.pi * (i * u[..., 0] + j * v[..., 0]),
+            2 * jnp.pi * (i * u[..., 1] + j * v[..., 1]),
         ],
         axis=-1,
     )
@@ -253,13 +252,15 @@ def transverse_wavevectors(
         The transverse wavevectors.
     """
     reciprocal_vectors = primitive_lattice_vectors.reciprocal
+    u = reciprocal_vectors.u[..., jnp.newaxis, :]
+    v = reciprocal_vectors.v[..., jnp.newaxis, :]
     kx = in_plane_wavevector[..., 0, jnp.newaxis] + 2 * jnp.pi * (
-        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 0]
-        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 0]
+        expansion.basis_coefficients[:, 0] * u[..., 0]
+        + expansion.basis_coefficients[:, 1] * v[..., 0]
     )
     ky = in_plane_wavevector[..., 1, jnp.newaxis] + 2 * jnp.pi * (
-        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 1]
-        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 1]
+        expansion.basis_coefficients[:, 0] * u[..., 1]
+        + expansion.basis_coefficients[:, 1] * v[..., 1]
     )
     return jnp.stack([kx, ky], axis=-1)
 
-- 
2.43.0


From e4563113a9dad63977ab05c9bd5e9c2cdb416e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:19 +0000
Subject: [PATCH 02/10] fix: reject Brillouin grids with a non-positive second
 dimension

Tuples compare lexicographically, so shapes such as (2, -1) passed the check
and produced an empty grid.
---
 src/fmmax/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 7cae183..28dc4c3 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -211,7 +211,7 @@ def brillouin_zone_in_plane_wavevector(
     Returns:
         The in-plane wavevectors, with shape `brillouin_grid_shape + (2,)`.
     """
-    if len(brillouin_grid_shape) != 2 or brillouin_grid_shape < (1, 1):
+    if len(brillouin_grid_shape) != 2 or min(brillouin_grid_shape) < 1:
         raise ValueError(
             f"`brillouin_grid_shape` must be length-2 with positive values, "
             f"but got {brillouin_grid_shape}."
-- 
2.43.0


From ab89d5e0decbf4c776980afc9a2e69ff31370128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:51 +0000
Subject: [PATCH 03/10] fix: circular truncation of skewed or strongly
 anisotropic lattices

Candidate coefficients were limited to about half the requested number of
terms, and not symmetric for odd numbers: some lattice vectors inside the
circle were dropped, so that an expansion could contain G but not -G. The
candidates now cover the bounding parallelogram of the circle.
---
 src/fmmax/basis.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 28dc4c3..b3b422b 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -291,10 +291,26 @@ def _basis_coefficients_circular(
         The coefficients, with shape `(num_vectors, 2)`. The final axis gives the
         coefficient for the first and second vector in the basis.
     """
+    # Include all vectors lying within the circle with area equal to cross product
+    # of `u` and `v` scaled by `num_terms`.
+    cross_product = onp.abs(
+        _cross_product(primitive_lattice_vectors.u, primitive_lattice_vectors.v)
+    )
+    max_magnitude = onp.sqrt(approximate_num_terms * cross_product / onp.pi)
+
     # Generate candidate coefficients. These will include more coefficients than needed;
-    # subsequently we will filter based on magnitude.
-    g = onp.arange(-approximate_num_terms // 2, approximate_num_terms // 2 + 1)
-    G1, G2 = onp.meshgrid(g, g, indexing="ij")
+    # subsequently we will filter based on magnitude. The coefficients of any vector with
+    # magnitude below `max_magnitude` are bounded by the ratio of `max_magnitude` to the
+    # distance between adjacent rows of lattice points.
+    g1_max, g2_max = [
+        int(onp.ceil(max_magnitude * onp.linalg.norm(vector) / cross_product))
+        for vector in (primitive_lattice_vectors.v, primitive_lattice_vectors.u)
+    ]
+    G1, G2 = onp.meshgrid(
+        onp.arange(-g1_max, g1_max + 1),
+        onp.arange(-g2_max, g2_max + 1),
+        indexing="ij",
+    )
     G1 = G1.flatten()
     G2 = G2.flatten()
 
@@ -304,16 +320,6 @@ def _basis_coefficients_circular(
         + G2[..., onp.newaxis] * primitive_lattice_vectors.v[..., onp.newaxis, :]
     )
     magnitude = onp.linalg.norm(vectors, axis=-1)
-
-    # Include all vectors lying within the circle with area equal to cross product
-    # of `u` and `v` scaled by `num_terms`.
-    max_magnitude = onp.sqrt(
-        approximate_num_terms
-        * onp.abs(
-            _cross_product(primitive_lattice_vectors.u, primitive_lattice_vectors.v)
-        )
-        / onp.pi
-    )
     mask = magnitude < max_magnitude
 
     G1 = G1[mask]
-- 
2.43.0


From 911e94b94ebc66cdf5d641674effc4899baea1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:18 +0000
Subject: [PATCH 04/10] fix: tangent field of media varying in one direction on
 oblique lattices

The tangent of a gradient along (cos(a), sin(a)) is (sin(a), -cos(a)); the
missing sign went unnoticed because it only matters for gradients that are not
parallel to the x- or y-axis.
---
 src/fmmax/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 4ca7784..358e74a 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -243,7 +243,7 @@ def _compute_tangent_field_no_batch(
     field = fft.ifft(fourier_field, expansion=expansion, shape=grid_shape, axis=-2)
 
     # Manually set the tangent field in the 1d case.
-    field_1d = jnp.stack([jnp.sin(grad_angle), jnp.cos(grad_angle)])
+    field_1d = jnp.stack([jnp.sin(grad_angle), -jnp.cos(grad_angle)])
     field = jnp.where(is_1d, field_1d, field)
     return normalize(field)
 
-- 
2.43.0


From e43c93ba5d9399fac9339ae0cca7536857ef488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:40 +0000
Subject: [PATCH 05/10] fix: tangent field of one-dimensional media with
 complex permittivity

The direction of the gradient was taken from the phase of gx + 1j * gy, which
for complex-valued media also contains the phase of the gradient itself. The
tangent field of e.g. a lossy grating was rotated by that phase.
---
 src/fmmax/vector.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 358e74a..6fbc9f0 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -336,8 +336,8 @@ def _is_1d_field(field: jnp.ndarray) -> Tuple[jnp.ndarray, jnp.ndarray]:
     """Determine whether the field varies in one direction only."""
     ref_field = _field_at_max_magnitude(field)
     assert ref_field.shape == (2,)
-    ref_angle = _angle(ref_field[0] + 1j * ref_field[1])
-    angle = _angle(field[..., 0] + 1j * field[..., 1])
+    ref_angle = _direction_angle(ref_field)
+    angle = _direction_angle(field)
     magnitude = jnp.squeeze(_field_magnitude(field), axis=-1)
     is_1d = jnp.all(
         jnp.isclose(magnitude, 0.0)
@@ -353,6 +353,16 @@ def _is_1d_field(field: jnp.ndarray) -> Tuple[jnp.ndarray, jnp.ndarray]:
     return is_1d, ref_angle
 
 
+def _direction_angle(field: jnp.ndarray) -> jnp.ndarray:
+    """Return the angle of the line along which `field`, possibly complex, is directed."""
+    field = normalize_elementwise(field)
+    fx = field[..., 0]
+    fy = field[..., 1]
+    cos_2_angle = jnp.abs(fx) ** 2 - jnp.abs(fy) ** 2
+    sin_2_angle = 2 * jnp.real(fx * jnp.conj(fy))
+    return _angle(cos_2_angle + 1j * sin_2_angle) / 2
+
+
 def _field_at_max_magnitude(field: jnp.ndarray) -> jnp.ndarray:
     """Return the field at the location where its magnitude is largest."""
     assert field.ndim == 3
-- 
2.43.0


From 27ceee7f3a9b405ed38962137c0883f8f7e8d516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:38 +0000
Subject: [PATCH 06/10] fix: scattering matrix solves with layers of different
 batch ranks

---
 src/fmmax/scattering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fmmax/scattering.py b/src/fmmax/scattering.py
index 74be383..77d094b 100644
--- a/src/fmmax/scattering.py
+++ b/src/fmmax/scattering.py
@@ -595,6 +595,9 @@ jax.tree_util.register_pytree_node(
 def solve(a: jnp.ndarray, b: jnp.ndarray, *, force_x64_solve: bool) -> jnp.ndarray:
     """Solves `A @ x = b`, optionally using 64-bit precision."""
     output_dtype = jnp.promote_types(a.dtype, b.dtype)
+    # Ensure that `b` is not interpreted as a batch of vectors when it has fewer batch
+    # dimensions than `a`.
+    b = utils.atleast_nd(b, n=a.ndim)
     if force_x64_solve and jax.config.read("jax_enable_x64"):
         a = a.astype(jnp.promote_types(a.dtype, jnp.float64))
         b = b.astype(jnp.promote_types(b.dtype, jnp.float64))
-- 
2.43.0


From 659ef70ecd0ae897b6f262dc4bbc4dc62efc0e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:32 +0000
Subject: [PATCH 07/10] fix: source amplitudes for stacks with different batch
 ranks

---
 src/fmmax/sources.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/sources.py b/src/fmmax/sources.py
index 117c5c9..40df58c 100644
--- a/src/fmmax/sources.py
+++ b/src/fmmax/sources.py
@@ -287,8 +287,9 @@ def amplitudes_for_source(
     )
 
     # The matrix solve directly yields the forward-going wave amplitudes after the
-    # source, and the backward-going wave amplitudes before the source.
-    ab = jnp.linalg.solve(matrix, pol)
+    # source, and the backward-going wave amplitudes before the source. Ensure that
+    # `pol` is not interpreted as a batch of vectors when it has fewer batch dimensions.
+    ab = jnp.linalg.solve(matrix, utils.atleast_nd(pol, n=matrix.ndim))
     fwd_amplitude_after_start, bwd_amplitude_before_end = jnp.split(ab, 2, axis=-2)
 
     # Other wave amplitudes are computed from the scattering matrices.
-- 
2.43.0


From d58482e50394b593abe5e292bef5ec2543f5a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:12 +0000
Subject: [PATCH 08/10] fix: uniform isotropic eigensolve accounts for the
 lattice vector batch shape

With lattice vectors having a batch shape not already present in the wavelength,
wavevector, or permittivity, the eigenvectors lacked the batch dimensions of the
eigenvalues, and the layer solve was rejected.
---
 src/fmmax/fmm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fmmax/fmm.py b/src/fmmax/fmm.py
index e0e248c..4f69d19 100644
--- a/src/fmmax/fmm.py
+++ b/src/fmmax/fmm.py
@@ -412,7 +412,11 @@ def _eigensolve_uniform_isotropic_media(
         )
 
     batch_shape = jnp.broadcast_shapes(
-        wavelength.shape, in_plane_wavevector.shape[:-1], permittivity.shape[:-2]
+        wavelength.shape,
+        in_plane_wavevector.shape[:-1],
+        primitive_lattice_vectors.u.shape[:-1],
+        primitive_lattice_vectors.v.shape[:-1],
+        permittivity.shape[:-2],
     )
 
     num_eigenvalues = 2 * expansion.num_terms
-- 
2.43.0


From daa5f3e81db3239d5cfd507fd8a62592dbdae193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:38 +0000
Subject: [PATCH 09/10] fix: tangent vector fields support all broadcastable
 lattice vector batch shapes

The batch dimensions of the array and of the lattice vectors were flattened
separately before broadcasting, so that most broadcastable combinations were
rejected, and some were silently paired incorrectly, e.g. (1, 3) with (3, 1).
---
 src/fmmax/vector.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 6fbc9f0..11c136c 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -9,7 +9,7 @@ from typing import Callable, Dict, List, Tuple
 import jax
 import jax.numpy as jnp
 
-from fmmax import basis, fft, utils
+from fmmax import basis, fft
 
 # Absolute tolerance for detecting whether a field is 1D. If the angle of the field at
 # every point differs by less than this value from a reference value, the field is 1D.
@@ -147,19 +147,22 @@ def compute_tangent_field(
         The normal field, `(tx, ty)`.
     """
     arr = jax.lax.stop_gradient(arr)
-    batch_shape = arr.shape[:-2]
-    arr = utils.atleast_nd(arr, n=3)
-    arr = arr.reshape((-1,) + arr.shape[-2:])
+    grid_shape = arr.shape[-2:]
+    batch_shape = jnp.broadcast_shapes(
+        arr.shape[:-2],
+        primitive_lattice_vectors.u.shape[:-1],
+        primitive_lattice_vectors.v.shape[:-1],
+    )
+    arr = jnp.broadcast_to(arr, batch_shape + grid_shape)
+    arr = arr.reshape((-1,) + grid_shape)
 
     primitive_lattice_vectors = basis.LatticeVectors(
         u=jnp.broadcast_to(
-            primitive_lattice_vectors.u.reshape((-1, 2)),
-            (arr.shape[0], 2),
-        ),
+            primitive_lattice_vectors.u, batch_shape + (2,)
+        ).reshape((-1, 2)),
         v=jnp.broadcast_to(
-            primitive_lattice_vectors.v.reshape((-1, 2)),
-            (arr.shape[0], 2),
-        ),
+            primitive_lattice_vectors.v, batch_shape + (2,)
+        ).reshape((-1, 2)),
     )
 
     field_fn = jax.vmap(
-- 
2.43.0


From d50f457899393086718656cb16cbd9c34d15dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 10/10] fix: validate the shape of every amplitude

Only the first amplitude was checked for its rank and number of terms; others that
merely broadcast against it (e.g. shape (1, n) or (2 * num_terms,)) were accepted and
silently gave wrong fields or fluxes.
---
 src/fmmax/fields.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fmmax/fields.py b/src/fmmax/fields.py
index a59db09..45397b4 100644
--- a/src/fmmax/fields.py
+++ b/src/fmmax/fields.py
@@ -88,8 +88,7 @@ def _validate_amplitudes_shape(
 ) -> None:
     """Validates the shapes for the `amplitudes`."""
     if (
-        amplitudes[0].ndim < 2
-        or amplitudes[0].shape[-2] != num_terms
+        any(a.ndim < 2 or a.shape[-2] != num_terms for a in amplitudes)
         or not utils.batch_compatible_shapes(*[a.shape for a in amplitudes])
     ):
         raise ValueError(
-- 
2.43.0

