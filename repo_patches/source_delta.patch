From 166f7e0c5c547d2c576d610c1a94ce97c4e5af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:53 +0000
Subject: [PATCH 01/15] fix: find_max_amplitude synthesises with the function's
 own spin and reality

---
 src/sleplet/plot_methods.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index d85343a..56cf53c 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -79,18 +79,7 @@ def find_max_amplitude(
         The maximum amplitude value.
     """
     # compute inverse transform
-    if hasattr(function, "slepian"):
-        field = sleplet.slepian_methods.slepian_inverse(
-            function.coefficients,
-            function.L,
-            function.slepian,
-        )
-    else:
-        field = ssht.inverse(
-            function.coefficients,
-            function.L,
-            Method=sleplet._vars.SAMPLING_SCHEME,
-        )
+    field = _coefficients_to_field_sphere(function, function.coefficients)
 
     # find resolution of final plot for boosting if necessary
     resolution = calc_plot_resolution(function.L) if upsample else function.L
-- 
2.43.0


From 5e7436ee58e71c197fc7b1d37e1f197cbce6c960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:53 +0000
Subject: [PATCH 02/15] fix: Identity has complex coefficients without
 conjugate symmetry, it is not a real signal

---
 src/sleplet/functions/identity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/functions/identity.py b/src/sleplet/functions/identity.py
index d930104..55366cc 100644
--- a/src/sleplet/functions/identity.py
+++ b/src/sleplet/functions/identity.py
@@ -28,7 +28,7 @@ class Identity(Flm):
         )
 
     def _set_reality(self: typing_extensions.Self) -> bool:
-        return True
+        return False
 
     def _set_spin(self: typing_extensions.Self) -> int:
         return 0
-- 
2.43.0


From a81f24ca75f245e771fc987df8dbd595f31f74aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:53 +0000
Subject: [PATCH 03/15] fix: hard thresholding leaves the caller's wavelet
 coefficients unchanged

---
 src/sleplet/noise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sleplet/noise.py b/src/sleplet/noise.py
index 3384b8d..60e4fe6 100644
--- a/src/sleplet/noise.py
+++ b/src/sleplet/noise.py
@@ -141,6 +141,7 @@ def harmonic_hard_thresholding(
         The thresholded wavelet coefficients.
     """
     _logger.info("begin harmonic hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs[1:]):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs) - 1}"
         _logger.info(msg)
@@ -175,6 +176,7 @@ def slepian_wavelet_hard_thresholding(
         The hard thresholded Slepian wavelet coefficients.
     """
     _logger.info("begin Slepian hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs)}"
         _logger.info(msg)
@@ -328,6 +330,7 @@ def slepian_mesh_hard_thresholding(
         The thresholded wavelet coefficients of the mesh.
     """
     _logger.info("begin Slepian mesh hard thresholding")
+    wav_coeffs = wav_coeffs.copy()
     for j, coefficient in enumerate(wav_coeffs):
         msg = f"start Psi^{j + 1}/{len(wav_coeffs)}"
         _logger.info(msg)
-- 
2.43.0


From 81dcb4749a9f204ebde1c5eea82c40d1161543dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:27 +0000
Subject: [PATCH 04/15] fix: polar cap matrix entries are scalars (NumPy
 refuses to store one-element arrays)

---
 src/sleplet/slepian/slepian_polar_cap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 9bd1e00..3bbd063 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -255,11 +255,11 @@ class SlepianPolarCap(SlepianFunctions):
             p = int(lvec[j])
             c = 0
             for n in range(abs(el - p), el + p + 1):
-                A = Pl[ell == n - 1] if n != 0 else 1
+                A = Pl[ell == n - 1].item() if n != 0 else 1
                 c += (
                     self._wigner3j(el, n, p, 0, 0, 0)
                     * self._wigner3j(el, n, p, m, 0, -m)
-                    * (A - Pl[ell == n + 1])
+                    * (A - Pl[ell == n + 1].item())
                 )
             Dm[i, j] = (
                 self._polar_gap_modification(el, p)
-- 
2.43.0


From 88d5ca513deae218417f0561187200d26e2ef9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:53 +0000
Subject: [PATCH 05/15] fix: raise exceptions of the matrix workers instead of
 discarding them

---
 src/sleplet/meshes/mesh_slepian.py       | 2 +-
 src/sleplet/slepian/slepian_arbitrary.py | 2 +-
 src/sleplet/slepian/slepian_polar_cap.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index 10765fb..27e4f47 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -130,7 +130,7 @@ class MeshSlepian:
 
         # initialise pool and apply function
         with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
+            list(e.map(func, chunks))
 
         # retrieve from parallel function
         D = D_ext.copy()
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 2682bf3..b199d91 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -147,7 +147,7 @@ class SlepianArbitrary(SlepianFunctions):
 
         # initialise pool and apply function
         with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
+            list(e.map(func, chunks))
 
         # retrieve from parallel function
         D = D_r_ext + 1j * D_i_ext
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 3bbd063..96c972d 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -219,7 +219,7 @@ class SlepianPolarCap(SlepianFunctions):
 
         # initialise pool and apply function
         with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
+            list(e.map(func, chunks))
 
         # retrieve from parallel function
         Dm = Dm_ext * (-1) ** m / 2
-- 
2.43.0


From 6ab9727d9e9442c272026e32246b1d96818b8f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:47 +0000
Subject: [PATCH 06/15] fix: start the sparse eigensolver from a fixed vector
 so that mesh basis functions are reproducible

---
 src/sleplet/_mesh_methods.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index d461d3f..7a53243 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -11,6 +11,7 @@ import tomli
 
 import sleplet._data.setup_pooch
 import sleplet._integration_methods
+import sleplet._vars
 
 _data_path = pathlib.Path(__file__).resolve().parent / "_data"
 _logger = logging.getLogger(__name__)
@@ -96,11 +97,14 @@ def mesh_eigendecomposition(
         )
     except TypeError:
         laplacian = _mesh_laplacian(vertices, faces)
+        # fixed starting vector so that the solution is reproducible
+        rng = np.random.default_rng(sleplet._vars.RANDOM_SEED)
         eigenvalues, eigenvectors = LA_sparse.eigsh(
             laplacian,
             k=number_basis_functions,
             which="LM",
             sigma=0,
+            v0=rng.standard_normal(vertices.shape[0]),
         )
         eigenvectors = _orthonormalise_basis_functions(vertices, faces, eigenvectors.T)
         _logger.info("saving binaries...")
-- 
2.43.0


From f26c2a53a4a6e2e499e7d9d82872cee1be7ef2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:47 +0000
Subject: [PATCH 07/15] fix: keep the denominator of non-integer parameters
 above one in file names

---
 src/sleplet/_string_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/_string_methods.py b/src/sleplet/_string_methods.py
index 31cdced..7a48b6e 100644
--- a/src/sleplet/_string_methods.py
+++ b/src/sleplet/_string_methods.py
@@ -29,7 +29,7 @@ def filename_args(value: float, arg_name: str) -> str:
     filename = "_"
     num, dem = _get_angle_num_dem(value)
     filename += f"{num}{arg_name}"
-    if abs(value) < 1 and value != 0:
+    if dem != 1:
         filename += f"{dem}"
     return filename
 
-- 
2.43.0


From b6a59991a4e2daffee4ab7ce0fbdba720daeac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:47 +0000
Subject: [PATCH 08/15] fix: the area of a polar gap region includes both caps

---
 src/sleplet/slepian/slepian_polar_cap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 96c972d..bbe7232 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -58,7 +58,8 @@ class SlepianPolarCap(SlepianFunctions):
         return sleplet._mask_methods.create_mask_region(self.L, self.region)
 
     def _calculate_area(self: typing_extensions.Self) -> float:
-        return 2 * np.pi * (1 - np.cos(self.theta_max))
+        number_of_caps = 2 if self.gap else 1
+        return number_of_caps * 2 * np.pi * (1 - np.cos(self.theta_max))
 
     def _create_matrix_location(self: typing_extensions.Self) -> str:
         return (
-- 
2.43.0


From 4df01c7500e23625159f30bdfcdcb302817b38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:41 +0000
Subject: [PATCH 09/15] fix: MeshNoiseField builds its field from the module
 that defines MeshField

---
 src/sleplet/meshes/mesh_noise_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/meshes/mesh_noise_field.py b/src/sleplet/meshes/mesh_noise_field.py
index 9e3f853..b392494 100644
--- a/src/sleplet/meshes/mesh_noise_field.py
+++ b/src/sleplet/meshes/mesh_noise_field.py
@@ -7,7 +7,7 @@ import typing_extensions
 
 import sleplet._string_methods
 import sleplet._validation
-import sleplet.meshes.mesh_slepian
+import sleplet.meshes.mesh_field
 import sleplet.noise
 from sleplet.meshes.mesh_harmonic_coefficients import MeshHarmonicCoefficients
 
@@ -26,7 +26,7 @@ class MeshNoiseField(MeshHarmonicCoefficients):
     def _create_coefficients(
         self: typing_extensions.Self,
     ) -> npt.NDArray[np.complex128 | np.float64]:
-        mf = sleplet.meshes.mesh_slepian.MeshField(self.mesh)
+        mf = sleplet.meshes.mesh_field.MeshField(self.mesh)
         noise = sleplet.noise._create_mesh_noise(mf.coefficients, self.SNR)
         sleplet.noise.compute_snr(mf.coefficients, noise, "Harmonic")
         return noise
-- 
2.43.0


From 2db299a0b942435b89c8aa6e749048aea5471d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 10/15] fix: use the upsample argument of PlotSphere in the
 Fig. 2.1 documentation

The code block passed unzeropad=True, which PlotSphere does not accept (TypeError).
---
 documentation/DOCUMENTATION.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/documentation/DOCUMENTATION.md b/documentation/DOCUMENTATION.md
index f5a6f5e..fbf1e16 100644
--- a/documentation/DOCUMENTATION.md
+++ b/documentation/DOCUMENTATION.md
@@ -919,7 +919,7 @@ for ell in range(5):
             f.L,
             f"fig_2_1_ell_{ell}_m_{m}",
             normalise=False,
-            unzeropad=True,
+            upsample=False,
         ).execute()
 ```
 
-- 
2.43.0


From 8502220834b26b3bc881f4d17ec675b9777cc000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 11/15] fix: solve a single polar-cap order afresh when only
 leading eigenvectors are stored

---
 src/sleplet/slepian/slepian_polar_cap.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index bbe7232..3fc238d 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -102,6 +102,13 @@ class SlepianPolarCap(SlepianFunctions):
         orders = np.load(sleplet._data.setup_pooch.find_on_pooch_then_local(order_loc))
 
         if self.order is not None:
+            if len(eigenvectors) < len(orders):
+                # only the leading eigenvectors over all orders are stored
+                return self._solve_eigenproblem_from_scratch(
+                    eval_loc,
+                    evec_loc,
+                    order_loc,
+                )
             idx = np.where(orders == self.order)
             return eigenvalues[idx], eigenvectors[idx]
         self.order = orders
-- 
2.43.0


From f90a42c4c1445b8c7b027079157f740b450a56ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 12/15] fix: keep Slepian wavelet scales aligned when the
 signal vanishes at one of them

---
 src/sleplet/wavelet_methods.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sleplet/wavelet_methods.py b/src/sleplet/wavelet_methods.py
index 7a35862..f5f8115 100644
--- a/src/sleplet/wavelet_methods.py
+++ b/src/sleplet/wavelet_methods.py
@@ -26,14 +26,14 @@ def slepian_wavelet_forward(
     Returns:
         The Slepian wavelets coefficients of the signal.
     """
-    return find_non_zero_wavelet_coefficients(
-        sleplet._convolution_methods.sifting_convolution(
-            wavelets,
-            f_p,
-            shannon=shannon,
-        ),
-        axis=1,
+    wav_coeffs = sleplet._convolution_methods.sifting_convolution(
+        wavelets,
+        f_p,
+        shannon=shannon,
     )
+    # keep every scale with support within the Shannon number, even when the
+    # signal vanishes there, such that the scales still match the wavelets
+    return wav_coeffs[wavelets[:, :shannon].any(axis=1)]
 
 
 def slepian_wavelet_inverse(
-- 
2.43.0


From de36fb71359ac933f86b91114a12e546ebd16de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:35 +0000
Subject: [PATCH 13/15] fix: declare the field cache of SlepianArbitrary
 (pydantic refuses to assign undeclared attributes)

---
 src/sleplet/slepian/slepian_arbitrary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index b199d91..8194bfd 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -36,6 +36,11 @@ class SlepianArbitrary(SlepianFunctions):
 
     mask_name: str
     """The name of the mask of the arbitrary region."""
+    _fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = pydantic.Field(
+        default_factory=dict,
+        init_var=False,
+        repr=False,
+    )
     _weight: npt.NDArray[np.float64] = pydantic.Field(
         default_factory=lambda: np.empty(0),
         init_var=False,
@@ -107,7 +112,7 @@ class SlepianArbitrary(SlepianFunctions):
     ) -> npt.NDArray[np.complex128]:
         """Compute the D matrix in parallel."""
         # create dictionary for the integrals
-        self._fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = {}
+        self._fields = {}
 
         # initialise real and imaginary matrices
         D_r = np.zeros((self.L**2, self.L**2))
-- 
2.43.0


From 8905a1543afc4f826cb6fd299e22acdf50c2c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 14/15] fix: let the annotations of a sphere plot hold the
 strings the translation marker needs

---
 src/sleplet/_plotly_methods.py              | 2 +-
 src/sleplet/_scripts/plotting_on_sphere.py  | 6 +++++-
 src/sleplet/plotting/_create_plot_sphere.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/_plotly_methods.py b/src/sleplet/_plotly_methods.py
index a1f3381..1a83873 100644
--- a/src/sleplet/_plotly_methods.py
+++ b/src/sleplet/_plotly_methods.py
@@ -32,7 +32,7 @@ def create_camera(  # noqa: PLR0913
 def create_layout(
     camera: go.layout.scene.Camera,
     *,
-    annotations: list[dict[str, float | int]] | None = None,
+    annotations: list[dict[str, float | int | str]] | None = None,
 ) -> go.Layout:
     """Create the default plotly layout."""
     return go.Layout(
diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index 1b0d983..3fab3bb 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -302,7 +302,11 @@ def _translation_helper(
     alpha_pi_frac: float,
     beta_pi_frac: float,
     shannon: int | None,
-) -> tuple[npt.NDArray[np.complex128 | np.float64], str, dict[str, float | int]]:
+) -> tuple[
+    npt.NDArray[np.complex128 | np.float64],
+    str,
+    dict[str, float | int | str],
+]:
     """Perform the translation specific steps."""
     msg = f"angles: (alpha, beta) = ({alpha_pi_frac}, {beta_pi_frac})"
     _logger.info(msg)
diff --git a/src/sleplet/plotting/_create_plot_sphere.py b/src/sleplet/plotting/_create_plot_sphere.py
index 933b60b..3c48fb8 100644
--- a/src/sleplet/plotting/_create_plot_sphere.py
+++ b/src/sleplet/plotting/_create_plot_sphere.py
@@ -32,7 +32,7 @@ class PlotSphere:
     _: dataclasses.KW_ONLY
     amplitude: float | None = None
     """Whether to customise the amplitude range of the colour bar."""
-    annotations: list[dict[str, float | int]] = pydantic.Field(default_factory=list)
+    annotations: list[dict[str, float | int | str]] = pydantic.Field(default_factory=list)
     """Whether to display any annotations on the surface plot or not."""
     normalise: bool = True
     """Whether to normalise the plot or not."""
-- 
2.43.0


From b31f36ffd4d74f41152546295091dc518818a326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 15/15] fix: do not rotate the Slepian coefficients of a signal
 convolved with the Earth

---
 src/sleplet/_scripts/plotting_on_sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index 3fab3bb..19c64a4 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -232,7 +232,7 @@ def plot(  # noqa: PLR0913
         )
 
     # rotate plot of Earth
-    if "earth" in filename:
+    if "earth" in filename and not hasattr(f, "slepian"):
         match earth_view:
             case "africa":
                 coefficients = sleplet.harmonic_methods.rotate_earth_to_africa(
-- 
2.43.0

