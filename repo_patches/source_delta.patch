From ab448020275f6104bb5195e1517b1511362abf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 01/51] fix: lr_multiply_by_vec and lr_divide_vec reshaped the
 caller's vector in place

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 6a29139..583f4d2 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -414,7 +414,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_multiply_by_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         a_size_vec = inp_a_arr.shape
         if inp_b_arr.ndim == 2:
             out_vec = np.zeros((1, inp_a_arr.shape[1]))
@@ -429,7 +429,7 @@ class SquareMatVector(MatVector):
     @staticmethod
     def lr_divide_vec(inp_b_arr: np.ndarray, inp_a_arr: np.ndarray) -> np.ndarray:
         if inp_a_arr.ndim == 1:
-            inp_a_arr.shape = (inp_a_arr.size, 1)
+            inp_a_arr = np.reshape(inp_a_arr, (inp_a_arr.size, 1))
         if inp_b_arr.ndim == 2:
             out_vec = inp_a_arr.T @ np.linalg.lstsq(inp_b_arr, inp_a_arr, -1)[0]
         else:
-- 
2.43.0


From 0ae52c90a39ea9bc64f33630302193ec34b77d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 02/51] fix: copying a hyperplane lost its relative tolerance

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 1c1884a..97e0b5e 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -91,7 +91,7 @@ class Hyperplane(ABasicEllipsoid):
 
     def _get_single_copy(self):
         normal_vec, shift = self.parameters()
-        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol)
+        return self.__class__(normal_vec, shift, abs_tol=self._abs_tol, rel_tol=self._rel_tol)
 
     @classmethod
     def contains(cls, hyp_arr: Union[Iterable, np.ndarray], x_arr: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 4b3654d0fbb66559e42496afef1705b6dca12ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 03/51] fix: comparing objects with their properties included
 raised KeyError

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py   | 2 ++
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index bc143aa..a1fc547 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -697,6 +697,8 @@ class Ellipsoid(AEllipsoid):
             field_descr_dict['n_plot_2d_points'] = 'Degree of ellipsoid border smoothness in 2D plotting.'
             field_nice_names_dict['n_plot_3d_points'] = 'n_plot_3d_points'
             field_descr_dict['n_plot_3d_points'] = 'Degree of ellipsoid border smoothness in 3D plotting.'
+            for prop_name in ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']:
+                field_transform_func_dict[prop_name] = lambda z: z
         return ell_dict_arr, field_nice_names_dict, field_descr_dict, field_transform_func_dict
 
     @classmethod
diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 97e0b5e..ca55245 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -290,6 +290,8 @@ class Hyperplane(ABasicEllipsoid):
             field_descr_dict['abs_tol'] = 'Absolute tolerance.'
             field_nice_names_dict['rel_tol'] = 'rel_tol'
             field_descr_dict['rel_tol'] = 'Relative tolerance.'
+            for prop_name in ['abs_tol', 'rel_tol']:
+                field_transform_func_dict[prop_name] = lambda z: z
         return hyp_dict_arr, field_nice_names_dict, field_descr_dict, field_transform_func_dict
 
     @classmethod
-- 
2.43.0


From 40622c237420e47a105cab20dcd68465e2ae77b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 04/51] fix: dict_compare ignored differing lengths of list
 values

---
 products/ellipy/gen/dict/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 5682870..a076f15 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -115,6 +115,8 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                             return False, comp_report_str
                     else:
                         n_comp_elems = len(x)
+                        if n_comp_elems != len(y):
+                            return False, 'Different sizes (left: {}, right: {})'.format(n_comp_elems, len(y))
                         if n_comp_elems == 0:
                             return True, ''
                         is_comp_eq = True
-- 
2.43.0


From 182e121a310d684242449de014a78fd0b7c853ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 05/51] fix: projection accepted bases with negative scalar
 products as orthogonal

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index e3ef30f..deabf4e 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -57,7 +57,7 @@ class AEllipsoid(ABasicEllipsoid, ABC):
             sc_prod_mat = basis_mat.T @ basis_mat
             norm_sq_vec = np.diag(sc_prod_mat)
             _, abs_tol = cls.get_abs_tol(ell_arr, lambda z: np.max(z))
-            is_orthogonal_mat = (sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
+            is_orthogonal_mat = np.abs(sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol
             if np.any(is_orthogonal_mat.flatten()):
                 throw_error('wrongInput', 'basis vectors must be orthogonal')
             # normalize the basis vectors
-- 
2.43.0


From 4297bed5371dd83491edb771d9794e0536395c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 06/51] fix: is_parallel held as soon as one component of the
 normals agreed

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index ca55245..f2244db 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -210,9 +210,9 @@ class Hyperplane(ABasicEllipsoid):
             if np.array_equal(np.shape(first_hyp_norm_vec), np.shape(sec_hyp_norm_vec)):
                 first_hyp_norm_vec /= np.linalg.norm(first_hyp_norm_vec)
                 sec_hyp_norm_vec /= np.linalg.norm(sec_hyp_norm_vec)
-                if np.max(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec) < first_hyp_abs_tol):
+                if np.all(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec) < first_hyp_abs_tol):
                     is_pos = True
-                elif np.max(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec) < first_hyp_abs_tol):
+                elif np.all(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec) < first_hyp_abs_tol):
                     is_pos = True
             return is_pos
 
-- 
2.43.0


From b2b25936deca4b6940189c540a9c7c110419c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 07/51] fix: is_parallel compared a single hyperplane only with
 the first element of an array

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index f2244db..b94272c 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -221,6 +221,11 @@ class Hyperplane(ABasicEllipsoid):
                 (np.size(sec_hyp_arr) == 1)):
             throw_error('wrongSizes', 'Sizes of hyperplane arrays do not match.')
 
+        if np.size(first_hyp_arr) == 1 and np.size(sec_hyp_arr) != 1:
+            first_hyp_arr = np.full(np.shape(sec_hyp_arr), first_hyp_arr.flat[0])
+        elif np.size(sec_hyp_arr) == 1:
+            sec_hyp_arr = np.full(np.shape(first_hyp_arr), sec_hyp_arr.flat[0])
+
         first_hyp_abs_tol_arr = cls.get_abs_tol(first_hyp_arr, f_prop_fun=None).flatten()
 
         is_pos_arr = np.reshape(np.array([is_sing_parallel(x, y, z)
-- 
2.43.0


From f55738785157b7916627e353973e7f849ab72a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 08/51] fix: the support function of a degenerate ellipsoid
 ignored the tolerance for a single direction

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 products/ellipy/gras/geom/ell/ell.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index a1fc547..f5e5a27 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -590,7 +590,7 @@ class Ellipsoid(AEllipsoid):
     def rho(cls, ell_arr: Union[Iterable, np.ndarray], dirs_arr: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         def f_rho_for_dir(ell_obj, dir_vec: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
             c_vec, e_mat = ell_obj.double()
-            a_tol = ell_obj.get_abs_tol(ell_obj)
+            _, a_tol = ell_obj.get_abs_tol(ell_obj)
             sup_fun, x_vec = rho_mat(e_mat, dir_vec, a_tol, c_vec.reshape(-1, 1))
             return sup_fun, x_vec
 
diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 35644bd..27978fb 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -104,7 +104,7 @@ def rho_mat(ell_shape_mat: np.ndarray, dirs_mat: np.ndarray,
         ell_center_vec = np.zeros((m, 1))
     nd = dirs_mat.shape[1]
     if nd == 1:
-        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat)
+        sq = sqrt_pos(dirs_mat.T @ ell_shape_mat @ dirs_mat, abs_tol)
         sup_arr = ell_center_vec.T @ dirs_mat + sq
         bp_mat = (ell_shape_mat @ dirs_mat) / sq
         if np.any(np.isnan(bp_mat)):
-- 
2.43.0


From 460edecc974a828056aef1f30318e79db96d7847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 09/51] fix: the plotting grid could not be built in two
 dimensions

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index f5e5a27..ed10c17 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -191,12 +191,12 @@ class Ellipsoid(AEllipsoid):
         if n_dim == 2:
             n_plot_points = self._n_plot_2d_points
             if not (factor == 1):
-                n_plot_points = np.floor(n_plot_points * factor)
+                n_plot_points = int(np.floor(n_plot_points * factor))
         else:
             n_plot_points = self._n_plot_3d_points
             if not (factor == 1):
-                n_plot_points = np.floor(n_plot_points * factor)
-        v_grid_mat, f_grid_mat = sphere_tri_ext(n_dim, n_plot_points)
+                n_plot_points = int(np.floor(n_plot_points * factor))
+        v_grid_mat, f_grid_mat = sphere_tri_ext(n_dim, n_plot_points, True)
         v_grid_mat[v_grid_mat == 0] = __EPS
 
         return v_grid_mat, f_grid_mat
-- 
2.43.0


From efc6cc40ef2e84c37d0b19b6558f9d636b8dc442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 10/51] fix: get_boundary without a grid failed in three
 dimensions

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index ed10c17..ae6bd8e 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -287,11 +287,7 @@ class Ellipsoid(AEllipsoid):
         else:
             throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
 
-        if return_grid:
-            dir_mat, f_mat = sphere_tri_ext(n_dim, n_points, return_grid)
-        else:
-            dir_mat = sphere_tri_ext(n_dim, n_points, return_grid)
-            f_mat = None
+        dir_mat, f_mat = sphere_tri_ext(n_dim, n_points, True)
         cen_vec, q_mat = self.double()
         ret_mat = dir_mat @ sqrtm_pos(q_mat, self.get_abs_tol([self], f_prop_fun=None).flat[0])
         cen_mat = np.tile(cen_vec.T, (dir_mat.shape[0], 1))
-- 
2.43.0


From 1c37723e3bb922dc815667254d852cec0914538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 11/51] fix: boundary functions rejected a non-integer scale
 factor

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index ae6bd8e..4608144 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -305,7 +305,7 @@ class Ellipsoid(AEllipsoid):
             throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.isscalar(factor_vec):
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
@@ -360,7 +360,7 @@ class Ellipsoid(AEllipsoid):
         n_plot_points = None
         if factor_vec is None:
             factor = 1
-        elif type(factor_vec) is int:
+        elif np.isscalar(factor_vec):
             factor = factor_vec
         else:
             factor = factor_vec[n_dim - 2]
-- 
2.43.0


From 6b39ff0324c15bd12d84f97267451efd62186d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 12/51] fix: polar failed for lists and for arrays of several
 ellipsoids

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 4608144..45b45c0 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -575,11 +575,12 @@ class Ellipsoid(AEllipsoid):
     @classmethod
     def polar(cls, ell_arr: Union[Iterable, np.ndarray]) -> np.ndarray:
         cls._check_is_me(ell_arr)
+        ell_arr = np.array(ell_arr)
         if np.any(cls.is_degenerate(ell_arr)):
             throw_error('degenerateEllipsoid', 'The resulting ellipsoid is not bounded')
-        pol_ell_arr = np.empty((1, ell_arr.size), dtype=cls.__class__)
+        pol_ell_arr = np.empty((ell_arr.size,), dtype=object)
         for i_elem in range(ell_arr.size):
-            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr[i_elem], True)
+            pol_ell_arr[i_elem] = cls._get_scalar_polar_internal(ell_arr.flat[i_elem], True)
         return np.reshape(pol_ell_arr, ell_arr.shape)
 
     @classmethod
-- 
2.43.0


From a3b70b0770a76220d1d18a6413fe6c2127a5e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 13/51] fix: the polar of an ellipsoid with a non-zero center
 used an elementwise product

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 45b45c0..ab39c9c 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -77,14 +77,14 @@ class Ellipsoid(AEllipsoid):
 
             norm_const = quad_mat(sh_mat, c_vec, 0, 'inv')
             polar_c_vec = -np.linalg.lstsq(sh_mat, c_vec, -1)[0] / (1.0 - norm_const)
-            polar_sh_mat = inv_sh_mat / (1.0 - norm_const) + polar_c_vec * polar_c_vec.T
+            polar_sh_mat = inv_sh_mat / (1.0 - norm_const) + np.outer(polar_c_vec, polar_c_vec)
             polar_obj = self.__class__(polar_c_vec, polar_sh_mat)
             return polar_obj
         else:
             c_vec, sh_mat = self.double()
             is_zero_in_ell = quad_mat(sh_mat, c_vec, 0, 'invadv')
             if is_zero_in_ell < 1:
-                aux_mat = np.linalg.inv(sh_mat - c_vec @ c_vec.T)
+                aux_mat = np.linalg.inv(sh_mat - np.outer(c_vec, c_vec))
                 aux_mat = (aux_mat + aux_mat.T) / 2
 
                 d_vec, v_mat = np.linalg.eigh(aux_mat)
-- 
2.43.0


From cbd7f0e638613bf32edb948e88b167834c7a96be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 14/51] fix: is_internal failed for lists and for flat arrays
 of ellipsoids

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index ab39c9c..132e862 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -410,10 +410,10 @@ class Ellipsoid(AEllipsoid):
             def f_single_case(sing_ell: np.ndarray, abs_tol: np.float64) -> bool:
                 from ellipy.gras.geom.ell.ell import inv_mat
                 is_pos = False
-                c_vec = (x_vec - np.array([sing_ell.flat[0].get_center_vec().T])).T
-                sh_mat = sing_ell.flat[0].get_shape_mat()
+                c_vec = (x_vec - np.array([sing_ell.get_center_vec().T])).T
+                sh_mat = sing_ell.get_shape_mat()
 
-                if sing_ell.flat[0].is_degenerate([sing_ell]).flat[0]:
+                if sing_ell.is_degenerate([sing_ell]).flat[0]:
                     if Properties.get_is_verbose():
                         logger = get_logger()
                         logger.info('ISINTERNAL: Warning! There is degenerate ellipsoid in the array.')
@@ -427,7 +427,7 @@ class Ellipsoid(AEllipsoid):
             abs_tol_arr = cls.get_abs_tol(ell_arr_in, f_prop_fun=None)
             is_pos_arr = np.full((n_dims_mat.size, 1), True, dtype=bool)
             for j in range(0, n_dims_mat.size):
-                is_pos_arr[j] = f_single_case(ell_arr_in[j], abs_tol_arr[j])
+                is_pos_arr[j] = f_single_case(ell_arr_in.flat[j], abs_tol_arr.flat[j])
             if mode_in == 'u':
                 is_positive = False
                 if np.any(np.ravel(is_pos_arr)):
@@ -439,6 +439,7 @@ class Ellipsoid(AEllipsoid):
             return is_positive
 
         cls._check_is_me(ell_arr, 'first')
+        ell_arr = np.array(ell_arr)
         if not is_numeric(mat_of_vec_mat):
             throw_error('wrongInput', 'The second input argument must be a numeric matrix.')
         if ell_arr.size == 0:
-- 
2.43.0


From 4431b3518e1eccc5a82366f17f0fcda616400926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 15/51] fix: the default configuration failed its own
 validation

---
 products/ellipy/elltool/conf/properties/Properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/conf/properties/Properties.py b/products/ellipy/elltool/conf/properties/Properties.py
index c4f0eed..b0d64df 100644
--- a/products/ellipy/elltool/conf/properties/Properties.py
+++ b/products/ellipy/elltool/conf/properties/Properties.py
@@ -45,7 +45,7 @@ class Properties(ParsePropMixin):
             'rel_tol': 1e-05,
             'n_time_grid_points': 250,
             'ode_solver_name': 'ode45',
-            'is_ode_norm_control': 'on',
+            'is_ode_norm_control': True,
             'is_enabled_ode_solver_options': False,
             'n_plot_2d_points': 200,
             'n_plot_3d_points': 200,
-- 
2.43.0


From ff2b7ae17f2e126668dd5b782f8ef2fff1eb6742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 16/51] fix: each get_logger call added one more handler,
 repeating every message

---
 products/ellipy/gen/logging/logging.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/gen/logging/logging.py b/products/ellipy/gen/logging/logging.py
index 04f00b0..f74d952 100644
--- a/products/ellipy/gen/logging/logging.py
+++ b/products/ellipy/gen/logging/logging.py
@@ -5,10 +5,11 @@ from ellipy.gen.common.common import get_caller_name
 def get_logger():
     caller_name = get_caller_name(2, 'full')
     logger = logging.getLogger(caller_name)
-    handler = logging.StreamHandler()
-    formatter = logging.Formatter(
-        '%(asctime)s [%(name)-12s] %(levelname)-8s %(message)s')
-    handler.setFormatter(formatter)
-    logger.addHandler(handler)
+    if not logger.handlers:
+        handler = logging.StreamHandler()
+        formatter = logging.Formatter(
+            '%(asctime)s [%(name)-12s] %(levelname)-8s %(message)s')
+        handler.setFormatter(formatter)
+        logger.addHandler(handler)
     logger.setLevel(logging.DEBUG)
     return logger
-- 
2.43.0


From 9d01c8febd02fa983c000f8b9c49112ea729923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 17/51] fix: the != operator always raised TypeError

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py   | 3 ++-
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 132e862..77408cd 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -268,7 +268,8 @@ class Ellipsoid(AEllipsoid):
     @classmethod
     def ne(cls, first_ell_arr: Union[Iterable, np.ndarray],
            second_ell_arr: Union[Iterable, np.ndarray]) -> Tuple[np.ndarray, str]:
-        pass
+        is_eq_arr, report_str = cls.is_equal(first_ell_arr, second_ell_arr)
+        return np.logical_not(is_eq_arr), report_str
 
     def __ne__(self, other):
         is_ne, _ = self.ne([self], [other])
diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index b94272c..194dbec 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -239,7 +239,8 @@ class Hyperplane(ABasicEllipsoid):
     @classmethod
     def ne(cls, first_hyp_arr: Union[Iterable, np.ndarray],
            second_hyp_arr: Union[Iterable, np.ndarray]) -> Tuple[np.ndarray, str]:
-        pass
+        is_eq_arr, report_str = cls.is_equal(first_hyp_arr, second_hyp_arr)
+        return np.logical_not(is_eq_arr), report_str
 
     def __ne__(self, other):
         is_ne, _ = self.ne([self], [other])
-- 
2.43.0


From 8548d5bafd0fa893778d7ad7da27b0294e55c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 18/51] fix: tube triangulations returned floating point vertex
 indices

---
 products/ellipy/gras/geom/tri/tri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index c96d1f6..bee29ab 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -12,7 +12,7 @@ def ell_tube_2_tri(n_e_points: int, n_points: int) -> np.ndarray:
     ttime_data_vec = adtime_vec * n_e_points
     adtime_vec = (adtime_vec - 1) * n_e_points
     adtime_vec = np.tile(adtime_vec, (n_e_points - 1, 1))
-    ie_mat = np.cumsum(np.tile(np.ones((1, n_points - 1)), (n_e_points - 1, 1)), 0) + adtime_vec
+    ie_mat = np.cumsum(np.tile(np.ones((1, n_points - 1), dtype=int), (n_e_points - 1, 1)), 0) + adtime_vec
     ie_mat = ie_mat.T.flatten()
 
     part1_facet_data_1 = np.vstack((ie_mat, ie_mat + 1, ie_mat + 1 + n_e_points)).T
@@ -25,7 +25,7 @@ def ell_tube_2_tri(n_e_points: int, n_points: int) -> np.ndarray:
 
 def ell_tube_discr_tri(n_dim: int, m_dim: int) -> np.ndarray:
     return np.tile(n_dim * np.arange(m_dim).T, ([n_dim + 1, 1])).T + \
-           np.tile(np.hstack((np.arange(n_dim), 0.)), ([m_dim, 1]))
+           np.tile(np.hstack((np.arange(n_dim), 0)), ([m_dim, 1]))
 
 
 def icosahedron() -> Tuple[np.ndarray, np.ndarray]:
-- 
2.43.0


From 82c87183f3042f4f92580402d7c62c0ef51ed3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 19/51] fix: MatVector.pinv failed for a single matrix

---
 products/ellipy/gras/gen/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 583f4d2..569dacb 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -95,7 +95,7 @@ class MatVector:
             arr_size = (arr_size[0], arr_size[1], 1)
         inv_data_array = np.zeros((arr_size[1], arr_size[0], arr_size[2]), dtype=np.float64)
         for t in range(arr_size[2]):
-            inv_data_array[:, :, t] = np.linalg.pinv(data_arr[:, :, t])
+            inv_data_array[:, :, t] = np.linalg.pinv(data_arr[:, :, t] if data_arr.ndim > 2 else data_arr)
         return inv_data_array
 
     @staticmethod
-- 
2.43.0


From 3c9468e53bd5dc1e48e4b9b70409d46059c330ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 20/51] fix: lr_svd_divide_vec failed for a single matrix

---
 products/ellipy/gras/gen/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 569dacb..43a66c6 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -489,7 +489,7 @@ class SymmetricMatVector(SquareMatVector):
         n_mat_elems = np.shape(inp_b_arr)
         n_mat_elems = n_mat_elems[2]
         if n_mat_elems == 1:
-            b_inv_mat = np.diag(1 / np.diag(s_array))
+            b_inv_mat = np.diag(1 / np.diag(s_array[:, :, 0]))
             out_vec = np.sum(((b_inv_mat @ ua_array) * ua_array), axis=0)
         else:
             out_vec = np.zeros(n_elems, dtype=np.float64)
-- 
2.43.0


From b476c8d8f89bee0869bcc9a3df716a4b5519ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 21/51] fix: products through the spectral decomposition used
 the transposed eigenbasis

---
 products/ellipy/gras/gen/gen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 43a66c6..ebac923 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -455,7 +455,7 @@ class SymmetricMatVector(SquareMatVector):
             ua_array = SquareMatVector.r_multiply(u_array, inp_a_arr)
         else:
             throw_error('wrongInput:flag', 'flag %s is not supported' % flag)
-        out_array = SquareMatVector.lr_multiply(s_array, ua_array, flag)
+        out_array = SquareMatVector.lr_multiply(s_array, ua_array)
         return out_array
 
     @staticmethod
@@ -506,6 +506,7 @@ class SymmetricMatVector(SquareMatVector):
         u_array = np.zeros(size_vec, dtype=np.float64)
         s_array = np.zeros(size_vec, dtype=np.float64)
         for t in range(size_vec[2]):
-            eig_vec, s_array[:, :, t] = la.eigh(sym_arr[:, :, t])
-            u_array[:, :, t] = np.diag(eig_vec)
-        return s_array, u_array
+            eig_vec, eig_mat = la.eigh(sym_arr[:, :, t])
+            u_array[:, :, t] = eig_mat.T
+            s_array[:, :, t] = np.diag(eig_vec)
+        return u_array, s_array
-- 
2.43.0


From a1c6c1847721b8b0143fdfcc5456ddf059d97070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 22/51] fix: orth_transl_qr returned NaN for collinear vectors

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 78c1bad..a707d0c 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -197,7 +197,7 @@ def orth_transl_qr(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     else:
         q_mat, r_mat = np.linalg.qr(np.hstack((dst_vec, src_vec)))
         cos_val = dst_vec.T @ src_vec / np.sqrt(dst_squared_norm * src_squared_norm)
-        sin_val = -np.sqrt(1 - cos_val * cos_val)
+        sin_val = -np.sqrt(np.maximum(1 - cos_val * cos_val, 0.))
         if r_mat[0, 0] * r_mat[1, 1] < 0.:
             sin_val = -sin_val
 
-- 
2.43.0


From e064baa8b800bba01f663fe3976a9abfb0c6b2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 23/51] fix: ell_volume returned NaN for degenerate matrices

---
 products/ellipy/gras/geom/ell/ell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/ell/ell.py b/products/ellipy/gras/geom/ell/ell.py
index 27978fb..f1b21cd 100644
--- a/products/ellipy/gras/geom/ell/ell.py
+++ b/products/ellipy/gras/geom/ell/ell.py
@@ -9,7 +9,7 @@ from ellipy.gen.common.common import throw_error, is_numeric
 def ell_volume(q_mat: np.ndarray) -> float:
     n_dims = q_mat.shape[0]
     vol_val = \
-        np.pi ** (n_dims * 0.5) * np.sqrt(np.linalg.det(q_mat)) / gamma(0.5 * n_dims + 1)
+        np.pi ** (n_dims * 0.5) * np.sqrt(np.maximum(np.linalg.det(q_mat), 0.)) / gamma(0.5 * n_dims + 1)
     return vol_val
 
 
-- 
2.43.0


From 697de5bd26b343aa85dc381babddc01c5f7af8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 24/51] fix: copying an array with one element lost its shape

---
 products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index e38912e..78a5e5d 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -228,7 +228,7 @@ class ABasicEllipsoid(ABC):
         ell_arr = ell_arr.flatten()
         if ell_arr.size == 1:
             # noinspection PyProtectedMember
-            return np.array(ell_arr[0]._get_single_copy())
+            return np.reshape(np.array([ell_arr[0]._get_single_copy()]), ell_shape_vec)
         else:
             copy_ell_arr = np.empty((n_elems,), dtype=np.object)
             for i_elem in range(n_elems):
-- 
2.43.0


From b5d6f9b716f3461efca60b6258c758fa80d6ab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 25/51] fix: r_multiply failed when one of the factors was
 1-by-1

---
 products/ellipy/gras/gen/gen.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index ebac923..369e578 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -242,6 +242,9 @@ class MatVector:
             return sp.csc_matrix((int_arr.T.flatten(), (i_ind, j_ind)),
                                  shape=(n_rows * n_time_points, n_cols * n_time_points))
 
+        def f_mul(x_mat: np.ndarray, y_mat: np.ndarray) -> np.ndarray:
+            return x_mat * y_mat if x_mat.size == 1 or y_mat.size == 1 else x_mat @ y_mat
+
         use_sparse = use_sparse_matrix
         a_shape = a_arr.shape
         n_a_rows = a_shape[0]
@@ -283,10 +286,10 @@ class MatVector:
                     res_mat = np.zeros((n_a_rows, n_b_cols, n_time_points), dtype=np.float64)
                 if b_shape[2] == n_time_points:
                     for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr[:, :, i_time_point]
+                        res_mat[:, :, i_time_point] = f_mul(a_arr[:, :, i_time_point], b_arr[:, :, i_time_point])
                 elif b_shape[2] == 1:
                     for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ b_arr
+                        res_mat[:, :, i_time_point] = f_mul(a_arr[:, :, i_time_point], b_arr)
                 else:
                     throw_error('wrongInput', 'Incorrect size of b_arr')
             else:
@@ -297,8 +300,8 @@ class MatVector:
                 else:
                     res_mat = np.zeros((n_a_rows, n_c_cols, n_time_points), dtype=np.float64)
                 for i_time_point in range(n_time_points):
-                    res_mat[:, :, i_time_point] = a_arr[:, :, i_time_point] @ \
-                                                  b_arr[:, :, i_time_point] @ c_arr[:, :, i_time_point]
+                    res_mat[:, :, i_time_point] = f_mul(f_mul(a_arr[:, :, i_time_point],
+                                                              b_arr[:, :, i_time_point]), c_arr[:, :, i_time_point])
         return res_mat
 
 
-- 
2.43.0


From 32fb1b3a443742394555c5c20bdfaae0c469f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 26/51] fix: rho failed for a flat collection of ellipsoids
 with as many directions

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 77408cd..56860c4 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -607,7 +607,7 @@ class Ellipsoid(AEllipsoid):
         n_dirs = np.prod(dir_size_vec[1:])
         #
         if not (is_one_ell or is_one_dir or n_ell == n_dirs and
-                (ell_size_vec[0] == 1 or ell_size_vec[1] == 1) and
+                (ell_size_vec[0] == 1 or len(ell_size_vec) > 1 and ell_size_vec[1] == 1) and
                 len(dir_size_vec) == 2 or np.all(ell_size_vec == dir_size_vec[1:])):
             throw_error('wrongInput:wrongSizes', 'arguments must be single ellipsoid or single ' +
                         'direction vector or arrays of almost the same sizes')
-- 
2.43.0


From 58de5ed8d079766c19ee30f6da2d59c73eac504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 27/51] fix: get_rho_boundary_by_factor raised IndexError for
 dimensions it does not support

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 56860c4..1e8ede2 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -358,7 +358,8 @@ class Ellipsoid(AEllipsoid):
             Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray]:
         Ellipsoid._check_if_scalar(self)
         n_dim = self.dimension([self]).flat[0]
-        n_plot_points = None
+        if (n_dim < 2) or (n_dim > 3):
+            throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
         if factor_vec is None:
             factor = 1
         elif np.isscalar(factor_vec):
@@ -370,12 +371,10 @@ class Ellipsoid(AEllipsoid):
             n_plot_points = self._n_plot_2d_points
             if factor != 1.0:
                 n_plot_points = int(np.floor(n_plot_points * factor))
-        elif n_dim == 3:
+        else:
             n_plot_points = self._n_plot_3d_points
             if factor != 1.0:
                 n_plot_points = int(np.floor(n_plot_points * factor))
-        else:
-            throw_error('wrongDim', 'ellipsoid must be of dimension 2 or 3')
         return self.get_rho_boundary(n_points=n_plot_points)
 
     @classmethod
-- 
2.43.0


From ad294e7f976a52e6a65f78ebe60b9204031e24b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 28/51] fix: to_dict did not check the class of the elements

---
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py   | 1 +
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 1e8ede2..6e62115 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -669,6 +669,7 @@ class Ellipsoid(AEllipsoid):
                     ell_obj.get_property(ell_obj_arr, 'n_plot_3d_points', None).flatten()[0]
             return ell_dict
 
+        cls._check_is_me(ell_arr)
         ell_arr = np.array(ell_arr)
         if abs_tol is None:
             _, abs_tol = cls.get_abs_tol(ell_arr)
diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 194dbec..2e798d0 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -276,6 +276,7 @@ class Hyperplane(ABasicEllipsoid):
                 hp_dict['rel_tol'] = hp_obj.get_rel_tol(hp_obj_arr, None).flatten()[0]
             return hp_dict
 
+        cls._check_is_me(hyp_arr)
         hyp_arr = np.array(hyp_arr)
         hyp_dict_arr = np.reshape(np.array(
             [hp_2_dict(hp_obj, is_prop_included) for hp_obj in list(hyp_arr.flatten())]), hyp_arr.shape)
-- 
2.43.0


From 414cef2be1798ba2bec8db9341c97991ebbd9c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 29/51] fix: volume of a collection mixing degenerate and
 non-degenerate ellipsoids was a ragged object array

---
 products/ellipy/elltool/core/aellipsoid/AEllipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
index deabf4e..6fcf04d 100644
--- a/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
+++ b/products/ellipy/elltool/core/aellipsoid/AEllipsoid.py
@@ -138,7 +138,7 @@ class AEllipsoid(ABasicEllipsoid, ABC):
 
         def f_single_volume(ell_obj) -> np.ndarray:
             if cls.is_degenerate(ell_obj):
-                return np.array([0.0])
+                return np.array(0.0)
             else:
                 q_mat = ell_obj.get_shape_mat()
                 n_dim = cls.dimension(ell_obj)
-- 
2.43.0


From 3dff04f220378e34afe22065ea54b2c7e5679f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 30/51] fix: contains did not reject a number of vectors
 different from the number of hyperplanes

---
 products/ellipy/elltool/core/hyperplane/Hyperplane.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index 2e798d0..b893cbb 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -125,13 +125,9 @@ class Hyperplane(ABasicEllipsoid):
         if size_x_vec[0] != n_dims:
             throw_error('wrongInput:wrongSizes', 'Vector dimension does not match the dimension of hyperplanes.')
 
-        size_hyp_arr = np.shape(hyp_arr)
-        if 1 == np.size(size_hyp_arr):
-            size_hyp_arr = (1, size_hyp_arr[0])
-
-        if not (np.array_equal(size_x_vec[1:], size_hyp_arr) or
+        if not (size_x_vec[1] == np.size(hyp_arr) or
                 ((np.size(hyp_arr) == 1) and not (np.size(x_arr) == 0)) or
-                (np.size(size_x_vec[1:]) == 1)):
+                (size_x_vec[1] == 1)):
             throw_error('wrongSizes', 'Array of normal vectors and array of constants has wrong sizes.')
 
         def process(other_dim_vec_loc):
-- 
2.43.0


From ab6222fc1e4887a4874f2cc3d0a96f2941f48e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 31/51] fix: orth_transl and orth_transl_haus returned wrong
 matrices for vectors of different orientation

---
 products/ellipy/gras/la/la.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index a707d0c..e535039 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -78,9 +78,9 @@ def ml_orth_transl(src_mat: np.ndarray, dst_arr: np.ndarray) -> np.ndarray:
 
 def orth_transl(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
     __ABS_TOL = 1e-7
+    src_vec = np.ravel(try_treat_as_real(src_vec))
+    dst_vec = np.ravel(try_treat_as_real(dst_vec))
     n_dims = dst_vec.shape[0]
-    src_vec = try_treat_as_real(src_vec)
-    dst_vec = try_treat_as_real(dst_vec)
     dst_squared_norm = np.sum(dst_vec * dst_vec)
     src_squared_norm = np.sum(src_vec * src_vec)
 
@@ -109,11 +109,9 @@ def orth_transl(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
 def orth_transl_haus(src_vec: np.ndarray, dst_vec: np.ndarray) -> np.ndarray:
 
     __MAX_TOL = 1e-14
-    src_norm_vec = src_vec / np.sqrt(np.sum(src_vec ** 2))
-    dst_norm_vec = dst_vec / np.sqrt(np.sum(dst_vec ** 2))
-    w_vec = src_norm_vec - dst_norm_vec
-    if w_vec.ndim == 1:
-        w_vec = np.expand_dims(w_vec, 1)
+    src_norm_vec = np.ravel(src_vec) / np.sqrt(np.sum(src_vec ** 2))
+    dst_norm_vec = np.ravel(dst_vec) / np.sqrt(np.sum(dst_vec ** 2))
+    w_vec = np.expand_dims(src_norm_vec - dst_norm_vec, 1)
     w_norm = np.sum(w_vec ** 2)
     if w_norm < __MAX_TOL:
         r_mult = 0
-- 
2.43.0


From a7129788fd3c929737d1492324d84105f7591495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 32/51] fix: orth_transl_max_tr ignored the signs of the
 vectors in one dimension

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index e535039..84f3444 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -150,7 +150,7 @@ def orth_transl_max_tr(src_vec: np.ndarray, dst_vec: np.ndarray, max_mat: np.nda
 
     n_dims = src_vec.shape[0]
     if n_dims == 1:
-        return np.ones((1, 1))
+        return orth_transl(src_vec, dst_vec)
     else:
         e_vec = np.append(np.ones((1, ), dtype=np.float64), np.zeros((n_dims - 1, ), dtype=np.float64))
         o_src_mat = orth_transl(e_vec, src_vec)
-- 
2.43.0


From dcd01824937fdb3da0e45e6b095ea3a4a5a8d87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 33/51] fix: ell_valign failed for one-dimensional vectors

---
 products/ellipy/elltool/core/core.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/products/ellipy/elltool/core/core.py b/products/ellipy/elltool/core/core.py
index 3ce92be..9f77c52 100644
--- a/products/ellipy/elltool/core/core.py
+++ b/products/ellipy/elltool/core/core.py
@@ -44,20 +44,13 @@ def ell_valign(v: np.ndarray, x: np.ndarray) -> np.ndarray:
     if (not is_numeric(v)) or (not is_numeric(x)):
         throw_error('wrongInput:v,x', 'ELL_VALIGN: both arguments must be vectors in R^n.')
 
-    if v.size != max(v.shape):
+    if v.size != max(v.shape, default=1):
         throw_error('wrongInput:v', 'ELL_VALIGN: first argument must be a vector.')
-    if x.size != max(x.shape):
+    if x.size != max(x.shape, default=1):
         throw_error('wrongInput:x', 'ELL_VALIGN: second argument must be a vector.')
 
-    if v.ndim == 0:
-        v = np.expand_dims(v, axis=0)
-    else:
-        v = np.squeeze(v)
-
-    if x.ndim == 0:
-        x = np.expand_dims(x, axis=0)
-    else:
-        x = np.squeeze(x)
+    v = np.ravel(v)
+    x = np.ravel(x)
 
     if v.shape[0] != x.shape[0]:
         throw_error('wrongInput:v,x', 'ELL_VALIGN: both vectors must be of the same dimension.')
-- 
2.43.0


From 8e463b6b1860d58e7735317c39dc44fb08ab77ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 34/51] fix: make_pos_definite_or_nan returned a number or its
 own argument for a single matrix

---
 products/ellipy/gras/gen/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 369e578..e912efa 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -337,9 +337,9 @@ class SquareMatVector(MatVector):
         if data_arr.ndim == 2:
             s_min = min(np.linalg.eigvalsh(data_arr))
             if s_min < 0.:
-                res_data_arr = np.nan
+                res_data_arr = np.full(data_arr.shape, np.nan)
             else:
-                res_data_arr = data_arr
+                res_data_arr = np.copy(data_arr)
         else:
             size_vec = data_arr.shape
             res_data_arr = np.zeros(size_vec)
-- 
2.43.0


From 30c55d35a2a7fc35128998ca0a141922b1c2fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 35/51] fix: r_multiply failed for a right operand of one slice

---
 products/ellipy/gras/gen/gen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index e912efa..1757980 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -229,8 +229,8 @@ class MatVector:
         def get_sparse_mat(inp_arr: np.ndarray) -> sp.csc_matrix:
             int_arr = inp_arr
             inp_shape = inp_arr.shape
-            if inp_arr.ndim < 3:
-                int_arr = np.tile(np.expand_dims(int_arr, 2), (1, 1, n_time_points))
+            if inp_arr.ndim < 3 or inp_shape[2] == 1:
+                int_arr = np.tile(np.reshape(int_arr, (inp_shape[0], inp_shape[1], 1)), (1, 1, n_time_points))
             n_rows = inp_shape[0]
             n_cols = inp_shape[1]
             i_mat = np.tile(np.arange(n_rows * n_time_points), (n_cols, 1))
@@ -284,12 +284,13 @@ class MatVector:
                     res_mat = np.zeros((n_a_rows, n_a_cols, n_time_points), dtype=np.float64)
                 else:
                     res_mat = np.zeros((n_a_rows, n_b_cols, n_time_points), dtype=np.float64)
-                if b_shape[2] == n_time_points:
+                if b_shape[2] == n_time_points and b_arr.ndim > 2:
                     for i_time_point in range(n_time_points):
                         res_mat[:, :, i_time_point] = f_mul(a_arr[:, :, i_time_point], b_arr[:, :, i_time_point])
                 elif b_shape[2] == 1:
+                    b_mat = np.reshape(b_arr, (n_b_rows, n_b_cols))
                     for i_time_point in range(n_time_points):
-                        res_mat[:, :, i_time_point] = f_mul(a_arr[:, :, i_time_point], b_arr)
+                        res_mat[:, :, i_time_point] = f_mul(a_arr[:, :, i_time_point], b_mat)
                 else:
                     throw_error('wrongInput', 'Incorrect size of b_arr')
             else:
-- 
2.43.0


From 3e9024fd9c80ca100a4731debae347d77d319a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 36/51] fix: the spectral multiplications failed for a single
 matrix

---
 products/ellipy/gras/gen/gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 1757980..54f855b 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -490,7 +490,7 @@ class SymmetricMatVector(SquareMatVector):
         a_size_vec = np.shape(inp_a_arr)
         n_elems = a_size_vec[1]
         #
-        n_mat_elems = np.shape(inp_b_arr)
+        n_mat_elems = np.shape(s_array)
         n_mat_elems = n_mat_elems[2]
         if n_mat_elems == 1:
             b_inv_mat = np.diag(1 / np.diag(s_array[:, :, 0]))
@@ -507,6 +507,7 @@ class SymmetricMatVector(SquareMatVector):
         size_vec = np.shape(sym_arr)
         if len(size_vec) == 2:
             size_vec = np.append(size_vec, 1)
+            sym_arr = np.reshape(sym_arr, size_vec)
         u_array = np.zeros(size_vec, dtype=np.float64)
         s_array = np.zeros(size_vec, dtype=np.float64)
         for t in range(size_vec[2]):
-- 
2.43.0


From f2c579cb9c4dfd2c1960c1f1591a657d87b0a207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 37/51] fix: SquareMatVector.sqrtm_pos failed for a stack of
 1-by-1 matrices

---
 products/ellipy/gras/gen/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 54f855b..1e619c1 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -330,7 +330,7 @@ class SquareMatVector(MatVector):
             for t in range(size_vec[2]):
                 if np.isnan(data_arr[:, :, t]).any():
                     sqrt_data_array[:, :, t] = np.NaN
-                sqrt_data_array[:, :, t] = sqrtm_pos(np.squeeze(data_arr[:, :, t]))
+                sqrt_data_array[:, :, t] = sqrtm_pos(data_arr[:, :, t])
         return sqrt_data_array
 
     @staticmethod
-- 
2.43.0


From 69796acf965064f6538a272e6d063bccfd4c9fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:09 +0000
Subject: [PATCH 38/51] fix: make_symmetric returned a broadcast stack for a
 single matrix

---
 products/ellipy/gras/gen/gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 1e619c1..95f1fd7 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -85,7 +85,8 @@ class MatVector:
 
     @staticmethod
     def make_symmetric(data_arr: np.ndarray) -> np.ndarray:
-        ret_arr = 0.5 * (data_arr + MatVector.transpose(data_arr))
+        trans_arr = MatVector.transpose(data_arr)
+        ret_arr = 0.5 * (np.reshape(data_arr, trans_arr.shape) + trans_arr)
         return ret_arr
 
     @staticmethod
-- 
2.43.0


From 870d5031f33411ba4829e012a816d5d49d0f8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 39/51] fix: from_expression returned a ragged object array for
 one time point and mixed constant and variable entries

---
 products/ellipy/gras/gen/gen.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 95f1fd7..96e781b 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -187,24 +187,16 @@ class MatVector:
         elif exp_str[-2] != "]":
             exp_str = exp_str + "]"
         t = MatVector.__to_array(t_vec)
-        if len(t) == 1:
-            ret_val = np.array(eval(exp_str))
-            if ret_val.ndim < 2:
-                ret_val = np.expand_dims(ret_val, 1)
-            if ret_val.ndim < 3:
-                ret_val = np.expand_dims(ret_val, 2)
-            return ret_val
-        else:
-            time_len = len(t)
-            ret_val = eval(exp_str)
-            ret_val = [[np.repeat(np.asarray(j), time_len) if type(j) != np.ndarray else j
-                        for j in i]
-                       for i in ret_val]
-            ret_val = np.array(ret_val)
-            ret_shape = ret_val.shape
-            if len(ret_shape) < 3:
-                ret_val = np.expand_dims(ret_val, 0)
-            return ret_val
+        time_len = len(t)
+        ret_val = eval(exp_str)
+        ret_val = [[np.repeat(np.asarray(j), time_len) if type(j) != np.ndarray else j
+                    for j in i]
+                   for i in ret_val]
+        ret_val = np.array(ret_val)
+        ret_shape = ret_val.shape
+        if len(ret_shape) < 3:
+            ret_val = np.expand_dims(ret_val, 0)
+        return ret_val
 
     @staticmethod
     def r_multiply_by_vec(a_arr: np.ndarray, b_mat: np.ndarray, use_sparse_matrix: bool = True) -> np.ndarray:
-- 
2.43.0


From cb5d89da487d6d33366ee92b240302fa7955dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 40/51] fix: deprecated numpy aliases made copies, replicas,
 comparisons and an import warn

---
 .../ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py    | 4 ++--
 products/ellipy/elltool/core/hyperplane/Hyperplane.py         | 2 +-
 products/ellipy/gen/dict/dict.py                              | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index 78a5e5d..95db718 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -230,7 +230,7 @@ class ABasicEllipsoid(ABC):
             # noinspection PyProtectedMember
             return np.reshape(np.array([ell_arr[0]._get_single_copy()]), ell_shape_vec)
         else:
-            copy_ell_arr = np.empty((n_elems,), dtype=np.object)
+            copy_ell_arr = np.empty((n_elems,), dtype=object)
             for i_elem in range(n_elems):
                 # noinspection PyProtectedMember
                 copy_ell_arr[i_elem] = ell_arr[i_elem]._get_single_copy()
@@ -253,7 +253,7 @@ class ABasicEllipsoid(ABC):
             throw_error('wrongInput:shape_vec', 'size vector must contain non-negative integer values')
         n_elems = np.prod(shape_vec).flatten()[0]
         shape_vec = tuple(shape_vec)
-        ell_arr = np.empty((n_elems,), dtype=np.object)
+        ell_arr = np.empty((n_elems,), dtype=object)
         for i_elem in range(n_elems):
             ell_arr[i_elem] = self._get_single_copy()
         ell_arr = np.reshape(ell_arr, shape_vec)
diff --git a/products/ellipy/elltool/core/hyperplane/Hyperplane.py b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
index b893cbb..17623e7 100644
--- a/products/ellipy/elltool/core/hyperplane/Hyperplane.py
+++ b/products/ellipy/elltool/core/hyperplane/Hyperplane.py
@@ -192,7 +192,7 @@ class Hyperplane(ABasicEllipsoid):
 
     @classmethod
     def is_parallel(cls, first_hyp_arr: Union[Iterable, np.ndarray],
-                    sec_hyp_arr: Union[Iterable, np.ndarray]) -> Union[np.ndarray, np.bool]:
+                    sec_hyp_arr: Union[Iterable, np.ndarray]) -> Union[np.ndarray, bool]:
         cls._check_is_me(first_hyp_arr)
         cls._check_is_me(sec_hyp_arr)
 
diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index a076f15..2cdec7f 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -85,8 +85,8 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                         comp_report_str = 'Different sizes (left: {}, right: {})'.format(x_shape_vec, y_shape_vec)
                         return False, comp_report_str
                     if x_dtype in 'ui':
-                        x_arr = np.array(x_arr, dtype=np.float)
-                        y_arr = np.array(y_arr, dtype=np.float)
+                        x_arr = np.array(x_arr, dtype=np.float64)
+                        y_arr = np.array(y_arr, dtype=np.float64)
                     if x_dtype == 'fc':
                         if not np.array_equal(np.isnan(x_arr), np.isnan(y_arr)):
                             comp_report_str = 'Nans are on the different places'
-- 
2.43.0


From 1bc1c85e27ce0624a59d94f9f1d850954fb0562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 41/51] fix: boolean and unsigned arrays could not be compared
 by value

---
 products/ellipy/gen/common/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index fe0e358..cc786ed 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -125,6 +125,11 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
     if not callable(f_norm_op):
         throw_error('wrongInput:wrongNormOp', 'f_norm_op must be a function')
 
+    if left_arr.dtype.kind in 'bu':
+        left_arr = np.array(left_arr, dtype=np.float64)
+    if right_arr.dtype.kind in 'bu':
+        right_arr = np.array(right_arr, dtype=np.float64)
+
     is_equal = np.array_equal(np.isnan(left_arr), np.isnan(right_arr))
     report_str = ''
     if is_equal:
-- 
2.43.0


From d54a90202ce731d95147d9719d1d693d3909516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 42/51] fix: imaginary parts were ignored when complex arrays
 with infinities were compared

---
 products/ellipy/gen/common/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/products/ellipy/gen/common/common.py b/products/ellipy/gen/common/common.py
index cc786ed..d6c5885 100644
--- a/products/ellipy/gen/common/common.py
+++ b/products/ellipy/gen/common/common.py
@@ -147,8 +147,8 @@ def abs_rel_compare(left_arr: np.ndarray, right_arr: np.ndarray,
     if is_equal:
         isn_finite_mat = ~np.isfinite(left_arr)
         if np.any(isn_finite_mat.flatten()):
-            left_arr = np.array(left_arr, dtype=np.float64, copy=True)
-            right_arr = np.array(right_arr, dtype=np.float64, copy=True)
+            left_arr = np.array(left_arr, copy=True)
+            right_arr = np.array(right_arr, copy=True)
             left_arr[isn_finite_mat] = 0.
             right_arr[isn_finite_mat] = 0.
 
-- 
2.43.0


From 2abee4e2c4c505b56657caaea1ad60fd71676ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 43/51] fix: empty collections of dictionaries could not be
 compared

---
 products/ellipy/gen/dict/dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 2cdec7f..224e920 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -146,6 +146,8 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
                     sc_report_str_list.append(cur_report_str)
             return is_sc_eq, sc_report_str_list
 
+        if len(dict_x_list) == 0:
+            return [], []
         is_out_eq_list, out_report_str_list_list = \
             zip(*[dict_compare_scalar(dict_x, dict_y, inp_abs_tol, inp_rel_tol) for
                   (dict_x, dict_y) in zip(dict_x_list, dict_y_list)])
-- 
2.43.0


From a6a6f6e898d946891a6981897e34092a6b4b8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 44/51] fix: comparing dictionaries with ragged lists warned

---
 products/ellipy/gen/dict/dict.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gen/dict/dict.py b/products/ellipy/gen/dict/dict.py
index 224e920..5761451 100644
--- a/products/ellipy/gen/dict/dict.py
+++ b/products/ellipy/gen/dict/dict.py
@@ -68,15 +68,16 @@ def dict_compare_vec(dict_x_arr: np.ndarray, dict_y_arr: np.ndarray,
             def comp_fun(x, y, comp_abs_tol: float, comp_rel_tol: float) -> Tuple[bool, str]:
                 comp_report_str = ''
 
-                x_dtype = np.asarray(x).dtype.kind
-                y_dtype = np.asarray(y).dtype.kind
                 x_type = type(x)
+                # lists are compared element by element (they may be ragged)
+                x_dtype = 'O' if x_type == list else np.asarray(x).dtype.kind
+                y_dtype = 'O' if type(y) == list else np.asarray(y).dtype.kind
 
                 if x_type != type(y) or x_dtype != y_dtype:
                     comp_report_str = 'Different types'
                     return False, comp_report_str
 
-                if is_numeric(x) and x_type != list:
+                if x_type != list and is_numeric(x):
                     x_arr = np.array(x)
                     y_arr = np.array(y)
                     x_shape_vec = x_arr.shape
-- 
2.43.0


From 62382983e6e61178cf15e3a9e2dc8fe09858fa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:53 +0000
Subject: [PATCH 45/51] fix: a mesh of one face given as a matrix could not be
 refined

---
 products/ellipy/gras/geom/tri/tri.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index bee29ab..6336202 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -116,6 +116,9 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
 
     # Build Face to Edges map and edge orientation map for each face
     e_mat, f2e_mat, f2e_is_dir_mat = map_face_2_edge(f_mat)
+    if f_mat.ndim > 1:
+        f2e_mat = np.reshape(f2e_mat, newshape=(-1, 3))
+        f2e_is_dir_mat = np.reshape(f2e_is_dir_mat, newshape=(-1, 3))
 
     n_verts = np.size(v_mat, 0)
     n_edges = np.size(e_mat, 0)
@@ -141,7 +144,7 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
         is_e2orig_part_vec = e_length_vec > max_edge_len
         if np.any(is_e2orig_part_vec) and (i_step <= n_max_steps):
             # Find faces that need to be shortened
-            if n_faces > 1:
+            if f2e_mat.ndim > 1:
                 is_f2part_vec = np.any(is_e2orig_part_vec[f2e_mat], 1)
             else:
                 # this is because is_e2part_vec(f2e_mat) produces a column-vector for one face
-- 
2.43.0


From 4f47dc64a8d7cd722bd88eb0209a6d7fa5b3f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:10 +0000
Subject: [PATCH 46/51] fix: sorting no rows returned floating point indices

---
 products/ellipy/gras/gen/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/gen/gen.py b/products/ellipy/gras/gen/gen.py
index 96e781b..938658b 100644
--- a/products/ellipy/gras/gen/gen.py
+++ b/products/ellipy/gras/gen/gen.py
@@ -43,7 +43,7 @@ def sort_rows_tol(inp_mat: np.ndarray, tol: float) -> Tuple[np.ndarray, np.ndarr
         res_mat = res_mat[ind_sort_vec]
     else:
         res_mat = copy_inp_mat
-        ind_sort_vec = np.empty((0, ), dtype=np.float64)
+        ind_sort_vec = np.empty((0, ), dtype=int)
 
     ind_rev_sort_vec = np.argsort(ind_sort_vec)
     return res_mat, ind_sort_vec, ind_rev_sort_vec
-- 
2.43.0


From fd80bf644da717f25926bfe56aeeee216d02c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:10 +0000
Subject: [PATCH 47/51] fix: faces filling the seams of a partial refinement
 disagreed with the face to edge map

---
 products/ellipy/gras/geom/tri/tri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/tri/tri.py b/products/ellipy/gras/geom/tri/tri.py
index 6336202..9cee1f6 100644
--- a/products/ellipy/gras/geom/tri/tri.py
+++ b/products/ellipy/gras/geom/tri/tri.py
@@ -263,7 +263,8 @@ def shrink_face_tri(v_mat: np.ndarray, f_mat: np.ndarray,
             ind_v_mid_e_broken_nut_kept_vec = ind_e_part_vec[is_e2part_vec & is_e_kept_vec]
 
             # faces have zero volume
-            f3_new_mat = np.column_stack((ind_v_mid_e_broken_nut_kept_vec, e_mat[ind_e_broken_but_kept_vec]))
+            f3_new_mat = np.column_stack((e_mat[ind_e_broken_but_kept_vec, 0], ind_v_mid_e_broken_nut_kept_vec,
+                                          e_mat[ind_e_broken_but_kept_vec, 1]))
 
             ind_12f2e3_vec = ind_v_mid_e_broken_nut_kept_vec - n_verts + 3 * n_shrinked_faces + n_edges
             ind_23f2e3_vec = ind_12f2e3_vec + n_new_verts
-- 
2.43.0


From 5ac34b7424c12ba7db9abcf29026659613631fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:33 +0000
Subject: [PATCH 48/51] fix: ellipsoids flat within their own tolerance could
 not be compared with stricter ones

---
 .../elltool/core/abasicellipsoid/ABasicEllipsoid.py    | 10 ++++++----
 products/ellipy/elltool/core/ellipsoid/Ellipsoid.py    |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
index 95db718..401b796 100644
--- a/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
+++ b/products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py
@@ -157,16 +157,18 @@ class ABasicEllipsoid(ABC):
             inp_arr = np.hstack((inp_first_arr.flatten(), inp_sec_arr.flatten()))
             _, out_abs_tol = cls.get_abs_tol(inp_arr)
             _, out_rel_tol = cls.get_rel_tol(inp_arr)
-            return out_abs_tol, out_rel_tol
+            # data are compared with the strictest tolerance but have been accepted with their own ones
+            _, out_data_tol = cls.get_abs_tol(inp_arr, lambda z: np.max(z))
+            return out_abs_tol, out_rel_tol, out_data_tol
 
-        abs_tol, rel_tol = get_tol(ell_first_arr, ell_sec_arr)
+        abs_tol, rel_tol, data_tol = get_tol(ell_first_arr, ell_sec_arr)
 
         ell_first_flat_arr = ell_first_arr.flatten()
         ell_sec_flat_arr = ell_sec_arr.flatten()
         dict_ell1_list, field_nice_names1_dict, _, field_transform_func1_dict = \
-            cls.to_dict(ell_first_flat_arr, is_prop_included, abs_tol)
+            cls.to_dict(ell_first_flat_arr, is_prop_included, data_tol)
         dict_ell2_list, field_nice_names2_dict, _, field_transform_func2_dict = \
-            cls.to_dict(ell_sec_flat_arr, is_prop_included, abs_tol)
+            cls.to_dict(ell_sec_flat_arr, is_prop_included, data_tol)
 
         def form_comp_dict(dict_ell: Dict[str, np.array], field_nice_names_dict: Dict[str, str],
                            field_transform_func_dict: Dict[str, Callable[[np.ndarray], np.ndarray]]) -> \
diff --git a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
index 6e62115..03eba12 100755
--- a/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
+++ b/products/ellipy/elltool/core/ellipsoid/Ellipsoid.py
@@ -672,7 +672,7 @@ class Ellipsoid(AEllipsoid):
         cls._check_is_me(ell_arr)
         ell_arr = np.array(ell_arr)
         if abs_tol is None:
-            _, abs_tol = cls.get_abs_tol(ell_arr)
+            _, abs_tol = cls.get_abs_tol(ell_arr, lambda z: np.max(z))
         ell_dict_arr = np.reshape(np.array(
             [ell_2_dict(ell_obj, is_prop_included) for ell_obj in list(ell_arr.flatten())]), ell_arr.shape)
         field_nice_names_dict = {
-- 
2.43.0


From 41e69554298de2c92a2e09fea3573819c68a8f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:21 +0000
Subject: [PATCH 49/51] fix: regularising a matrix with repeated eigenvalues
 could leave it singular

---
 products/ellipy/gras/la/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/products/ellipy/gras/la/la.py b/products/ellipy/gras/la/la.py
index 84f3444..212f9a9 100644
--- a/products/ellipy/gras/la/la.py
+++ b/products/ellipy/gras/la/la.py
@@ -212,7 +212,7 @@ def reg_pos_def_mat(inp_mat: np.ndarray, reg_tol: float) -> np.ndarray:
     reg_tol = try_treat_as_real(reg_tol)
     if not(is_mat_symm(inp_mat)):
         throw_error('wrongInput:inp_mat', 'matrix must be symmetric')
-    d_mat, v_mat = np.linalg.eig(inp_mat)
+    d_mat, v_mat = np.linalg.eigh(inp_mat, 'U')
     m_mat = np.diag(np.maximum(0.0, reg_tol-d_mat))
     m_mat = v_mat @ m_mat @ v_mat.T
     regular_mat = inp_mat + m_mat
-- 
2.43.0


From 11f52df7f4f13e4d0519d4c16f34967422c4e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:37 +0000
Subject: [PATCH 50/51] fix: the difference of plane sets failed for hull edges
 listed backwards or wrapping around

---
 products/ellipy/gras/geom/sup/sup.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index 202dfaf..29ed3cc 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -73,10 +73,11 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
 
     s_mat = l_mat / np.matlib.repmat(rho_diff_vec, n_dims, 1)
     # noinspection PyUnresolvedReferences
-    ind_mat = ConvexHull(s_mat.T).simplices
+    ind_vert_vec = np.sort(ConvexHull(s_mat.T).vertices)
+    ind_mat = np.stack((ind_vert_vec, np.roll(ind_vert_vec, -1)), axis=1)
 
     ind_face_length_vec = ind_mat[:, 1] - ind_mat[:, 0]
-    is_neg_vec = ind_face_length_vec < -1
+    is_neg_vec = ind_face_length_vec < 0
     ind_face_length_vec[is_neg_vec] = n_dirs + ind_face_length_vec[is_neg_vec]
     ind_face_vec = np.nonzero(ind_face_length_vec > 1)[0]
     n_faces = len(ind_face_vec)
@@ -96,7 +97,7 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
         for i_dir in range(0, n_change_dirs):
             ind_dir = ind_dir + 1
 
-            if ind_dir > n_dirs:
+            if ind_dir >= n_dirs:
                 ind_dir = 0
 
             a_mat = np.concatenate((a_first_vec, np.expand_dims(s_mat[:, ind_dir], axis=0).T), axis=1)
-- 
2.43.0


From 710bd9d01c81470069bd34f62332787c506f5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:57 +0000
Subject: [PATCH 51/51] fix: the difference of large spatial sets was infinite
 because of an absolute tolerance

---
 products/ellipy/gras/geom/sup/sup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/products/ellipy/gras/geom/sup/sup.py b/products/ellipy/gras/geom/sup/sup.py
index 29ed3cc..f85213e 100644
--- a/products/ellipy/gras/geom/sup/sup.py
+++ b/products/ellipy/gras/geom/sup/sup.py
@@ -116,6 +116,7 @@ def sup_geom_diff_2d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
 
 def sup_geom_diff_3d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarray) -> np.ndarray:
     __ABS_TOL = 1e-5
+    __REL_TOL = 1e-5
 
     if l_mat.ndim != 2:
         throw_error('wrongInput:l_mat',
@@ -169,7 +170,7 @@ def sup_geom_diff_3d(rho1_vec: np.ndarray, rho2_vec: np.ndarray, l_mat: np.ndarr
             x2_vec = tri_mat[:, 2] - tri_mat[:, 0]
             norm1_vec = np.cross(s_mat[:, i_dist], x2_vec)
             det_temp = np.dot(x1_vec, norm1_vec)
-            if np.abs(det_temp) > __ABS_TOL:
+            if np.abs(det_temp) > __REL_TOL * np.linalg.norm(x1_vec) * np.linalg.norm(norm1_vec):
                 inv_det = 1 / det_temp
                 s_point = -tri_mat[:, 0]
                 u_dist = inv_det * np.dot(s_point, norm1_vec)
-- 
2.43.0

