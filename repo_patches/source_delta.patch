From 82256a3c36046f21755817c32908665f359b0856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 001/111] fix: PDEDataset x/t accessors follow axis_order
 instead of assuming (x, t) storage

---
 kd/dataset/_base.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index c0c10f8..6d3686d 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -486,6 +486,17 @@ class PDEDataset(MetaData):
         self.t = coords_1d.get("t")
         self.usol = fields_data[target_field]
 
+    def _xt_field(self) -> np.ndarray:
+        """Return ``usol`` indexed as (x, t); only defined for two-dimensional x/t grids."""
+        axis_order = ["x", "t"] if self.axis_order is None else list(self.axis_order)
+        if axis_order == ["x", "t"]:
+            return self.usol
+        if axis_order == ["t", "x"]:
+            return self.usol.T
+        raise ValueError(
+            f"This operation requires a two-dimensional x/t grid; got axes {axis_order}."
+        )
+
     def get_datapoint(self, x_id: int, t_id: int) -> Tuple[float, float, float]:
         """
         Retrieves the (x, t) coordinates and the corresponding solution value.
@@ -494,9 +505,10 @@ class PDEDataset(MetaData):
         :param t_id: Index in the temporal dimension.
         :return: A tuple (x, t, usol) representing the coordinates and solution.
         """
+        usol = self._xt_field()
         if not (0 <= x_id < len(self.x)) or not (0 <= t_id < len(self.t)):
             raise IndexError("Index out of range.")
-        return self.x[x_id], self.t[t_id], self.usol[x_id, t_id]
+        return self.x[x_id], self.t[t_id], usol[x_id, t_id]
 
     def get_data(self) -> Dict[str, Any]:
         """
@@ -514,6 +526,7 @@ class PDEDataset(MetaData):
                 - sampled_points is an array of shape (n, 2) with (x, t) pairs
                 - sampled_usol is an array of shape (n,) with corresponding solution values
         """
+        usol = self._xt_field()
         total_points = len(self.x) * len(self.t)
         
         # Convert ratio to absolute count if n_samples is a float < 1
@@ -525,9 +538,9 @@ class PDEDataset(MetaData):
 
         if method == 'random':
             indices = np.random.choice(total_points, n_samples, replace=False)
-            x_samples, t_samples = np.unravel_index(indices, self.usol.shape)
+            x_samples, t_samples = np.unravel_index(indices, usol.shape)
             sampled_points = np.column_stack((self.x[x_samples], self.t[t_samples]))
-            sampled_usol = self.usol[x_samples, t_samples]
+            sampled_usol = usol[x_samples, t_samples]
 
         elif method == 'uniform':
             grid_size = int(np.sqrt(n_samples))
@@ -538,13 +551,13 @@ class PDEDataset(MetaData):
                 self.x[x_samples.flatten()],
                 self.t[t_samples.flatten()]
             ))
-            sampled_usol = self.usol[x_samples.flatten(), t_samples.flatten()]
+            sampled_usol = usol[x_samples.flatten(), t_samples.flatten()]
 
         elif method == 'spline':
             grid_size = int(np.sqrt(n_samples))
             x_new = np.linspace(self.x.min(), self.x.max(), grid_size)
             t_new = np.linspace(self.t.min(), self.t.max(), grid_size)
-            spline = interp2d(self.t, self.x, self.usol, kind='cubic')
+            spline = interp2d(self.t, self.x, usol, kind='cubic')
             usol_new = spline(t_new, x_new)
             x_samples, t_samples = np.meshgrid(x_new, t_new)
             sampled_points = np.column_stack((x_samples.flatten(), t_samples.flatten()))
@@ -597,9 +610,9 @@ class PDEDataset(MetaData):
         :return: The computed derivative array.
         """
         if axis == 'x':
-            return np.gradient(self.usol, axis=0)
+            return np.gradient(self._xt_field(), axis=0)
         elif axis == 't':
-            return np.gradient(self.usol, axis=1)
+            return np.gradient(self._xt_field(), axis=1)
         else:
             raise ValueError("Invalid axis name, must be 'x' or 't'.")
 
@@ -616,7 +629,7 @@ class PDEDataset(MetaData):
 
         return {'x': self.x[x_start:x_end], 
                 't': self.t[t_start:t_end], 
-                'usol': self.usol[x_start:x_end, t_start:t_end]}
+                'usol': self._xt_field()[x_start:x_end, t_start:t_end]}
 
     def get_size(self) -> Tuple[int, int]:
         """ Returns the dimensions of the solution array (x dimension, t dimension). """
-- 
2.43.0


From ea6d724d5a0d1e54520b33a8fbae0fc0ab9ec5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 002/111] fix: PDEDataset.get_derivative uses the grid
 coordinates, not unit spacing

---
 kd/dataset/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 6d3686d..059ebb3 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -610,9 +610,9 @@ class PDEDataset(MetaData):
         :return: The computed derivative array.
         """
         if axis == 'x':
-            return np.gradient(self._xt_field(), axis=0)
+            return np.gradient(self._xt_field(), self.x, axis=0)
         elif axis == 't':
-            return np.gradient(self._xt_field(), axis=1)
+            return np.gradient(self._xt_field(), self.t, axis=1)
         else:
             raise ValueError("Invalid axis name, must be 'x' or 't'.")
 
-- 
2.43.0


From 748f7d8a7032cd6a85bdb4eb2bbbcba551a2eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 003/111] fix: spline sampling of PDEDataset works without the
 removed scipy interp2d

---
 kd/dataset/_base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 059ebb3..eaba9ad 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -13,7 +13,7 @@ from pathlib import Path
 from importlib import resources
 from abc import ABC, abstractmethod
 from ._info import DatasetInfo
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 
 
 DATA_MODULE = "kd.dataset.data"
@@ -557,9 +557,12 @@ class PDEDataset(MetaData):
             grid_size = int(np.sqrt(n_samples))
             x_new = np.linspace(self.x.min(), self.x.max(), grid_size)
             t_new = np.linspace(self.t.min(), self.t.max(), grid_size)
-            spline = interp2d(self.t, self.x, usol, kind='cubic')
-            usol_new = spline(t_new, x_new)
-            x_samples, t_samples = np.meshgrid(x_new, t_new)
+            spline = RectBivariateSpline(
+                self.x, self.t, usol,
+                kx=min(3, len(self.x) - 1), ky=min(3, len(self.t) - 1),
+            )
+            usol_new = spline(x_new, t_new)
+            x_samples, t_samples = np.meshgrid(x_new, t_new, indexing='ij')
             sampled_points = np.column_stack((x_samples.flatten(), t_samples.flatten()))
             sampled_usol = usol_new.flatten()
 
-- 
2.43.0


From f7e15ba3ee6541fec5c51774708be654ce666a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 004/111] fix: PDEDataset rejects pde_data without x, t or usol

---
 kd/dataset/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index eaba9ad..3680837 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -380,6 +380,9 @@ class PDEDataset(MetaData):
     ) -> None:
         """Initialize in legacy 2D mode."""
         if pde_data is not None:
+            missing = [k for k in ("x", "t", "usol") if pde_data.get(k) is None]
+            if missing:
+                raise ValueError(f"pde_data is missing {missing}.")
             self.x = np.asarray(pde_data.get("x"), dtype=float).flatten()
             self.t = np.asarray(pde_data.get("t"), dtype=float).flatten()
             self.usol = np.real(np.asarray(pde_data.get("usol")))
-- 
2.43.0


From a9e38225352dba4578b97cf24fca109851b73c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 005/111] fix: loaders no longer transpose square (x, t) fields

---
 kd/dataset/__init__.py | 4 ++--
 kd/dataset/_base.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index fb47d36..ddcd887 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -49,7 +49,7 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
         x = np.asarray(np.load(data_path / info['files']['x']), dtype=float).flatten()
         t = np.asarray(np.load(data_path / info['files']['t']), dtype=float).flatten()
 
-        if u.shape == (len(t), len(x)):
+        if u.shape != (len(x), len(t)) and u.shape == (len(t), len(x)):
             u = u.T
 
         dataset = PDEDataset(
@@ -69,7 +69,7 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
         target_shape = info.get('shape')
         if target_shape:
             # 数据文件有时是 (nt, nx)，因此需要在匹配时考虑转置
-            if data.shape == tuple(reversed(target_shape)):
+            if data.shape != target_shape and data.shape == tuple(reversed(target_shape)):
                 data = data.T
             elif data.shape != target_shape:
                 data = data.reshape(target_shape)
diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 3680837..0998600 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -763,7 +763,7 @@ def load_pde_dataset(
         u_data = np.asarray(pde_data[u_key])
 
         # 确保 u_data 的形状与 (len(x), len(t)) 对齐
-        if u_data.shape == (len(t_data), len(x_data)):
+        if u_data.shape != (len(x_data), len(t_data)) and u_data.shape == (len(t_data), len(x_data)):
             u_data = u_data.T
 
         # 4. 将所有信息送入 PDEDataset 进行标准化封装
-- 
2.43.0


From 09a8d355692e0ab74c38a4ab2be2dc11caf5abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 006/111] fix: kd.dataset.__all__ lists only names that exist

---
 kd/dataset/__init__.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index ddcd887..c398d50 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -162,23 +162,5 @@ __all__ = [
     "load_pde_dataset",
     "list_available_datasets",  # 新增辅助函数
     "get_dataset_sym_true",  # 新增辅助函数
-    "Burgers_equation_shock",
-    "KdV_equation",
-    "KdV_equation_sine",
-    "Chaffee_Infante_equation",
-    "KG_equation",
-    "Allen_Cahn_equation",
-    "Convection_diffusion_equation_solution",
-    "Convection_diffusion_equation_simulation",
-    "Wave_equation",
-    "KS_equation",
-    "Beam_equation",
-    "Heat_equation",
-    "Heat_equation_sin",
-    "Diffusion_equation",
-    "Parametric_convection_diffusion",
-    "Parametric_Burgers_equation",
-    "Parametric_wave_equation",
-    "Burgers_2D",
     "load_regression",
 ]
-- 
2.43.0


From a71288b8b58a8965cecb815e81ffbc5b34130255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 007/111] fix: merging a custom Discover configuration works on
 Python 3.10+ (collections.Mapping was removed)

---
 kd/model/discover/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/utils.py b/kd/model/discover/utils.py
index 07c3de8..20d3e45 100644
--- a/kd/model/discover/utils.py
+++ b/kd/model/discover/utils.py
@@ -1,6 +1,6 @@
 """Utility functions used in deep symbolic optimization."""
 
-import collections
+import collections.abc
 import copy
 import functools
 import numpy as np
@@ -270,7 +270,7 @@ def safe_merge_dicts(base_dict, update_dict):
         return base_dict
     base_dict = copy.deepcopy(base_dict)
     for key, value in update_dict.items():
-        if isinstance(value, collections.Mapping):
+        if isinstance(value, collections.abc.Mapping):
             base_dict[key] = safe_merge_dicts(base_dict.get(key, {}), value)
         else:
             base_dict[key] = value
-- 
2.43.0


From 2ee2d28e1b22b7e187ee55fc4144f9749c8a7552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 008/111] fix: get_params/repr work for DLGA and Discover
 estimators

---
 kd/model/dlga.py                   |  1 +
 kd/model/kd_discover.py            | 14 +++++++++++++-
 kd/model/kd_discover_regression.py | 17 ++++++++++++-----
 kd/model/kd_dlga.py                | 13 +++++++++++++
 4 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 246c203..e768d13 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -98,6 +98,7 @@ class DLGA(BaseGa):
             Batch_Norm=False,
         )
 
+        self.input_dim = input_dim
         self.max_iter = max_iter
         self.eq_latex = ""
         self.epi = epi
diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 840f7a3..fd1dcb6 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -95,7 +95,9 @@ class KD_Discover(BaseRL):
         """
         self.n_iterations = n_iterations
         self.n_samples_per_batch = n_samples_per_batch
-        self.operator = binary_operators + unary_operators
+        self.binary_operators = binary_operators
+        self.unary_operators = unary_operators
+        self.config_out = config_out
         self.out_path = out_path
          
         self.dataset = None
@@ -104,6 +106,11 @@ class KD_Discover(BaseRL):
         self.base_config_file = "./discover/config/config_pde.json"
         self.set_config(config_out)
 
+    @property
+    def operator(self):
+        """Operators requested by the user (empty: use the configured ones)."""
+        return list(self.binary_operators) + list(self.unary_operators)
+
     def setup(self):
         """Setup model components.
         
@@ -482,10 +489,15 @@ class KD_Discover_SPR(KD_Discover):
             **kwargs: Keyword arguments for KD_Discover.
         """
         super().__init__(*args, config_out=None, **kwargs)
+        self.config_out = config_out
         self.base_config_file = "./discover/config/config_pde_pinn.json"
         self.set_config(config_out)
         self.is_realtime = False
 
+    @classmethod
+    def _get_param_names(cls):
+        return KD_Discover._get_param_names()
+
     def set_config(self, config=None):
         """Set model configuration.
 
diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index a844d1c..1824d6a 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -29,12 +29,24 @@ class KD_Discover_Regression(KD_Discover):
 
     def __init__(self, *args, config_out=None, **kwargs):
         super().__init__(*args, config_out=None, **kwargs)
+        self.config_out = config_out
         self.base_config_file = "./discover/config/config_regression.json"
         self.set_config(config_out)
         self.best_program_ = None
         self.result_ = None
         self.n_features_in_ = None
 
+    @classmethod
+    def _get_param_names(cls):
+        return KD_Discover._get_param_names()
+
+    @property
+    def operator(self):
+        operators = super().operator
+        if operators and "const" not in operators:
+            operators.append("const")
+        return operators
+
     def _validate_inputs(self, X, y, var_names: Sequence[str] | None):
         X_arr = np.asarray(X, dtype=float)
         y_arr = np.asarray(y, dtype=float).reshape(-1)
@@ -107,11 +119,6 @@ class KD_Discover_Regression(KD_Discover):
         self.result_ = result
         return result
 
-    def set_task(self):
-        if self.operator and "const" not in self.operator:
-            self.operator = list(self.operator) + ["const"]
-        super().set_task()
-
     def predict(self, X):
         if self.best_program_ is None:
             raise RuntimeError("KD_Discover_Regression.predict was called before fit(X, y).")
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index ac0d889..4d8f995 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -23,6 +23,19 @@ class KD_DLGA(DLGA):
         self.equations_ = None
         self.best_equation_ = None
 
+    @classmethod
+    def _get_param_names(cls):
+        # max_iter reaches DLGA through **kwargs
+        return sorted(set(super()._get_param_names()) | set(DLGA._get_param_names()))
+
+    @property
+    def operators(self):
+        return self.user_operators
+
+    @operators.setter
+    def operators(self, operators):
+        self.user_operators = operators
+        self.library_size = len(operators)
 
     def generate_meta_data(self, X):
         """Build the feature library (Theta) and metadata from the trained network."""
-- 
2.43.0


From c8a0a26fa2be5e07979ef1c715d76156071b635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 009/111] fix: DLGA.train_NN no longer shuffles the caller's
 arrays in place

---
 kd/model/dlga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index e768d13..32fe9e4 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -119,7 +119,8 @@ class DLGA(BaseGa):
         Returns:
             tuple: (trained network, best epoch)
         """
-        # Shuffle data
+        # Shuffle copies: the caller's arrays stay in order
+        X, y = np.array(X), np.array(y)
         state = np.random.get_state()
         np.random.shuffle(X)
         np.random.set_state(state)
-- 
2.43.0


From a723dfb0d9a39677edb9a8d867e531a9433a7c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 010/111] fix: DLGA.cross_over covers the population, not
 n_generations individuals

---
 kd/model/dlga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 32fe9e4..0ab922c 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -326,7 +326,7 @@ class DLGA(BaseGa):
         Returns:
             list: New population after crossover.
         """
-        Chrom, size_pop = self.Chrom, self.n_generations
+        Chrom, size_pop = self.Chrom, self.pop_size
         Chrom1, Chrom2 = Chrom[::2], Chrom[1::2]
         for i in range(int(size_pop / 2)):
             n1 = np.random.randint(0, len(Chrom1[i]))
-- 
2.43.0


From 14811d963a5540c4a8c81379e755f52e4cfc476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 011/111] fix: DLGA.select keeps the population size for odd
 pop_size

---
 kd/model/dlga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 0ab922c..2d6e7b5 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -407,7 +407,7 @@ class DLGA(BaseGa):
             new_coef.append(coef_list[index])
             new_name.append(name_list[index])
         # Fill the rest with new random individuals
-        for _ in range(int(size_pop / 2)):
+        for _ in range(size_pop - len(new_Chrom)):
             new = DLGA.random_genome(self)
             new_Chrom.append(new)
 
-- 
2.43.0


From 5422d60730fd000d1cb34feda6bde024aba69fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 012/111] fix: KD_DLGA rejects unknown operators instead of
 misnaming the others

---
 kd/model/kd_dlga.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index 4d8f995..add78cf 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -67,6 +67,9 @@ class KD_DLGA(DLGA):
             utt = torch.zeros_like(u)
         available_ops = {'u': u, 'u_x': ux, 'u_t': ut, 'u_xx': uxx, 'u_xxx': uxxx, 'u_tt': utt}
         # 1. Theta 矩阵的构建依然严格遵守 user_operators，这用于方程搜索
+        unknown = [op for op in self.user_operators if op not in available_ops]
+        if unknown:
+            raise ValueError(f"Unknown operators {unknown}; available: {sorted(available_ops)}")
         theta_columns = []
         for op_name in self.user_operators:
             if op_name in available_ops:
-- 
2.43.0


From 33575e8bc4f8f1b665d68154a1d53f2a14d44f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 013/111] fix: KD_DLGA pairs mesh points with their values for
 ['t','x'] datasets

---
 kd/model/kd_dlga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index add78cf..54fdad5 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -324,7 +324,7 @@ class KD_DLGA(DLGA):
         if Xy_from == "mesh" or sample is None:
             # 使用完整网格上的所有点
             X = dataset.mesh()
-            y = dataset.usol.reshape(-1, 1)
+            y = dataset._xt_field().reshape(-1, 1)
         else:
             # 通过 PDEDataset.sample 抽取训练点
             X, y = dataset.sample(n_samples=sample, method=sample_method)
-- 
2.43.0


From 1ab8bfc8fee96709909c169736e8efdf59e93230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 014/111] fix: PDEDataset.sample accepts the full fraction 1.0

---
 kd/dataset/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 0998600..31499da 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -523,7 +523,7 @@ class PDEDataset(MetaData):
         """
         Samples a subset of the data points using different sampling methods.
 
-        :param n_samples: Number of samples to draw. If < 1, treated as a ratio.
+        :param n_samples: Number of samples to draw. A float in (0, 1] is treated as a ratio.
         :param method: Sampling method to use ('random', 'uniform', 'spline').
         :return: A tuple (sampled_points, sampled_usol), where:
                 - sampled_points is an array of shape (n, 2) with (x, t) pairs
@@ -532,8 +532,8 @@ class PDEDataset(MetaData):
         usol = self._xt_field()
         total_points = len(self.x) * len(self.t)
         
-        # Convert ratio to absolute count if n_samples is a float < 1
-        if isinstance(n_samples, float) and 0 < n_samples < 1:
+        # Convert ratio to absolute count if n_samples is a float <= 1
+        if isinstance(n_samples, float) and 0 < n_samples <= 1:
             n_samples = int(total_points * n_samples)
 
         if n_samples > total_points:
-- 
2.43.0


From b2ca7bc0610b0565dba6b707960a37dbba060d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 015/111] fix: 2-D Laplace operator crashed: its numba
 decorator cannot compile the Python calls inside

---
 kd/model/discover/task/pde/utils_fd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kd/model/discover/task/pde/utils_fd.py b/kd/model/discover/task/pde/utils_fd.py
index 74d9e58..d4cd645 100644
--- a/kd/model/discover/task/pde/utils_fd.py
+++ b/kd/model/discover/task/pde/utils_fd.py
@@ -192,7 +192,6 @@ def Diff2_2(u, dxt, name=1):
 
     return uxt
 
-@jit(nopython=True)
 def Laplace(u,x):
     x1,x2 = x
     uxt = Diff2_2(u,x1, name = 1)
-- 
2.43.0


From 34803cda631374f029a1c4e98f70267ad391e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 016/111] fix: FiniteDifferenceOperator truncated integer
 fields and overwrote earlier results

---
 kd/utils/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/utils/solver.py b/kd/utils/solver.py
index d94818d..e05ab46 100644
--- a/kd/utils/solver.py
+++ b/kd/utils/solver.py
@@ -12,7 +12,7 @@ class FiniteDifferenceOperator:
         self.dx = dx
         self.dim = dim
         self.n, self.m = u.shape
-        self.ux = np.zeros_like(u)
+        self.ux = np.zeros(u.shape, dtype=np.result_type(u, float))
 
     def _finite_diff_1st(self):
         """
@@ -54,6 +54,8 @@ class FiniteDifferenceOperator:
         :param order: Order of the derivative (1, 2, 3, 4)
         :return: The computed derivative.
         """
+        # A fresh buffer, so that arrays returned earlier are not overwritten.
+        self.ux = np.zeros_like(self.ux)
         if order == 1:
             self._finite_diff_1st()
         elif order == 2:
-- 
2.43.0


From bc3907b1836b3d7c116daf7a3fc7916f7032ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 017/111] fix: third finite difference in kd.utils.utils_fd had
 the wrong sign

---
 kd/utils/utils_fd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/utils/utils_fd.py b/kd/utils/utils_fd.py
index c57d737..08391da 100644
--- a/kd/utils/utils_fd.py
+++ b/kd/utils/utils_fd.py
@@ -61,7 +61,7 @@ def FiniteDiff(u, dx, order=1):
         ux[n-1] = (2*u[n-1] - 5*u[n-2] + 4*u[n-3] - u[n-4]) / (dx**2)
     elif order == 3:
         for i in range(2, n-2):
-            ux[i] = (-u[i+2] + 2*u[i+1] - 2*u[i-1] + u[i-2]) / (2*dx**3)
+            ux[i] = (u[i+2] - 2*u[i+1] + 2*u[i-1] - u[i-2]) / (2*dx**3)
         ux[0:2] = 0
         ux[n-2:] = 0
     elif order == 4:
-- 
2.43.0


From 56ce47a503c906eb195af594664325da296805d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 018/111] fix: SGA division perturbed the problem's own arrays
 in place (and failed on read-only or integer ones)

---
 kd/model/sga/sgapde/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/config.py b/kd/model/sga/sgapde/config.py
index 66200ac..f0b0f32 100644
--- a/kd/model/sga/sgapde/config.py
+++ b/kd/model/sga/sgapde/config.py
@@ -265,7 +265,7 @@ class SolverConfig:
     def divide(up, down, eta=1e-10):
         """Safe division function."""
         while np.any(down == 0):
-            down += eta
+            down = down + eta  # not in place: operands are the problem's own arrays
         return up / down
         
     def get_device(self):
-- 
2.43.0


From 9d470b2e554a947554f0d3d8428c3523e8d1afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 019/111] fix: SGA adapter dropped the parameter fields of an
 x/t dataset

---
 kd/model/sga/adapter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/adapter.py b/kd/model/sga/adapter.py
index e57d5c9..95e1f92 100644
--- a/kd/model/sga/adapter.py
+++ b/kd/model/sga/adapter.py
@@ -57,9 +57,13 @@ class SGADataAdapter:
                 f"({len(x)}, {len(t)}) but got {u.shape}"
             )
 
-        return {
+        kwargs = {
             "u_data": u,
             "x_data": x,
             "t_data": t,
             "problem_name": getattr(self.dataset, "equation_name", "custom_dataset") or "custom_dataset",
         }
+        param_fields = getattr(self.dataset, "param_fields", None)
+        if param_fields:
+            kwargs["param_fields"] = {k: np.asarray(v) for k, v in param_fields.items()}
+        return kwargs
-- 
2.43.0


From 605b4a9fee0e6b00fb4e9311ac5acda5185e498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 020/111] fix: KD_SGA.fit_dataset crashed when target_field or
 lhs_axis was set for an N-D dataset

---
 kd/model/kd_sga.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/kd/model/kd_sga.py b/kd/model/kd_sga.py
index a4460d0..cae422c 100644
--- a/kd/model/kd_sga.py
+++ b/kd/model/kd_sga.py
@@ -148,16 +148,10 @@ class KD_SGA(BaseEstimator):
         )
 
         # 推断优先级：用户显式设置 > adapter 推断 > 默认值
-        final_target_field = (
-            self.target_field
-            or solver_kwargs.pop("target_field", None)
-            or "u"
-        )
-        final_lhs_axis = (
-            self.lhs_axis
-            or solver_kwargs.pop("lhs_axis", None)
-            or "t"
-        )
+        inferred_target_field = solver_kwargs.pop("target_field", None)
+        inferred_lhs_axis = solver_kwargs.pop("lhs_axis", None)
+        final_target_field = self.target_field or inferred_target_field or "u"
+        final_lhs_axis = self.lhs_axis or inferred_lhs_axis or "t"
 
         config = SolverConfig(
             problem_name=problem_label,
-- 
2.43.0


From 5b8749ff5d54683cc01bb211c4ae005b32b53275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 021/111] fix: SGA mutation looped forever on a derivative when
 its axis is the only one and is not 'x'

---
 kd/model/sga/sgapde/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/model/sga/sgapde/tree.py b/kd/model/sga/sgapde/tree.py
index b602314..3746547 100644
--- a/kd/model/sga/sgapde/tree.py
+++ b/kd/model/sga/sgapde/tree.py
@@ -121,6 +121,8 @@ class Tree: #对应于pde中的一个term
                         while node[0] == temp or (parent.name in {'d', 'd^2'} and node[0] not in context.den[:, 0]):# rule 3: 如果编译前后结果重复，或者d的节点不在den中（即出现不能求导的对象），则重新抽取
                             if context.simple_mode and parent.name in {'d', 'd^2'} and node[0] == 'x': # simple_mode中，遇到对于x的导数，直接停止变异
                                 break
+                            if parent.name in {'d', 'd^2'} and node[0] == temp and len(context.den) == 1:
+                                break  # the only derivative axis: there is nothing to mutate to
                             node = context.VARS[np.random.randint(0, len(context.VARS))] # 重新抽取一个vars
                         new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
                                     var=node[2], full=node, child_num=int(node[1]), child_st=None)
-- 
2.43.0


From 43579bb2807b2048cbc98ed3f210991dc65aa736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 022/111] fix: SGA edge deletion left parameter fields at their
 full size

---
 kd/model/sga/sgapde/context.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 716dd65..eda6255 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -419,6 +419,13 @@ class ProblemContext:
         new_coords_1d = dict(self.coords_1d)
         new_coords_1d["x"] = np.asarray(new_coords_1d["x"]).reshape(-1)[n_slice_start:n_slice_end]
 
+        # Parameter fields live on the same grid and are cropped with it.
+        if getattr(self.config, "param_fields", None):
+            self.config.param_fields = {
+                name: np.asarray(value)[slicer]
+                for name, value in self.config.param_fields.items()
+            }
+
         # Rebuild the variable registry so fields/coords/axis_map/delta/coord_grids stay in sync.
         self.config.fields_data = new_fields
         self.config.coords_1d = new_coords_1d
-- 
2.43.0


From 2ef9e5875b7f7b9fab6c94fd49270d5a597fd48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 023/111] fix: SGA accepted parameter fields whose names or
 shapes contradict the grid

---
 kd/model/sga/sgapde/context.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index eda6255..dafd6ea 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -279,6 +279,19 @@ class ProblemContext:
                 f"{derivative_conflicts}."
             )
 
+        # Parameter fields share the terminal namespace with fields, axes and derivatives.
+        param_names = list((getattr(self.config, "param_fields", None) or {}).keys())
+        for name in param_names:
+            validate_name(name)
+        param_conflicts = sorted(
+            set(param_names) & (set(field_names) | set(coord_names) | derivative_keys)
+        )
+        if param_conflicts:
+            raise ValueError(
+                "Parameter field names conflict with fields, axes or derivative keys: "
+                f"{param_conflicts}."
+            )
+
         lhs_axis = self.lhs_axis
         if len(lhs_axis) == 1 and self.target_field in field_names:
             legacy_lhs_alias = f"{self.target_field}{lhs_axis}"
@@ -346,6 +359,13 @@ class ProblemContext:
                     f"Field '{name}' has shape {field.shape}, expected {grid_shape}."
                 )
 
+        for name, value in (getattr(self.config, "param_fields", None) or {}).items():
+            if np.shape(value) != grid_shape:
+                raise ValueError(
+                    "Structured grid requires parameter fields to share the grid shape. "
+                    f"'{name}' has shape {np.shape(value)}, expected {grid_shape}."
+                )
+
         if self.config.enforce_uniform_grid:
             for axis in axis_order:
                 coord = coords_1d[axis]
-- 
2.43.0


From de665e34a0cc406d7527edd85d5deab679583a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 024/111] fix: SGA reported u and u_t whatever the target field
 and left-hand-side axis

---
 kd/model/sga/sgapde/context.py  |  2 +-
 kd/model/sga/sgapde/equation.py | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index dafd6ea..3f67ece 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -1080,7 +1080,7 @@ class ProblemContext:
         self.default_u2 = np.reshape(self.u**2, (flat_size, 1))
         self.default_u3 = np.reshape(self.u**3, (flat_size, 1))
         self.default_terms = self.default_u
-        self.default_names = ['u']
+        self.default_names = [self.target_field]
         self.num_default = self.default_terms.shape[1]
 
         # 若无解析模板或显式标记为无真解，则跳过 ground-truth 误差计算
diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index 50b3669..b45fbd1 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -38,12 +38,14 @@ class SGAEquationDetails:
 
 
 def _infer_lhs_label(config) -> str:
+    target = getattr(config, 'target_field', None) or 'u'
+    axis = getattr(config, 'lhs_axis', None) or 't'
+    fitted = f'{target}_{axis}'
     raw = getattr(config, 'left_side', None)
-    if not raw:
-        return 'u_t'
-    if isinstance(raw, str) and '=' in raw:
-        return raw.split('=', 1)[1].strip() or 'u_t'
-    return 'u_t'
+    # The built-in templates are written for u_t only.
+    if fitted == 'u_t' and isinstance(raw, str) and '=' in raw:
+        return raw.split('=', 1)[1].strip() or fitted
+    return fitted
 
 
 def extract_equation_details(pde, context, *, coefficient_tol: float = _DEFAULT_TOL) -> SGAEquationDetails:
-- 
2.43.0


From a411a43ad7a0c9bc714881ff1b27481d19efd294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 025/111] fix: SGA LaTeX dropped the grouping of compound
 operands, so (u u_x)_x read as u u_xx

---
 kd/model/sga/sgapde/equation.py | 44 ++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index b45fbd1..51e1e54 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import copy
+import re
 from dataclasses import dataclass
 from typing import Iterable, Literal, Sequence
 
@@ -264,7 +265,12 @@ def _render_leaf(name: str) -> str:
         'rho': '\\rho',
         'sigma': '\\sigma',
     }
-    return mapping.get(name, name)
+    if name in mapping:
+        return mapping[name]
+    base, sep, sub = name.partition('_')
+    if sep and base and sub and '_' not in sub:
+        return f"{mapping.get(base, base)}_{{{sub}}}"
+    return name
 
 
 def _combine_node(name: str, children: Sequence[str], *, notation: str = "subscript") -> str:
@@ -286,15 +292,13 @@ def _combine_node(name: str, children: Sequence[str], *, notation: str = "subscr
         var = _render_derivative_variable(children)
         operand = children[0]
         if notation == "subscript":
-            merged = _merge_subscript(operand, var)
-            return merged if merged is not None else f"{operand}_{{{var}}}"
+            return _subscript(operand, var)
         return f"\\frac{{\\partial {operand}}}{{\\partial {var}}}"
     if name == 'd^2':
         var = _render_derivative_variable(children)
         operand = children[0]
         if notation == "subscript":
-            merged = _merge_subscript(operand, var + var)
-            return merged if merged is not None else f"{operand}_{{{var}{var}}}"
+            return _subscript(operand, var + var)
         return f"\\frac{{\\partial^{{2}} {operand}}}{{\\partial {var}^{{2}}}}"
     if not children:
         return name
@@ -307,6 +311,13 @@ def _render_derivative_variable(children: Sequence[str]) -> str:
     return children[1]
 
 
+def _subscript(operand: str, var: str) -> str:
+    """Attach a derivative subscript, grouping compound operands: (u v)_{x}."""
+    operand = _ensure_group(operand)
+    merged = _merge_subscript(operand, var)
+    return merged if merged is not None else f"{operand}_{{{var}}}"
+
+
 def _merge_subscript(operand: str, new_sub: str) -> str | None:
     """Merge new subscript into existing one: u_{x} + 'x' -> u_{xx}.
 
@@ -338,13 +349,24 @@ def _merge_subscript(operand: str, new_sub: str) -> str | None:
 
 
 def _ensure_group(expr: str) -> str:
-    if expr.startswith('(') and expr.endswith(')'):
+    if _is_atomic(expr):
         return expr
-    if expr.startswith('\\frac'):
-        return f"({expr})"
-    if any(ch in expr for ch in [' ', '+', '-']):
-        return f"({expr})"
-    return expr
+    return f"({expr})"
+
+
+def _is_atomic(expr: str) -> bool:
+    """True for a symbol or one parenthesised group, each with at most one subscript."""
+    body = re.sub(r'_\{[^{}]*\}$', '', expr)
+    if re.fullmatch(r'\\?[A-Za-z0-9]+', body):
+        return True
+    if not body.startswith('('):
+        return False
+    depth = 0
+    for i, ch in enumerate(body):
+        depth += (ch == '(') - (ch == ')')
+        if depth == 0:
+            return i == len(body) - 1
+    return False
 
 
 __all__ = [
-- 
2.43.0


From 43ff694f2b6cb2d58b0d07c29bac7f9b60475ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 026/111] fix: reset every node cache of an SGA term dropped
 half-way through evaluation

---
 kd/model/sga/sgapde/pde.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/pde.py b/kd/model/sga/sgapde/pde.py
index 96242c7..048fed6 100644
--- a/kd/model/sga/sgapde/pde.py
+++ b/kd/model/sga/sgapde/pde.py
@@ -218,7 +218,10 @@ def evaluate_mse(a_pde, context, is_term=False, *, return_matrix=False):
 
         if term_invalid:
             delete_ix.append(ix)
-            tree_list[0][0].cache = tree_list[0][0].var
+            # The walk stopped half-way: reset every node, not only the root.
+            for level in tree_list:
+                for node in level:
+                    node.cache = node.var
             continue
 
         if not any(tree_list[0][0].cache.reshape(-1)):  # 如果全是0，无法收敛且无意义
-- 
2.43.0


From 0eb40c5b5de8f87873c9bdbdb5fcdfaf45af3bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 027/111] fix: SGA initial population no longer redraws forever
 on data every candidate fits

---
 kd/model/sga/sgapde/solver.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/solver.py b/kd/model/sga/sgapde/solver.py
index f4db79e..f7e9dcd 100644
--- a/kd/model/sga/sgapde/solver.py
+++ b/kd/model/sga/sgapde/solver.py
@@ -112,13 +112,19 @@ class SGA:
         self.err_lib = err_lib
         
         print('Creating the original pdes in the pool ...')
+        # Suspiciously good candidates are redrawn, but on data where every candidate
+        # scores that well (e.g. a constant or tiny left-hand side) redrawing never ends.
+        redraws_left = 100 * num
         for i in range(num * self.ratio):
             a_pde = PDE(self.context, depth, width, p_var)
             a_err, a_w = evaluate_mse(a_pde, self.context)
             self.pde_lib.append(a_pde)
             self.err_lib.append((a_err, a_w))
             
-            while a_err < -100 or a_err == np.inf:
+            while a_err == np.inf or (a_err < -100 and redraws_left > 0):
+                redraws_left -= 1
+                if redraws_left < -100 * num:
+                    raise RuntimeError("No evaluable candidate equation could be generated for this data.")
                 print(a_err)
                 a_pde = PDE(self.context, depth, width, p_var)
                 a_err, a_w = evaluate_mse(a_pde, self.context)
-- 
2.43.0


From cc1dce1ccfd36c80b0119f2a821fbe173cece0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 028/111] fix: Discover STRidge no longer compares an index
 array with a list

---
 kd/model/discover/ga_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/ga_utils.py b/kd/model/discover/ga_utils.py
index e61622d..252511b 100644
--- a/kd/model/discover/ga_utils.py
+++ b/kd/model/discover/ga_utils.py
@@ -130,7 +130,7 @@ def STRidge(X0, y, lam, maxit, tol, normalize=0, print_results=False):
         else:
             w[biginds] = np.linalg.lstsq(X[:, biginds], y)[0]
     # Now that we have the sparsity pattern, use standard least squares to get w
-    if biginds != []: 
+    if len(biginds) > 0: 
         w[biginds] = np.linalg.lstsq(X[:, biginds], y)[0]
     if normalize != 0:
         return np.multiply(Mreg, w)
-- 
2.43.0


From a5ac6dac7309553edea667e546f4fe84cf68525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 029/111] fix: drop_duplicates replaces the duplicate itself,
 not the first item of the same length

---
 kd/model/discover/ga_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/ga_utils.py b/kd/model/discover/ga_utils.py
index 252511b..01aada1 100644
--- a/kd/model/discover/ga_utils.py
+++ b/kd/model/discover/ga_utils.py
@@ -211,13 +211,13 @@ def drop_duplicates( tokens, values):
 
     for i, (arr_current, str_current) in enumerate(zip(values, token_len)):
         duplicate_found = False
-        for arr_compare, str_compare in zip(values[i+1:], token_len[i+1:]):
+        for idx in range(i + 1, len(values)):
+            arr_compare, str_compare = values[idx], token_len[idx]
             # if the sum of differences is less than 1e-5, consider them the same
             if np.abs(np.sum(arr_compare - arr_current)) < 1e-5:
                 duplicate_found = True
                 # if the current string is shorter, replace the compared one
                 if str_current < str_compare:
-                    idx = token_len.index(str_compare)
                     token_len[idx] = str_current
                     tokens[idx]=tokens[i]
                     values[idx]=values[i]
-- 
2.43.0


From dbf087248532dc77b6ca8d60b9316d660423eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 030/111] fix: signs of nested additive terms follow the
 enclosing subtraction

---
 kd/model/discover/stridge.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 729c278..37e1a7e 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -319,16 +319,10 @@ class STRidge(object):
                 
                 return [root]
 
-            if 'sub' in root.val:
+            # the sign of a sum applies to both of its operands
+            root.children[0].symbol *= root.symbol
+            root.children[1].symbol *= -root.symbol if 'sub' in root.val else root.symbol
 
-                if root.symbol == 1:
-                    root.children[1].symbol *=-1
-                else:
-                    #
-                    if 'sub' in root.val:    
-                        root.children[0].symbol*=-1
-                        root.children[1].symbol*=-1
-            
             return [split_sum(root.children[0]), split_sum(root.children[1])]
 
         def expand_list(input_list):
-- 
2.43.0


From 5d06d4a7f1c76108a9c5dbef65813b4563549bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 031/111] fix: SGA Lasso regression no longer fails on ragged
 arrays

---
 kd/model/sga/sgapde/PDE_find.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/PDE_find.py b/kd/model/sga/sgapde/PDE_find.py
index 14c0843..c4de23e 100644
--- a/kd/model/sga/sgapde/PDE_find.py
+++ b/kd/model/sga/sgapde/PDE_find.py
@@ -222,6 +222,7 @@ def Lasso(X0, Y, lam, w=np.array([0]), maxit=100, normalize=2):
     # Create w if none is given
     if w.size != d:
         w = np.zeros((d, 1))
+    w = np.array(w, dtype=float).reshape(d, 1)
     w_old = np.zeros((d, 1))
     # First normalize data
     if normalize != 0:
@@ -240,7 +241,7 @@ def Lasso(X0, Y, lam, w=np.array([0]), maxit=100, normalize=2):
         w_old = w
         z = z - X.T.dot(X.dot(z) - Y) / L
         for j in range(d):
-            w[j] = np.multiply(np.sign(z[j]), np.max([abs(z[j]) - lam / L, 0]))
+            w[j] = np.sign(z[j]) * np.maximum(abs(z[j]) - lam / L, 0)
 
         # Could put in some sort of break condition based on convergence here.
     # Now that we have the sparsity pattern, used least squares.
-- 
2.43.0


From 47b502f1f9b38c8e51616ae39aa5a66191d4fe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 032/111] fix: SGA Lasso regression returns the Lasso
 coefficients its errors belong to

---
 kd/model/sga/sgapde/PDE_find.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kd/model/sga/sgapde/PDE_find.py b/kd/model/sga/sgapde/PDE_find.py
index c4de23e..3cae3bc 100644
--- a/kd/model/sga/sgapde/PDE_find.py
+++ b/kd/model/sga/sgapde/PDE_find.py
@@ -146,6 +146,7 @@ def Train(R, Ut, lam, d_tol, AIC_ratio=1, maxit=10, STR_iters=10, l0_penalty=1,
 
     elif sparse == 'Lasso':
         w = Lasso(R, Ut, lam, w=np.array([0]), maxit=maxit*10, normalize=normalize)
+        w_best = w
         # err = np.linalg.norm(Ut - R.dot(w), 2) + l0_penalty * np.count_nonzero(w)
         data_err_best = np.linalg.norm(Ut - R.dot(w), 2)
         mse_best = np.mean((TrainY - TrainR.dot(w)) ** 2)
-- 
2.43.0


From 86c02d88bb1d1f3dbded55f0903369f2c20b7b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 033/111] fix: DLGA LaTeX names terms after the configured
 operators

---
 kd/viz/dlga_eq2latex.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kd/viz/dlga_eq2latex.py b/kd/viz/dlga_eq2latex.py
index 3440818..6ebb216 100644
--- a/kd/viz/dlga_eq2latex.py
+++ b/kd/viz/dlga_eq2latex.py
@@ -17,6 +17,10 @@ DEFAULT_LATEX_STYLE_MAP = {
     "uxxx": "u_{xxx}",
     "ut": "u_t",    # 更标准的 LaTeX 可以是 r"\frac{\partial u}{\partial t}"
     "utt": "u_{tt}", # r"\frac{\partial^2 u}{\partial t^2}"
+    # 带下划线的写法（KD_DLGA 的 operators 以及 LHS 名称）
+    "u_xx": "u_{xx}",
+    "u_xxx": "u_{xxx}",
+    "u_tt": "u_{tt}",
 }
 
 
@@ -170,7 +174,7 @@ def dlga_eq2latex(
     for i, module in enumerate(chromosome):
         print(f"    Term {i+1} - Module (gene indices): {module}")
         # Further explain the meaning of the module
-        term_parts = [DLGA_INTERNAL_TERM_NAMES[idx] if 0 <= idx < len(DLGA_INTERNAL_TERM_NAMES) else f"Unknown Gene({idx})" for idx in module]
+        term_parts = [name[idx] if 0 <= idx < len(name) else f"Unknown Gene({idx})" for idx in module]
         print(f"      Meaning (product of terms): {' * '.join(term_parts) if term_parts else 'Base constant term'}")
 
     print(f"  Coefficients (NumPy array, corresponding to each module/term in the chromosome):")
@@ -178,15 +182,16 @@ def dlga_eq2latex(
         print(f"    Term {i+1} - Coefficient: {coeff_row[0]:.4f}")
         
     print(f"  Left-hand side term name (string): {lhs_name_str}")
-    print(f"  (Note: Gene indices in the chromosome map to the following list: {DLGA_INTERNAL_TERM_NAMES})")
+    print(f"  (Note: Gene indices in the chromosome map to the following list: {name})")
     print("--- Equation Renderer data reception end ---\n")
 
     # Generate LaTeX string
     dlga_latex_str = chromosome_to_latex(
         chromosome=chromosome,
         coefficients=coefficients,
-        lhs_name_str=lhs_name_str
-        # dlga_term_names and latex_style_map will use the function's default values
+        lhs_name_str=lhs_name_str,
+        dlga_term_names=name
+        # latex_style_map will use the function's default value
     )
 
     print(f"[Equation Renderer INFO]: LaTeX: {dlga_latex_str}")
-- 
2.43.0


From 5592bad4b28d177d84b85fb62f3e1142673d170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 034/111] fix: DLGA selection keeps individuals with tied
 fitness apart

---
 kd/model/dlga.py    | 5 +++--
 kd/model/kd_dlga.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 2d6e7b5..80748f7 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -397,8 +397,9 @@ class DLGA(BaseGa):
             coef_list.append(coef)
             name_list.append(name)
         # Select best 50% individuals
-        re1 = list(
-            map(fitness_list.index, heapq.nsmallest(int(size_pop / 2), fitness_list))
+        # (by index: individuals with tied fitness stay separate individuals)
+        re1 = heapq.nsmallest(
+            int(size_pop / 2), range(size_pop), key=fitness_list.__getitem__
         )
 
         for index in re1:
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index 54fdad5..b8952ee 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -204,7 +204,8 @@ class KD_DLGA(DLGA):
         num_to_keep = int(size_pop / 2)
         if len(fitness_list) < num_to_keep:
             num_to_keep = len(fitness_list)
-        re1 = list(map(fitness_list.index, heapq.nsmallest(num_to_keep, fitness_list)))
+        # By index: individuals with tied fitness stay separate individuals.
+        re1 = heapq.nsmallest(num_to_keep, range(len(fitness_list)), key=fitness_list.__getitem__)
         for index in re1:
             new_Chrom.append(Chrom[index])
             new_fitness.append(fitness_list[index])
-- 
2.43.0


From 667447f3e2b87ab942b5cde4bdae15f79754c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 035/111] fix: KD_DLGA keeps its plots when it is imported
 before kd.viz (circular import)

---
 kd/model/dlga.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 80748f7..3145b60 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -17,8 +17,6 @@ from tqdm import tqdm
 import pickle
 import matplotlib.pyplot as plt
 
-from ..viz import equation_renderer
-
 class BaseGa(BaseEstimator, metaclass=ABCMeta):
     """Abstract base class for genetic algorithm based models."""
 
@@ -590,6 +588,9 @@ class DLGA(BaseGa):
             print(f"equation form: {equation}")
 
 
+            # Imported here: kd.viz registers its adapters by importing this module.
+            from ..viz import equation_renderer
+
             if equation_renderer: # 检查导入是否成功
                 self.eq_latex = equation_renderer.dlga_eq2latex(
                     chromosome=Chrom,
-- 
2.43.0


From 1c40303adb808b2a0b192f3acbaf2487a3ddefc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 036/111] fix: programs read from text with different constants
 no longer share one object

---
 kd/model/discover/program.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/program.py b/kd/model/discover/program.py
index 14e9b12..f916297 100644
--- a/kd/model/discover/program.py
+++ b/kd/model/discover/program.py
@@ -100,8 +100,9 @@ def from_str_tokens(str_tokens, skip_cache=False):
     else:
         raise ValueError("Input must be list or string.")
 
-    # Generate base Program (with "const" for constants)
-    p = from_tokens(traversal, skip_cache=skip_cache)
+    # Generate base Program (with "const" for constants).  A Program holding
+    # hard-coded constants is not the cached Program of its placeholder tokens.
+    p = from_tokens(traversal, skip_cache=skip_cache or len(constants) > 0)
 
     # Replace any constants
     p.set_constants(constants)
-- 
2.43.0


From 0330375e6dd03a6f0a89620af4c348b901350e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 037/111] fix: pickling a Discover program keeps its constants,
 reward and validity

---
 kd/model/discover/program.py | 51 ++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/kd/model/discover/program.py b/kd/model/discover/program.py
index f916297..7aa8b77 100644
--- a/kd/model/discover/program.py
+++ b/kd/model/discover/program.py
@@ -296,22 +296,23 @@ class Program(object):
                     
     def __getstate__(self):
         
-        have_r = "r" in self.__dict__
-        have_evaluate = "evaluate" in self.__dict__
-        possible_const = have_r or have_evaluate
-        
+        # Placeholder constants have no value until they are set or optimized
+        const_set = all(self.traversal[i].value is not None for i in self.const_pos)
+
+        # Results of a computed reward (see r_ridge)
+        fit = {k: self.__dict__[k] for k in ('r_ridge', 'w', 'y_hat_rhs', 'Theta', 'cached_terms') if k in self.__dict__}
+
         state_dict = {'tokens' : self.tokens, # string rep comes out different if we cast to array, so we can get cache misses.
-                      'have_r' : bool(have_r),
-                      'r' : float(self.r) if have_r else float(-np.inf), 
-                      'have_evaluate' : bool(have_evaluate),
-                      'evaluate' : self.evaluate if have_evaluate else float(-np.inf), 
-                      'const' : array.array('d', self.get_constants()) if possible_const else float(-np.inf), 
-                      'on_policy_count' : bool(self.on_policy_count),
-                      'off_policy_count' : bool(self.off_policy_count),
+                      'fit' : fit if 'r_ridge' in fit else {},
+                      'have_evaluate' : 'evaluate' in self.__dict__,
+                      'evaluate' : self.__dict__.get('evaluate'),
+                      'const' : self.get_constants() if const_set else [],
+                      'on_policy_count' : int(self.on_policy_count),
+                      'off_policy_count' : int(self.off_policy_count),
                       'originally_on_policy' : bool(self.originally_on_policy),
                       'invalid' : bool(self.invalid), 
-                      'error_node' : array.array('u', "" if not self.invalid else self.error_node), 
-                      'error_type' : array.array('u', "" if not self.invalid else self.error_type)}    
+                      'error_node' : getattr(self, 'error_node', None),
+                      'error_type' : getattr(self, 'error_type', None)}
         
         # In the future we might also return sympy_expr and complexity if we ever need to compute in parallel 
 
@@ -322,23 +323,17 @@ class Program(object):
         # Question, do we need to init everything when we have already run, or just some things?
         self._init(state_dict['tokens'], state_dict['originally_on_policy'])
         
-        have_run = False
-        
-        if state_dict['have_r']:
-            setattr(self, 'r', state_dict['r'])
-            have_run = True
-            
+        self.__dict__.update(state_dict['fit'])
+
         if state_dict['have_evaluate']:
             setattr(self, 'evaluate', state_dict['evaluate'])
-            have_run = True 
-        
-        if have_run:
-            self.set_constants(state_dict['const'].tolist())
-            self.invalid = state_dict['invalid']
-            self.error_node = state_dict['error_node'].tounicode()
-            self.error_type = state_dict['error_type'].tounicode()
-            self.on_policy_count = state_dict['on_policy_count']
-            self.off_policy_count = state_dict['off_policy_count']
+
+        self.set_constants(state_dict['const'])
+        self.invalid = state_dict['invalid']
+        self.error_node = state_dict['error_node']
+        self.error_type = state_dict['error_type']
+        self.on_policy_count = state_dict['on_policy_count']
+        self.off_policy_count = state_dict['off_policy_count']
 
     def execute_STR(self,u, x,ut,  test=False, wf=False):
         if wf:
-- 
2.43.0


From 4058ad94301186c231672730442db84d1ef71669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 038/111] fix: the symbolic form of a Discover program keeps
 its derivatives (sympy evaluated diff(u1,x1) to 0)

---
 kd/model/discover/program.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kd/model/discover/program.py b/kd/model/discover/program.py
index 7aa8b77..771cf5f 100644
--- a/kd/model/discover/program.py
+++ b/kd/model/discover/program.py
@@ -7,7 +7,7 @@ from textwrap import indent
 
 import numpy as np
 from sympy.parsing.sympy_parser import parse_expr
-from sympy import pretty
+from sympy import Function, Symbol, pretty
 import time
 
 from .functions import PlaceholderConstant
@@ -639,7 +639,7 @@ class Program(object):
             tree = build_tree(tree)
             tree = convert_to_sympy(tree)
             try:
-                expr = parse_expr(tree.__repr__()) # SymPy expression
+                expr = parse_expr(tree.__repr__(), local_dict=sympy_names(Program.library)) # SymPy expression
             except:
                 expr = tree.__repr__()
             return [expr]
@@ -650,7 +650,7 @@ class Program(object):
                 tree = build_tree(tree)
                 tree = convert_to_sympy(tree)
                 try:
-                    expr = parse_expr(tree.__repr__()) # SymPy expression
+                    expr = parse_expr(tree.__repr__(), local_dict=sympy_names(Program.library)) # SymPy expression
                 except:
                     expr = tree.__repr__()
                 exprs.append(expr)
@@ -726,6 +726,16 @@ class Program(object):
 
 
 
+def sympy_names(library):
+    """Variables and derivatives of the library that sympy must not take for its
+    own names (its diff would differentiate u1 as a constant)"""
+
+    names = {t.name : Function(t.name) for t in library.tokens if "diff" in t.name or "Diff" in t.name}
+    names.update({t.name : Symbol(t.name) for t in library.tokens
+                  if t.input_var is not None or t.state_var is not None or t.param_var is not None})
+    return names
+
+
 def convert_to_sympy(node):
     """Adjusts trees to only use node values supported by sympy"""
 
-- 
2.43.0


From afa576d43540176f14122aa1f23446a7298cc6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 039/111] fix: coordinates in 2-D and 3-D Discover terms vary
 along their own axis

---
 kd/model/discover/execute.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/execute.py b/kd/model/discover/execute.py
index 6d77b0d..dfb6c18 100644
--- a/kd/model/discover/execute.py
+++ b/kd/model/discover/execute.py
@@ -1,10 +1,23 @@
 
 import array
+import numpy as np
 import torch.autograd as autograd
 import torch
 """
 evaluate PDE traversal through predefined operators and operands.
 """
+def along_own_axis(coord, axis, u, x):
+    """
+    Two- and three-dimensional fields are stored as (t, x, y[, z]): shape the coordinate
+    of a space axis so that it varies along that axis only.
+    """
+    ndim = np.ndim(u[0]) if len(u) > 0 else 0
+    if ndim < 3 or ndim != len(x) + 1:
+        return coord
+    shape = [1] * ndim
+    shape[axis + 1] = -1
+    return coord.reshape(shape)
+
 def python_execute(traversal, u, x):
     """
     evaulate the preorder traversal with provided data based on numpy. Modified from dso.
@@ -23,7 +36,7 @@ def python_execute(traversal, u, x):
             if token.input_var is not None:
                 # import pdb;pdb.set_trace()
 
-                intermediate_result =  x[token.input_var]
+                intermediate_result =  along_own_axis(x[token.input_var], token.input_var, u, x)
                 dim_flag = token.input_var+1
             elif token.param_var is not None:
                 intermediate_result = token._param_data_ref
-- 
2.43.0


From 0de220d57cc886cb693d33820db336f8ea4af90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 040/111] fix: derivatives of a function of one coordinate
 (2-D, 3-D) are its derivative, not function/coordinate

---
 kd/model/discover/task/pde/utils_fd.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/kd/model/discover/task/pde/utils_fd.py b/kd/model/discover/task/pde/utils_fd.py
index d4cd645..5d2a51a 100644
--- a/kd/model/discover/task/pde/utils_fd.py
+++ b/kd/model/discover/task/pde/utils_fd.py
@@ -126,12 +126,21 @@ def Diff4(u, dxt, dim, name='x'):
 
 
 
+def coordinate_diff(u, dxt, order):
+    """
+    Derivative of a function u of the coordinate dxt alone
+    """
+    uxt = u.ravel()
+    for _ in range(order):
+        uxt = np.gradient(uxt, dxt.ravel(), edge_order=2)
+    return uxt.reshape(u.shape)
+
 def Diff_2(u, dxt, name=1):
     """
     Here dx is a scalar, name is a str indicating what it is
     """
     if u.shape == dxt.shape:
-        return u/dxt
+        return coordinate_diff(u, dxt, 1)
     t,n,m = u.shape
     uxt = np.zeros((t, n, m))
     if len(dxt.shape) == 2:
@@ -165,7 +174,7 @@ def Diff2_2(u, dxt, name=1):
   
     
     if u.shape == dxt.shape:
-        return u/dxt
+        return coordinate_diff(u, dxt, 2)
     t,n,m = u.shape
     uxt = np.zeros((t, n, m))
     dxt = dxt.ravel()
@@ -215,7 +224,7 @@ def Diff_3(u, dxt, name=1):
 
     # import pdb;pdb.set_trace()
     if u.shape == dxt.shape:
-        return u/dxt
+        return coordinate_diff(u, dxt, 1)
     t,n,m,p = u.shape
     uxt = np.zeros((t, n, m, p))
     if len(dxt.shape) == 2:
@@ -255,7 +264,7 @@ def Diff2_3(u, dxt, name=1):
   
     
     if u.shape == dxt.shape:
-        return u/dxt
+        return coordinate_diff(u, dxt, 2)
     t,n,m,p = u.shape
     uxt = np.zeros((t, n, m,p))
     dxt = dxt.ravel()
-- 
2.43.0


From f86168fff1a61b2f3401a402f3f7c095ca25ac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 041/111] fix: a failed differentiable execution no longer
 marks the next numpy execution invalid

---
 kd/model/discover/stridge.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 37e1a7e..1a94f68 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -58,7 +58,6 @@ def unsafe_execute_torch(traversal, u, x):
     with np.errstate(all='log'):
         y = python_execute_torch(traversal, u,x)
         if y is None:
-            invalid_log.write("bad_diff bad_diff bad_diff")
             return 0, True,'bad_diff','bad_diff'
         
         error_node,error_type=None,None
-- 
2.43.0


From 801946963a26267d677485ed083477b18ba955f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 042/111] fix: failed or non-finite executions are flagged
 invalid

---
 kd/model/discover/stridge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 1a94f68..4a3ff24 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -51,6 +51,10 @@ def unsafe_execute(traversal, u, x):
     with np.errstate(all='log'):
         y = python_execute(traversal, u,x)
         invalid, error_node, error_type = invalid_log.update()
+        if not invalid and y is None:
+            invalid, error_type = True, "execute_returned_none"
+        elif not invalid and not np.all(np.isfinite(y)):
+            invalid, error_node, error_type = True, "not_finite", "not_finite"
         return y, invalid, error_node, error_type
     
 def unsafe_execute_torch(traversal, u, x):
-- 
2.43.0


From 8c46130b0019e2d937327efe5185a2e8253eab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 043/111] fix: the inv_nrmse and R2 metrics of PDE tasks can be
 used

---
 kd/model/discover/task/pde/pde.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kd/model/discover/task/pde/pde.py b/kd/model/discover/task/pde/pde.py
index 9d8d40c..3462457 100644
--- a/kd/model/discover/task/pde/pde.py
+++ b/kd/model/discover/task/pde/pde.py
@@ -281,7 +281,7 @@ def make_pde_metric(name, *args):
     # ut = 
     all_metrics = {
 
-        "inv_nrmse" :    (lambda y, y_hat : 1/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
+        "inv_nrmse" :    (lambda y, y_hat,n : 1/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
                         1),
 
         "pde_reward":  (lambda y, y_hat,n : (1-args[0]*n)/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
@@ -289,7 +289,8 @@ def make_pde_metric(name, *args):
 
         "correlation": (lambda y,y_hat,n: pearsonr(y.ravel(), y_hat.ravel())[0],
                         1),
-        "R2":(lambda y, y_hat,n: 1 - ((y_hat - y)**2).sum() / ((y - y.mean())**2).sum() )
+        "R2":(lambda y, y_hat,n: 1 - ((y_hat - y)**2).sum() / ((y - y.mean())**2).sum(),
+                        1)
 
       
     }
@@ -305,7 +306,8 @@ def make_pde_metric(name, *args):
        
         "inv_nrmse" : 0.0, #1/(1 + args[0]),
         'pde_reward':0.0,
-        'correlation':0.0
+        'correlation':0.0,
+        'R2':0.0
 
     }
     invalid_reward = all_invalid_rewards[name]
@@ -313,7 +315,8 @@ def make_pde_metric(name, *args):
     all_max_rewards = {
         "inv_nrmse" : 1.0,
         "pde_reward":1.0,
-        'correlation':1.0
+        'correlation':1.0,
+        'R2':1.0
 
     }
     max_reward = all_max_rewards[name]
-- 
2.43.0


From 8ffb8efe79bca4279bbd4fde787c148bade04dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 044/111] fix: evaluating a Discover program on a task with
 test data no longer raises TypeError

---
 kd/model/discover/task/pde/pde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/task/pde/pde.py b/kd/model/discover/task/pde/pde.py
index 3462457..fa93e4b 100644
--- a/kd/model/discover/task/pde/pde.py
+++ b/kd/model/discover/task/pde/pde.py
@@ -208,7 +208,7 @@ class PDETask(HierarchicalTask):
         }
         if self.u_test is not None:
         
-            y_hat_test,y_right, w_test = p.execute(self.u_test, self.x, self.ut_test, test=True)
+            y_hat_test,y_right, w_test = p.execute(self.u_test, self.x, self.ut_test)
             info.update({
                 'w_test': w_test
             })
-- 
2.43.0


From 020f1a36abec348ecde9c46ce5343b0d439b30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 045/111] fix: PDE tasks with data_noise_level trim the
 left-hand side like the terms

---
 kd/model/discover/task/pde/pde.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/task/pde/pde.py b/kd/model/discover/task/pde/pde.py
index fa93e4b..2b99054 100644
--- a/kd/model/discover/task/pde/pde.py
+++ b/kd/model/discover/task/pde/pde.py
@@ -116,7 +116,11 @@ class PDETask(HierarchicalTask):
     def load_data(self, dataset):
         self.u = [dataset['u']]
         self.x = dataset['X']
-        self.ut = dataset['ut'].reshape(-1,1)
+        ut = dataset['ut']
+        if self.noise_level > 0:
+            # the terms lose the same boundary (see STRidge.evaluate_terms)
+            ut = cut_bound(ut, percent=self.cut_ratio)
+        self.ut = ut.reshape(-1,1)
         if torch.is_tensor(self.ut):
             self.ut = tensor2np(self.ut)
         self.sym_true = dataset.get('sym_true', '')
-- 
2.43.0


From 636d437df0671a3030d48bf5ca55c06b37ed71b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 046/111] fix: descendant constraints cover every operand of a
 binary token, not only the first

---
 kd/model/discover/dso/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/dso/subroutines.py b/kd/model/discover/dso/subroutines.py
index dbbf4c9..b339033 100644
--- a/kd/model/discover/dso/subroutines.py
+++ b/kd/model/discover/dso/subroutines.py
@@ -190,7 +190,7 @@ def ancestors(actions, arities, ancestor_tokens):
             if threshold is None:
                 for trig_token in ancestor_tokens:
                     if actions[r, c] == trig_token:
-                        threshold = dangling - 1
+                        threshold = dangling - arity # Value once all of its operands are complete
                         break
             # Turn "off" once the branch completes
             else:
-- 
2.43.0


From 25c698e19fead72d909fa4229e47d0f2aa85aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 047/111] fix: the post-hoc check of descendant constraints
 agrees with the constraint

---
 kd/model/discover/dso/subroutines.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kd/model/discover/dso/subroutines.py b/kd/model/discover/dso/subroutines.py
index b339033..06cb4d1 100644
--- a/kd/model/discover/dso/subroutines.py
+++ b/kd/model/discover/dso/subroutines.py
@@ -515,7 +515,7 @@ def jit_check_constraint_violation_descendant_no_target_tokens(\
                 
                 return True
             descendant  = True
-            dangling    = 1
+            dangling    = 2 if a_in_b(action, binary_tokens, B) else 1
         elif descendant:
             if a_in_b(action, binary_tokens, B):
                 # Does action match a binary token?
@@ -581,6 +581,7 @@ def jit_check_constraint_violation_descendant_with_target_tokens(\
             
     _,L     = actions.shape
     T       = target_tokens.shape[0]
+    E       = effector_tokens.shape[0]
     B       = binary_tokens.shape[0]
     U       = unary_tokens.shape[0]
     
@@ -591,13 +592,12 @@ def jit_check_constraint_violation_descendant_with_target_tokens(\
         
         action = actions[0,l]
         
-        if a_in_b(action, effector_tokens, T):
-            # Does action match a target token?
+        if descendant and a_in_b(action, target_tokens, T):
+            return True
+        elif not descendant and a_in_b(action, effector_tokens, E):
+            # Stay a descendant until all of its operands are complete
             descendant  = True
-            dangling    = 1
-        elif a_in_b(action, target_tokens, T):
-            if descendant:                
-                return True
+            dangling    = 2 if a_in_b(action, binary_tokens, B) else 1
         elif descendant:
             if a_in_b(action, binary_tokens, B):
                 # Does action match a binary token?
-- 
2.43.0


From 360f2351574a2290a0ed620ead6cd36fd0e378be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 048/111] fix: the recorded observation keeps the number of
 dangling nodes of its own step

---
 kd/model/discover/task/task.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/kd/model/discover/task/task.py b/kd/model/discover/task/task.py
index 15b8d3d..d60eee1 100644
--- a/kd/model/discover/task/task.py
+++ b/kd/model/discover/task/task.py
@@ -136,11 +136,8 @@ class HierarchicalTask(Task):
                                            empty_sibling=lib.EMPTY_SIBLING)
 
         # Update dangling with (arity - 1) for each element in action
-        #import pdb;pdb.set_trace()
-        try:
-            dangling += lib.arities[action] - 1
-        except:
-            import pdb;pdb.set_trace()
+        # (obs is recorded by the controller and must not change)
+        dangling = dangling + lib.arities[action] - 1
         prior = self.prior(actions, parent, sibling, dangling) # (?, n_choices)
 
         # Reset initial values when tree completes
-- 
2.43.0


From cdd9c13745922b2cff59fc4e4da518beaeac1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 049/111] fix: the observe_dangling and embedding settings of
 the state manager work

---
 kd/model/discover/state_manager.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kd/model/discover/state_manager.py b/kd/model/discover/state_manager.py
index 42d4288..6c98f9a 100644
--- a/kd/model/discover/state_manager.py
+++ b/kd/model/discover/state_manager.py
@@ -165,26 +165,26 @@ class HierarchicalStateManager(StateManager):
         # Action, parent, and sibling inputs are either one-hot or embeddings
         if self.observe_action:
             if self.embedding:
-                x = self.action_embeddings(action)
+                x = F.embedding(action, self.action_embeddings)
             else:
                 x = F.one_hot(action, num_classes=self.library.n_action_inputs)
             observations.append(x)
         if self.observe_parent:
             if self.embedding:
-                x = self.parent_embeddings(parent)
+                x = F.embedding(parent, self.parent_embeddings)
             else:
                 x = F.one_hot(parent, num_classes=self.library.n_parent_inputs)
             observations.append(x)
         if self.observe_sibling:
             if self.embedding:
-                x = self.sibling_embeddings(sibling)
+                x = F.embedding(sibling, self.sibling_embeddings)
             else:
                 x = F.one_hot(sibling, num_classes=self.library.n_sibling_inputs)
             observations.append(x)
 
         # Dangling input is just the value of dangling
         if self.observe_dangling:
-            x = dangling.unsqueeze(-1)
+            x = torch.Tensor(dangling).unsqueeze(-1)
             observations.append(x)
         input_ = torch.cat(observations, dim=-1)
         return input_
-- 
2.43.0


From 371ca297d16f3ec943eb19562b93aaa48010c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 050/111] fix: the documented policy settings gru, num_layers,
 var_scale and rmsprop work

---
 kd/model/discover/controller.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kd/model/discover/controller.py b/kd/model/discover/controller.py
index 845a05e..edbc33e 100644
--- a/kd/model/discover/controller.py
+++ b/kd/model/discover/controller.py
@@ -47,7 +47,7 @@ class StructureAwareLSTM(nn.Module):
         if self.initializer == 'zeros':
             return lambda x:nn.init.zeros_(x)
         elif self.initializer == 'var_scale':
-            return lambda x: nn.init.kaiming_uniform_(x, a =math.sqrt(5), mode='fan_avg') 
+            return lambda x: nn.init.xavier_uniform_(x, gain=math.sqrt(0.5))
         #else:
         #    rasie NotImplementedError
 
@@ -229,6 +229,8 @@ class Controller(object):
             self.optimizer = torch.optim.Adam(self.cell.parameters(), lr = self.learning_rate)
         elif optimizer == "sgd":
             self.optimizer = torch.optim.SGD(self.cell.parameters(), lr = self.learning_rate)
+        elif optimizer == "rmsprop":
+            self.optimizer = torch.optim.RMSprop(self.cell.parameters(), lr = self.learning_rate)
 
     def loop_fn(self, time, cell_output, cell_state, loop_state):
     
@@ -237,9 +239,9 @@ class Controller(object):
             obs = self.initial_obs
             next_input = self.state_manager.get_tensor_input(obs)
             obs = torch.tensor(obs, dtype=torch.float32)
-            h_0 = torch.zeros(1, self.batch_size, self.num_units)  # hidden state
-            c_0 = torch.zeros(1, self.batch_size,self.num_units)  # cell state
-            next_cell_state = (h_0, c_0)
+            h_0 = torch.zeros(self.num_layers, self.batch_size, self.num_units)  # hidden state
+            c_0 = torch.zeros(self.num_layers, self.batch_size,self.num_units)  # cell state
+            next_cell_state = (h_0, c_0) if isinstance(self.cell.cell, nn.LSTM) else h_0
             emit_output = None
             actions_ta = []
             obs_ta = []
-- 
2.43.0


From 1c555be0e3030cdb634b914c2c70716f90bfc417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 051/111] fix: setting up a Discover model again keeps its
 constraints (their switches were removed from the configuration)

---
 kd/model/discover/dso/prior.py     | 2 ++
 kd/model/discover/state_manager.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index 9d548b2..3825ac8 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -2,6 +2,7 @@
 from matplotlib.style import library
 import numpy as np
 import warnings
+import copy
 import inspect
 from collections import defaultdict
 
@@ -41,6 +42,7 @@ def make_prior(library, config_prior):
         
     }
     # import pdb;pdb.set_trace()
+    config_prior = copy.deepcopy(config_prior) # Used again when a model is set up again
     count_constraints = config_prior.pop("count_constraints", False)
     
     priors = []
diff --git a/kd/model/discover/state_manager.py b/kd/model/discover/state_manager.py
index 6c98f9a..99cfe7f 100644
--- a/kd/model/discover/state_manager.py
+++ b/kd/model/discover/state_manager.py
@@ -69,6 +69,7 @@ def make_state_manager(config):
 
     if config is None:
         config = {}
+    config = dict(config) # Used again when a model is set up again
 
     # Use HierarchicalStateManager by default
     manager_type = config.pop("type", "hierarchical")
-- 
2.43.0


From 676b82a0970f12e17fcdee481085fbaeb15de581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 052/111] fix: the no_inputs constraint can be met in
 regression mode (it forbade every terminal)

---
 kd/model/discover/dso/prior.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index 3825ac8..67e1f41 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -533,10 +533,13 @@ class NoInputsConstraint(Constraint):
 
     def __init__(self, library):
         Prior.__init__(self, library)
+        # Regression has no state variables: its variables are the inputs
+        self.tokens = library.state_tokens if len(library.state_tokens) > 0 else library.input_tokens
+        self.other_tokens = np.setdiff1d(library.terminal_tokens, self.tokens)
 
 
     def validate(self):
-        if len(self.library.non_state_tokens) == 0:
+        if len(self.other_tokens) == 0:
             message = "All terminal tokens are input variables, so all" \
                 "sequences will have an state variable."
             return message
@@ -547,15 +550,14 @@ class NoInputsConstraint(Constraint):
         # 1) the expression would end if a terminal is chosen and
         # 2) there are no state variables
         mask = (dangling == 1) & \
-               (np.sum(np.isin(actions, self.library.state_tokens), axis=1) == 0)
+               (np.sum(np.isin(actions, self.tokens), axis=1) == 0)
         # import pdb;pdb.set_trace()
-        prior = self.make_constraint(mask, self.library.non_state_tokens)
+        prior = self.make_constraint(mask, self.other_tokens)
         return prior
 
     def is_violated(self, actions, parent, sibling):
         # Violated if no input tokens are found in actions
-        tokens = self.library.state_tokens
-        return bool(np.isin(tokens, actions).sum() == 0)
+        return bool(np.isin(self.tokens, actions).sum() == 0)
 
     def describe(self):
         message = "{}: Sequences contain at least one state variable Token.".format(self.__class__.__name__)
-- 
2.43.0


From aef44e90ccb02ff9075825c250d75817889ff2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 053/111] fix: an equation that cannot be computed is skipped
 in PINN training instead of raising IndexError

---
 kd/model/discover/pinn.py    | 3 +++
 kd/model/discover/stridge.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 6d2dd1b..233df1f 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -318,6 +318,9 @@ class PINN_model:
             #local samling based on observations    
                 if local_sample:
                     loss_res2= pinn_loss(self, program_pde[i], self.x_local, self.t_local, program_pde[i].w, extra_gradient=self.extra_gradient)
+                    if torch.isnan(loss_res2):
+                        logging.info("nan")
+                        loss_res2=torch.tensor([0]).to(loss_mse)
                     self.writer.add_scalar(f"pinn/local_pinn_loss_{i}",loss_res2.item(),epoch)
                     pde_loss+=loss_res2
                 
diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 4a3ff24..871d001 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -609,6 +609,8 @@ class STRidge(object):
 
     def calculate_RHS(self, u, x, ut, coefs, execute_func = unsafe_execute_torch,extra_gradient=False ):
         results = self.calculate_RHS_terms(u,x, execute_func,extra_gradient=extra_gradient)
+        if not isinstance(results, list): # A term cannot be computed: the residual is nan
+            return results
         RHS = 0
         if isinstance(coefs, list):
             for i in range(len(coefs)):
-- 
2.43.0


From 6b21fffd99bc715d226262dd9fb953cb395cdddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 054/111] fix: an equation without finite gradient no longer
 destroys the network in PINN training

---
 kd/model/discover/pinn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 233df1f..0b315da 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -327,6 +327,12 @@ class PINN_model:
                 
             loss = coef*(pde_loss)+loss_mse  #delete res3
             loss.backward()
+            if not all(p.grad is None or torch.isfinite(p.grad).all() for p in self.nn.parameters()):
+                # The equation has no usable gradient: train with the data only
+                logging.info("nan gradient")
+                self.optimizer.zero_grad()
+                loss = mse_loss(self.net_u(torch.cat([*self.x, self.t], axis= 1)), self.u_train).sum()
+                loss.backward()
             self.optimizer.step()
             
             if (epoch+1)%10==0:
-- 
2.43.0


From ce26c0e7572844abac89e129a1b181528061102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 055/111] fix: a repeat constraint with max_ 0 also forbids the
 first token

---
 kd/model/discover/dso/prior.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index 67e1f41..c9c6638 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -791,6 +791,12 @@ class RepeatConstraint(Constraint):
         assert min_ is None, "{}: Repeat minimum constraints are not yet " \
             "supported. This requires knowledge of length constraints.".format(self.__class__.__name__)
 
+    def initial_prior(self):
+        prior = Prior.initial_prior(self)
+        if self.max == 0: # Not even as the first token
+            prior[self.tokens] = -np.inf
+        return prior
+
     def __call__(self, actions, parent, sibling, dangling):
         if self.n_objects > 1:
             _, i_batch = get_position(actions, self.library.arities, n_objects=self.n_objects)
-- 
2.43.0


From 40de5b476014077f0f819f09ae584921eb7f5f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 056/111] fix: a search iteration in which every valid
 candidate has reward 0 no longer raises

---
 kd/model/discover/searcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/searcher.py b/kd/model/discover/searcher.py
index a1ebc84..ba18021 100644
--- a/kd/model/discover/searcher.py
+++ b/kd/model/discover/searcher.py
@@ -84,7 +84,7 @@ def quantile_select(actions, obs, priors,programs, r, epsilon):
     s           = list(compress(s, valid))
     s_str       = list(compress(s_str, valid))
     
-    if len(actions)<1:
+    if len(actions)<1 or len(r_full_valid)<1:
         print("no valid training samples")
         # continue when no valid or high-rewards samples
         return None
-- 
2.43.0


From a4851f8334adf384feea5611282d9ad3eee09d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 057/111] fix: the weighted quantile at 1 is the largest value
 even when the weights sum to slightly less than 1

---
 kd/model/discover/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/utils.py b/kd/model/discover/utils.py
index 20d3e45..8510828 100644
--- a/kd/model/discover/utils.py
+++ b/kd/model/discover/utils.py
@@ -202,7 +202,7 @@ def weighted_quantile(values, weights, q):
     sorted_weights = weights[sorted_indices]
     sorted_values = values[sorted_indices]
     cum_sorted_weights = np.cumsum(sorted_weights)
-    i_quantile = np.argmax(cum_sorted_weights >= q)
+    i_quantile = np.argmax(cum_sorted_weights >= q) if cum_sorted_weights[-1] >= q else -1
     quantile = sorted_values[i_quantile]
 
     # NOTE: This implementation is equivalent to (but much faster than) the
-- 
2.43.0


From 7d442aefe6c71cc251eb261e5224f52a692f758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:02 +0000
Subject: [PATCH 058/111] fix: the controller can sample batches of different
 sizes

---
 kd/model/discover/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/controller.py b/kd/model/discover/controller.py
index edbc33e..944b5be 100644
--- a/kd/model/discover/controller.py
+++ b/kd/model/discover/controller.py
@@ -380,7 +380,8 @@ class Controller(object):
                 # Returns RNN emit outputs TensorArray (i.e. logits), final cell state, and final loop state
         self.initial_obs = self.task.reset_task(self.prior)
         self.initial_obs = np.tile(self.initial_obs, (self.batch_size, 1))
-        self.initial_prior = self.initial_prior.expand(self.batch_size, self.n_choices)
+        # Expanded from one row: the previous batch may have had another size
+        self.initial_prior = self.initial_prior.reshape(-1, self.n_choices)[:1].expand(self.batch_size, self.n_choices)
         self.initial_cell_input = self.state_manager.get_tensor_input(self.initial_obs)
         time = 0
         finished, next_input, initial_state, emit_output, loop_state = self.loop_fn(time, \
-- 
2.43.0


From 2546bd18bcbe695a4d3f12308f7516c591c77ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 059/111] fix: expanding a derivative in Discover LaTeX applies
 the product rule to parameter fields too, and names of derivatives are
 printed in LaTeX

---
 kd/viz/discover_eq2latex.py | 39 ++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 258e66d..f635260 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -2,6 +2,7 @@ import logging
 from typing import Optional
 
 import sympy
+from sympy.core.function import AppliedUndef
 
 logger = logging.getLogger(__name__)
 from sympy.parsing.sympy_parser import parse_expr
@@ -41,10 +42,12 @@ class _SubscriptLatexPrinter(LatexPrinter):
     def _print_Derivative(self, expr):
         func = expr.args[0]
         if isinstance(func, sympy.Symbol):
-            func_name = _SYMBOL_DISPLAY.get(func.name, func.name)
-        elif hasattr(func, 'func') and hasattr(func.func, 'name'):
+            func_name = self._print(func)
+            if "_" in func_name:  # a second subscript needs a group of its own
+                func_name = "{" + func_name + "}"
+        elif isinstance(func, AppliedUndef) and func.func.name in _SYMBOL_DISPLAY:
             # Applied function like u1(x1, x2): func.func has .name
-            func_name = _SYMBOL_DISPLAY.get(func.func.name, func.func.name)
+            func_name = _SYMBOL_DISPLAY[func.func.name]
         else:
             # Compound expression (Pow, Mul, Add, etc.): render via printer
             func_name = "(" + self._print(func) + ")"
@@ -66,8 +69,7 @@ class _SubscriptLatexPrinter(LatexPrinter):
 # First-order compound derivative expansion
 # ---------------------------------------------------------------------------
 
-# Symbols that represent dependent variables (functions of x1, x2, x3)
-_FUNC_SYMBOL_NAMES = frozenset({'u1'})
+# Every other symbol (fields and parameter fields) depends on x1, x2, x3
 _VAR_SYMBOL_NAMES = frozenset({'x1', 'x2', 'x3'})
 
 
@@ -79,7 +81,9 @@ def _is_first_order_compound_derivative(expr: sympy.Basic) -> bool:
     if total_order != 1:
         return False
     func = expr.args[0]
-    from sympy.core.function import AppliedUndef
+    if any(not set(f.args) <= {sympy.Symbol(v) for v in _VAR_SYMBOL_NAMES} for f in func.atoms(AppliedUndef)):
+        # e.g. laplacian(u1): not a pointwise function, so there is no chain rule for it
+        return False
     return not isinstance(func, (sympy.Symbol, AppliedUndef))
 
 
@@ -101,27 +105,14 @@ def _expand_first_order_compound_derivatives(
     # Symbol → Function substitution
     sym_to_fn: dict = {}
     var_syms = [sympy.Symbol(v) for v in sorted(_VAR_SYMBOL_NAMES)]
-    for name in _FUNC_SYMBOL_NAMES:
-        sym = sympy.Symbol(name)
-        fn = sympy.Function(name)(*var_syms)
-        sym_to_fn[sym] = fn
-
-    expr_fn = expr
-    for sym, fn in sym_to_fn.items():
-        expr_fn = expr_fn.subs(sym, fn)
+    for sym in expr.free_symbols:
+        if sym.name not in _VAR_SYMBOL_NAMES:
+            sym_to_fn[sym] = sympy.Function("_" + sym.name)(*var_syms)
 
-    expanded = expr_fn.doit()
+    expanded = expr.xreplace(sym_to_fn).doit()
 
     # Function → Symbol substitution (reverse)
-    for sym, fn in sym_to_fn.items():
-        # Replace derivatives first (higher order → lower order)
-        for vs in var_syms:
-            for order in range(4, 0, -1):
-                expanded = expanded.subs(
-                    sympy.Derivative(fn, (vs, order)),
-                    sympy.Derivative(sym, *([vs] * order)),
-                )
-        expanded = expanded.subs(fn, sym)
+    expanded = expanded.xreplace({fn: sym for sym, fn in sym_to_fn.items()})
 
     # Extract numeric factor: 2*u1*Derivative(u1, x1) → (2, u1*Derivative(...))
     coeff, rest = expanded.as_coeff_Mul()
-- 
2.43.0


From 7ef53e91d19c6b19e4674b669df23c47946a9d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 060/111] fix: Discover LaTeX keeps sums in parentheses and
 unknown names whole (the Laplacian was printed as a product of letters)

---
 kd/model/discover/stridge.py |  4 +++
 kd/viz/discover_eq2latex.py  | 66 ++++++++++++++++++++++++------------
 2 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 871d001..a69cf7a 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -121,6 +121,10 @@ class Node(object):
             return f"Add({child_sympy_strings[0]}, Mul({child_sympy_strings[1]}, -1))"
         elif base_op_name == "div": # div(a,b) 对应 SymPy 的 Mul(a, Pow(b, -1))
             return f"Mul({child_sympy_strings[0]}, Pow({child_sympy_strings[1]}, -1))"
+        elif base_op_name == "neg": # neg(a) 对应 SymPy 的 Mul(a, -1)
+            return f"Mul({child_sympy_strings[0]}, -1)"
+        elif base_op_name == "inv": # inv(a) 对应 SymPy 的 Pow(a, -1)
+            return f"Pow({child_sympy_strings[0]}, -1)"
         elif base_op_name == "n2": # n2(a) 对应 SymPy 的 Pow(a, 2)
             return f"Pow({child_sympy_strings[0]}, 2)"
         elif base_op_name == "n3": # n3(a) 对应 SymPy 的 Pow(a, 3)
diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index f635260..f25a71b 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -119,6 +119,39 @@ def _expand_first_order_compound_derivatives(
     return coeff, rest
 
 
+def _parse_term(term_node_obj, local_sympy_symbols):
+    """Parse the SymPy string of a term.
+
+    Every operand name of the term and the Laplacian are declared to the
+    parser: it splits the names it does not know into a product of letters.
+    """
+    local = {"laplacian": sympy.Function("laplacian"), **local_sympy_symbols}
+    nodes = [term_node_obj]
+    while nodes:
+        node = nodes.pop()
+        children = getattr(node, 'children', None)
+        if children:
+            nodes.extend(children)
+        elif str(getattr(node, 'val', '')).isidentifier():
+            local.setdefault(node.val, sympy.Symbol(node.val))
+    return parse_expr(
+        term_node_obj.to_sympy_string(),
+        local_dict=local,
+        transformations='all',  # allow a broad set of SymPy-compatible transformations
+    )
+
+
+def _factor_and_latex(expr, notation):
+    """Split *expr* into its numeric factor and the LaTeX of the rest."""
+    factor, rest = expr.as_coeff_Mul()
+    if not factor.is_finite:
+        factor, rest = sympy.Integer(1), expr
+    latex = _SubscriptLatexPrinter().doprint(rest) if notation == "subscript" else sympy.latex(rest)
+    if rest.is_Add:  # the coefficient multiplies the whole sum
+        latex = r"\left(" + latex + r"\right)"
+    return factor, latex
+
+
 # ---------------------------------------------------------------------------
 # Node → LaTeX (with optional expansion)
 # ---------------------------------------------------------------------------
@@ -138,25 +171,16 @@ def _discover_term_node_to_latex_expanded(
         else:
             local_sympy_symbols = DEEPRL_SYMBOLS_FOR_SYMPY
 
-    sympy_expr_str = term_node_obj.to_sympy_string()
-    parsed = parse_expr(
-        sympy_expr_str,
-        local_dict=local_sympy_symbols,
-        transformations='all',
-    )
+    parsed = _parse_term(term_node_obj, local_sympy_symbols)
 
     factor, expanded = _expand_first_order_compound_derivatives(parsed)
 
-    if notation == "subscript":
-        latex_output = _SubscriptLatexPrinter().doprint(expanded)
-    else:
-        latex_output = sympy.latex(expanded)
-
-    return factor, latex_output
+    return _factor_and_latex(factor * expanded, notation)
 
 
 # Node -> LaTeX
-def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, notation="subscript"):
+def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, notation="subscript", split_factor=False):
+    """LaTeX of a term; with *split_factor*, ``(numeric_factor, latex_string)``."""
     if local_sympy_symbols is None:
         if notation == "leibniz":
             local_sympy_symbols = _LEIBNIZ_SYMBOLS_FOR_SYMPY
@@ -171,14 +195,12 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
         if DEBUG_RENDERER_MODE:
              logger.debug("Node '%r'.to_sympy_string() -> '%s'", term_node_obj, sympy_expr_str)
 
-        parsed_sympy_expr = parse_expr(
-            sympy_expr_str,
-            local_dict=local_sympy_symbols,
-            transformations='all',  # allow a broad set of SymPy-compatible transformations
-        )
+        parsed_sympy_expr = _parse_term(term_node_obj, local_sympy_symbols)
         if DEBUG_RENDERER_MODE:
             logger.debug("Parsed SymPy expression: %s", parsed_sympy_expr)
 
+        if split_factor:
+            return _factor_and_latex(parsed_sympy_expr, notation)
         if notation == "subscript":
             latex_output = _SubscriptLatexPrinter().doprint(parsed_sympy_expr)
         else:
@@ -194,7 +216,8 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
         )
         if DEBUG_RENDERER_MODE:
              logger.debug("Traceback:", exc_info=True)
-        return f"\\text{{Error converting node: {error_repr}}}"
+        error_latex = f"\\text{{Error converting node: {error_repr}}}"
+        return (sympy.Integer(1), error_latex) if split_factor else error_latex
 
 _VALID_NOTATIONS = ("subscript", "leibniz")
 
@@ -278,13 +301,14 @@ def discover_program_to_latex(program_object, # lhs_name_str,
                 local_sympy_symbols=current_sympy_symbols,
                 notation=notation,
             )
-            coeff_val *= float(factor)
         else:
-            base_term_latex = _discover_term_node_to_latex(
+            factor, base_term_latex = _discover_term_node_to_latex(
                 term_node,
                 local_sympy_symbols=current_sympy_symbols,
                 notation=notation,
+                split_factor=True,
             )
+        coeff_val *= float(factor)
 
         if DEBUG_RENDERER_MODE and "\\text{Error" in base_term_latex:
             logger.warning(
-- 
2.43.0


From e4056a00057754129caedc9cc24861d2fbd62484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 061/111] fix: Discover LaTeX of an equation with a constant
 term is no longer an error message

---
 kd/viz/discover_eq2latex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index f25a71b..420f370 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -253,7 +253,7 @@ def discover_program_to_latex(program_object, # lhs_name_str,
             hasattr(program_object.STRidge, 'terms') and \
             program_object.w is not None and \
             program_object.STRidge.terms is not None and \
-            len(program_object.w) == len(program_object.STRidge.terms)):
+            len(program_object.w) - len(program_object.STRidge.terms) in (0, 1)):
         if DEBUG_RENDERER_MODE:
             w_status = str(getattr(program_object, 'w', '<w attribute not found>'))
             terms_status = str(
@@ -292,6 +292,10 @@ def discover_program_to_latex(program_object, # lhs_name_str,
     for i, coeff_val_from_w in enumerate(coefficients):
         # program.w 可能是一个普通列表或1D NumPy数组
         coeff_val = float(coeff_val_from_w)
+        if i == len(term_nodes):  # add_const: the last coefficient is the constant term
+            rhs_latex_full_terms.append(_format_full_latex_term(coeff_val, "1", processed_terms_count == 0))
+            processed_terms_count += 1
+            continue
         term_node = term_nodes[i]
 
         # Get base term LaTeX for this node.
-- 
2.43.0


From 54ebf02cd037c66df2166b7f15f4a660fde7e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 062/111] fix: the Discover equation plot shows the axes of the
 dataset

---
 kd/viz/_adapters/discover.py |  7 ++++++-
 kd/viz/discover_eq2latex.py  | 36 ++++++++++++++++++++++++------------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 0426da0..613bf96 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -218,7 +218,12 @@ class DiscoverVizAdapter:
 
         try:
             notation = ctx.options.get('notation', 'subscript')
-            latex = discover_program_to_latex(program, notation=notation)
+            dataset = getattr(model, 'dataset_', None)
+            lhs_axis = getattr(dataset, 'lhs_axis', None)
+            axis_names = [a for a in (getattr(dataset, 'axis_order', None) or ()) if a != lhs_axis]
+            latex = discover_program_to_latex(
+                program, notation=notation, lhs_axis=lhs_axis, axis_names=axis_names,
+            )
         except Exception as exc:  # pragma: no cover - dependent on program internals
             return VizResult(intent='equation', warnings=[f'Failed to convert program to LaTeX: {exc}'])
 
diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 420f370..257572d 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -1,5 +1,5 @@
 import logging
-from typing import Optional
+from typing import Optional, Sequence
 
 import sympy
 from sympy.core.function import AppliedUndef
@@ -39,22 +39,27 @@ _LEIBNIZ_SYMBOLS_FOR_SYMPY = {
 class _SubscriptLatexPrinter(LatexPrinter):
     """Render Derivative(u, x, x) as u_{xx} instead of Leibniz notation."""
 
+    def __init__(self, axis_names=None, settings=None):
+        super().__init__(settings)
+        self._display = dict(_SYMBOL_DISPLAY)
+        self._display.update((f"x{i + 1}", name) for i, name in enumerate(axis_names or ()))
+
     def _print_Derivative(self, expr):
         func = expr.args[0]
         if isinstance(func, sympy.Symbol):
             func_name = self._print(func)
             if "_" in func_name:  # a second subscript needs a group of its own
                 func_name = "{" + func_name + "}"
-        elif isinstance(func, AppliedUndef) and func.func.name in _SYMBOL_DISPLAY:
+        elif isinstance(func, AppliedUndef) and func.func.name in self._display:
             # Applied function like u1(x1, x2): func.func has .name
-            func_name = _SYMBOL_DISPLAY[func.func.name]
+            func_name = self._display[func.func.name]
         else:
             # Compound expression (Pow, Mul, Add, etc.): render via printer
             func_name = "(" + self._print(func) + ")"
 
         subscript_parts = []
         for var, count in expr.variable_count:
-            var_name = _SYMBOL_DISPLAY.get(var.name, var.name)
+            var_name = self._display.get(var.name, var.name)
             subscript_parts.append(var_name * count)
 
         subscript = "".join(subscript_parts)
@@ -62,7 +67,7 @@ class _SubscriptLatexPrinter(LatexPrinter):
 
     def _print_Symbol(self, expr):
         name = expr.name
-        return _SYMBOL_DISPLAY.get(name, super()._print_Symbol(expr))
+        return self._display.get(name, super()._print_Symbol(expr))
 
 
 # ---------------------------------------------------------------------------
@@ -141,12 +146,12 @@ def _parse_term(term_node_obj, local_sympy_symbols):
     )
 
 
-def _factor_and_latex(expr, notation):
+def _factor_and_latex(expr, notation, axis_names=None):
     """Split *expr* into its numeric factor and the LaTeX of the rest."""
     factor, rest = expr.as_coeff_Mul()
     if not factor.is_finite:
         factor, rest = sympy.Integer(1), expr
-    latex = _SubscriptLatexPrinter().doprint(rest) if notation == "subscript" else sympy.latex(rest)
+    latex = _SubscriptLatexPrinter(axis_names).doprint(rest) if notation == "subscript" else sympy.latex(rest)
     if rest.is_Add:  # the coefficient multiplies the whole sum
         latex = r"\left(" + latex + r"\right)"
     return factor, latex
@@ -161,6 +166,7 @@ def _discover_term_node_to_latex_expanded(
     local_sympy_symbols=None,
     *,
     notation: str = "subscript",
+    axis_names=None,
 ) -> tuple:
     """Like ``_discover_term_node_to_latex`` but also expands first-order
     compound derivatives, returning ``(numeric_factor, latex_string)``.
@@ -175,11 +181,11 @@ def _discover_term_node_to_latex_expanded(
 
     factor, expanded = _expand_first_order_compound_derivatives(parsed)
 
-    return _factor_and_latex(factor * expanded, notation)
+    return _factor_and_latex(factor * expanded, notation, axis_names)
 
 
 # Node -> LaTeX
-def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, notation="subscript", split_factor=False):
+def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, notation="subscript", split_factor=False, axis_names=None):
     """LaTeX of a term; with *split_factor*, ``(numeric_factor, latex_string)``."""
     if local_sympy_symbols is None:
         if notation == "leibniz":
@@ -200,9 +206,9 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
             logger.debug("Parsed SymPy expression: %s", parsed_sympy_expr)
 
         if split_factor:
-            return _factor_and_latex(parsed_sympy_expr, notation)
+            return _factor_and_latex(parsed_sympy_expr, notation, axis_names)
         if notation == "subscript":
-            latex_output = _SubscriptLatexPrinter().doprint(parsed_sympy_expr)
+            latex_output = _SubscriptLatexPrinter(axis_names).doprint(parsed_sympy_expr)
         else:
             latex_output = sympy.latex(parsed_sympy_expr)
         return latex_output
@@ -227,7 +233,8 @@ def discover_program_to_latex(program_object, # lhs_name_str,
                             custom_deeprl_symbols=None,
                             lhs_axis: Optional[str] = None,
                             notation: str = "subscript",
-                            expand_derivatives: bool = True):
+                            expand_derivatives: bool = True,
+                            axis_names: Optional[Sequence[str]] = None):
     """
     Convert a Program object to a full LaTeX equation string.
 
@@ -236,6 +243,9 @@ def discover_program_to_latex(program_object, # lhs_name_str,
     lhs_axis : str, optional
         Axis name for the LHS derivative (e.g. 't', 'x', 'y').
         Defaults to 't' → ``u_t``.
+    axis_names : sequence of str, optional
+        Names of the coordinates x1, x2, x3 in subscript notation.
+        Defaults to x, y, z.
     """
     if notation not in _VALID_NOTATIONS:
         raise ValueError(f"notation must be one of {_VALID_NOTATIONS}, got {notation!r}")
@@ -304,6 +314,7 @@ def discover_program_to_latex(program_object, # lhs_name_str,
                 term_node,
                 local_sympy_symbols=current_sympy_symbols,
                 notation=notation,
+                axis_names=axis_names,
             )
         else:
             factor, base_term_latex = _discover_term_node_to_latex(
@@ -311,6 +322,7 @@ def discover_program_to_latex(program_object, # lhs_name_str,
                 local_sympy_symbols=current_sympy_symbols,
                 notation=notation,
                 split_factor=True,
+                axis_names=axis_names,
             )
         coeff_val *= float(factor)
 
-- 
2.43.0


From 9f1b002e06a408c9ee1ead15f2c3ecf17b0a7a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 063/111] fix: in Leibniz notation a differentiated product is
 printed in parentheses

---
 kd/viz/discover_eq2latex.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 257572d..7373ef3 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -70,6 +70,20 @@ class _SubscriptLatexPrinter(LatexPrinter):
         return self._display.get(name, super()._print_Symbol(expr))
 
 
+class _LeibnizLatexPrinter(LatexPrinter):
+    """SymPy's notation, with products in parentheses after a derivative operator.
+
+    Without them ``Derivative(u*v, x)`` and ``Derivative(u, x)*v`` look alike.
+    """
+
+    def _print_Derivative(self, expr):
+        tex = super()._print_Derivative(expr)
+        operand = self._print(expr.expr)
+        if expr.expr.is_Mul and tex.endswith(operand):
+            tex = tex[:-len(operand)] + r"\left(" + operand + r"\right)"
+        return tex
+
+
 # ---------------------------------------------------------------------------
 # First-order compound derivative expansion
 # ---------------------------------------------------------------------------
@@ -151,7 +165,7 @@ def _factor_and_latex(expr, notation, axis_names=None):
     factor, rest = expr.as_coeff_Mul()
     if not factor.is_finite:
         factor, rest = sympy.Integer(1), expr
-    latex = _SubscriptLatexPrinter(axis_names).doprint(rest) if notation == "subscript" else sympy.latex(rest)
+    latex = _SubscriptLatexPrinter(axis_names).doprint(rest) if notation == "subscript" else _LeibnizLatexPrinter().doprint(rest)
     if rest.is_Add:  # the coefficient multiplies the whole sum
         latex = r"\left(" + latex + r"\right)"
     return factor, latex
@@ -210,7 +224,7 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
         if notation == "subscript":
             latex_output = _SubscriptLatexPrinter(axis_names).doprint(parsed_sympy_expr)
         else:
-            latex_output = sympy.latex(parsed_sympy_expr)
+            latex_output = _LeibnizLatexPrinter().doprint(parsed_sympy_expr)
         return latex_output
     except Exception as e:
         import traceback
-- 
2.43.0


From 28c790cfd24b942a6505219e6125c0d2a4075dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 064/111] fix: input names of a found regression formula are
 substituted token by token

---
 kd/model/kd_discover_regression.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index 1824d6a..f333ca7 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -70,10 +70,8 @@ class KD_Discover_Regression(KD_Discover):
 
     @staticmethod
     def _render_named_expression(expression: str, var_names: Sequence[str]) -> str:
-        rendered = expression
-        for index, name in reversed(list(enumerate(var_names, start=1))):
-            rendered = rendered.replace(f"x{index}", name)
-        return rendered
+        inputs = {f"x{index}": name for index, name in enumerate(var_names, start=1)}
+        return ",".join(inputs.get(token, token) for token in expression.split(","))
 
     @staticmethod
     def _format_constant(value: float) -> str:
-- 
2.43.0


From 5f11f59698b4184136a4eb25980d1acb44446c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:53 +0000
Subject: [PATCH 065/111] fix: predicting outside a regression formula's domain
 leaves the fitted formula valid

---
 kd/model/kd_discover_regression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index f333ca7..8e40694 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -131,7 +131,10 @@ class KD_Discover_Regression(KD_Discover):
                 "KD_Discover_Regression.predict 收到不匹配的特征数："
                 f"X.shape[1]={X_arr.shape[1]}, expected={expected_n_features}"
             )
+        was_invalid = self.best_program_.invalid
         y_hat, _, _ = self.best_program_.execute_direct(X_arr)
+        # Inputs outside the formula's domain do not make the fitted formula invalid
+        self.best_program_.invalid = was_invalid
         if y_hat is None:
             raise RuntimeError("predict failed: program evaluation returned None.")
         return y_hat.reshape(-1)
-- 
2.43.0


From c6899f09cb24303ea77445467e9ccde514ccbd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:53 +0000
Subject: [PATCH 066/111] fix: the seed of a Discover run also determines the
 initial weights of its policy

---
 kd/model/kd_discover.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index fd1dcb6..8eb2a03 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -126,6 +126,9 @@ class KD_Discover(BaseRL):
         # Clear the cache and reset the compute graph
         Program.clear_cache()
                 
+        # The controller draws its initial weights while it is built
+        self.set_seeds(self.seed)
+
         # initialize
         self.set_task()
         self.prior = self.make_prior()
-- 
2.43.0


From 5672c183ea8570f8f6775617d1b986dda2f0f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:29 +0000
Subject: [PATCH 067/111] fix: importing a second dataset no longer nests its
 result path in the first one's

---
 kd/model/kd_discover.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 8eb2a03..637c19a 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -155,12 +155,25 @@ class KD_Discover(BaseRL):
             self.data_class.load_data()
             
             # Save file
-            if self.out_path is not None:
-                self.out_path = os.path.join(self.out_path,
-                                    "discover_{}_{}.csv".format(dataset, self.seed)
-                )            
+            self._set_result_path(dataset)
         self.setup()
 
+    def _set_result_path(self, dataset_name):
+        """Point ``out_path`` at the result file of a dataset.
+
+        The file lies in the directory the user gave; importing another dataset
+        with the same object replaces the file name set by an earlier import.
+        """
+        if self.out_path is None:
+            return
+        if self.out_path != getattr(self, "_result_path", None):
+            self._out_dir = self.out_path
+        self._result_path = os.path.join(
+            self._out_dir,
+            f"discover_{dataset_name}_{self.seed}.csv"
+        )
+        self.out_path = self._result_path
+
     def import_dataset(self, dataset, *, sym_true=None, n_input_dim=None, dataset_name=None):
         """Import data through a :class:`~kd.dataset.PDEDataset` instance.
 
@@ -191,11 +204,7 @@ class KD_Discover(BaseRL):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._set_result_path(resolved_name)
 
         self.setup()
         return self
@@ -568,11 +577,7 @@ class KD_Discover_SPR(KD_Discover):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._set_result_path(resolved_name)
 
         self.setup()
         return self
@@ -676,7 +681,7 @@ class KD_Discover_SPR(KD_Discover):
 
             print(f"The No.{i} pde discovery process")   
             results = [self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)]
-            self.out_path = f"{prefix}_{i+1}.csv"
+            self.out_path = self._result_path = f"{prefix}_{i+1}.csv"
             best_p = [results[j]['program'] for j in range(len(results))]
 
             if len(best_tokens) > 0:
-- 
2.43.0


From ae8d198e86448c67b0864aa7a843bf4e81892e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 068/111] fix: random_state of the sparse Discover adapter also
 determines the split and the collocation points

---
 kd/model/discover/adapter.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index e575401..8485055 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -365,7 +365,7 @@ class DiscoverSparseAdapter:
         else:
             lb, ub = default_lb, default_ub
 
-        sparse.process_data((lb, ub))
+        self._split(sparse, lb, ub)
 
         result = dict(sparse.get_data())
         if self.cut_quantile is not None:
@@ -520,7 +520,7 @@ class DiscoverSparseAdapter:
         sparse = LegacySparseData(xt, sampled_values)
         if self.colloc_num is not None:
             sparse.colloc_num = int(self.colloc_num)
-        sparse.process_data((lb, ub))
+        self._split(sparse, lb, ub)
 
         result = dict(sparse.get_data())
         result['n_input_dim'] = n_spatial
@@ -556,6 +556,19 @@ class DiscoverSparseAdapter:
 
         return result
 
+    def _split(self, sparse, lb: np.ndarray, ub: np.ndarray) -> None:
+        """Split the sample and draw the collocation points, as ``random_state`` says."""
+        if self.random_state is None:
+            sparse.process_data((lb, ub))
+            return
+        # process_data draws from NumPy's global generator
+        state = np.random.get_state()
+        np.random.seed(self.random_state)
+        try:
+            sparse.process_data((lb, ub))
+        finally:
+            np.random.set_state(state)
+
     def _sample_points(self, x: np.ndarray, t: np.ndarray, u: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         mesh_x, mesh_t = np.meshgrid(x, t, indexing='ij')
         points = np.column_stack((mesh_x.ravel(), mesh_t.ravel()))
-- 
2.43.0


From b2723a221a94e72093996aafcb47ac0b49d4a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:16 +0000
Subject: [PATCH 069/111] fix: autograd derivatives of values that do not
 depend on the coordinate are zero instead of an error

---
 kd/model/discover/task/pde/utils_nn.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/kd/model/discover/task/pde/utils_nn.py b/kd/model/discover/task/pde/utils_nn.py
index bafa9f9..571289a 100644
--- a/kd/model/discover/task/pde/utils_nn.py
+++ b/kd/model/discover/task/pde/utils_nn.py
@@ -207,15 +207,15 @@ class PDEDataset(Dataset):
         
 
 def torch_diff(u, xt, order = 1, dim=None):
-    grad = torch.autograd.grad(outputs=u,inputs = xt,
+    grad = u
+    for _ in range(order):
+        # a value that does not depend on xt has a zero derivative
+        out = None
+        if grad.requires_grad:
+            out = torch.autograd.grad(outputs=grad,inputs = xt,
                                 grad_outputs = torch.ones_like(u),
-                                 create_graph=True)[0]
-    if dim is not None:
-        grad = grad[:,dim:dim+1]    
-    for _ in range(order-1):
-        grad = torch.autograd.grad(outputs=grad,inputs = xt,
-                                grad_outputs = torch.ones_like(u),
-                                 create_graph=True)[0]
+                                 create_graph=True, allow_unused=True)[0]
+        grad = torch.zeros_like(xt) if out is None else out
         if dim is not None:
             grad = grad[:,dim:dim+1]
     return grad
-- 
2.43.0


From 77d2b82d80774f9039a9f5d06473dc2e21de31dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 070/111] fix: the physics loss of an equation with a constant
 term includes the constant

---
 kd/model/discover/stridge.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index a69cf7a..4c56226 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -617,8 +617,10 @@ class STRidge(object):
             return results
         RHS = 0
         if isinstance(coefs, list):
-            for i in range(len(coefs)):
-                RHS += results[i]*coefs[i]        
+            for result, coef in zip(results, coefs):
+                RHS += result*coef
+            if len(coefs) == len(results)+1: # constant term
+                RHS += coefs[-1]
         else:
             RHS = coefs(results)
             
-- 
2.43.0


From bacdf8e9cd1498ff9ceb4f74036288e88c0596c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 071/111] fix: terms of an equation with fixed coefficients
 keep the sign they are subtracted with

---
 kd/model/discover/stridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 4c56226..2e25a96 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -671,4 +671,4 @@ class STRidge(object):
             invalid = True
             error_node, error_type = 'dim_error','dim_error'
 
-        return result,[1 for _ in range(len(self.terms_token))],invalid,error_node, error_type,result
+        return result,[term.symbol for term in self.terms],invalid,error_node, error_type,result
-- 
2.43.0


From b6c5ce038fe72a34ff60c7d98048609fcb7f06ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 072/111] fix: switching a program to differentiable operators
 also switches subtractions

---
 kd/model/discover/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/library.py b/kd/model/discover/library.py
index c4ff158..3b6dd46 100644
--- a/kd/model/discover/library.py
+++ b/kd/model/discover/library.py
@@ -134,7 +134,7 @@ class Library():
         self.names = [t.name for t in tokens]
         self.name_arites = { t.name : t.arity for t in tokens}
 
-        self.np_names = [t.name for t in tokens if t.name not in ['const'] and ('u' not in t.name or t.name=='mul') and t.input_var is None and t.param_var is None]
+        self.np_names = [t.name for t in tokens if t.name not in ['const'] and t.state_var is None and t.input_var is None and t.param_var is None]
         #sub child of operator
         self.arities = np.array([t.arity for t in tokens], dtype=np.int32)
 
-- 
2.43.0


From b3276f921fd9f6e4a0389d97a70ff3f7e6bf9375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 073/111] fix: equations with parameters have a physics loss on
 any set of points

---
 kd/model/discover/execute.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kd/model/discover/execute.py b/kd/model/discover/execute.py
index dfb6c18..af0e83a 100644
--- a/kd/model/discover/execute.py
+++ b/kd/model/discover/execute.py
@@ -82,6 +82,10 @@ def python_execute_torch(traversal, u, x):
 
             elif token.param_var is not None:
                 intermediate_result = token._param_data_ref
+                u_ref = u[0] if isinstance(u, list) else u
+                if torch.is_tensor(intermediate_result) and len(intermediate_result) != len(u_ref):
+                    # a (constant) parameter holds at any set of points
+                    intermediate_result = intermediate_result[:1].expand(len(u_ref), -1)
             elif token.state_var is not None:
                 if isinstance(u, list):
                     
-- 
2.43.0


From e216b5fcad565884ede96b7254569d849eaaf264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 074/111] fix: EqGPT words sint, uyyt, (u^2)xx and (u(u^2)xx)xx
 have the value they spell

---
 kd/model/eqgpt/calculate_terms.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/kd/model/eqgpt/calculate_terms.py b/kd/model/eqgpt/calculate_terms.py
index 34bfc33..7285ef7 100644
--- a/kd/model/eqgpt/calculate_terms.py
+++ b/kd/model/eqgpt/calculate_terms.py
@@ -54,7 +54,7 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         Hxxxx = torch.autograd.grad(outputs=Hxxx.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return Hxxxx.cpu().data.numpy()
     if word=='(u^2)xx':
-        H2x= torch.autograd.grad(outputs=(Hx**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
+        H2x= torch.autograd.grad(outputs=(u**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
         H2xx = torch.autograd.grad(outputs=H2x.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return H2xx.cpu().data.numpy()
     if word=='(uux)x':
@@ -233,12 +233,12 @@ def calculate_terms(word,Net,database,variables,nx,nt):
     if word=='exp(x)':
         return torch.exp(database[:,x_index]).cpu().data.numpy()
     if word=='uyyt':
-        Hy = H_grad[:, 2].reshape(-1,1)
+        Hy = H_grad[:, y_index].reshape(-1,1)
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, t_index].reshape(-1, 1)
         return Hyyt.cpu().data.numpy()
     if word=='sint':
-        return torch.sin(database[:,x_index]).cpu().data.numpy()
+        return torch.sin(database[:,t_index]).cpu().data.numpy()
     if word=='sinx':
         return torch.sin(database[:, x_index]).cpu().data.numpy()
     if word=='(uxx+ux/x)^2':
@@ -276,7 +276,7 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         return result.cpu().data.numpy()
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
@@ -336,7 +336,7 @@ def calculate_terms_PINN(word,Net,database,variables):
         Hxxxx = torch.autograd.grad(outputs=Hxxx.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return Hxxxx
     if word=='(u^2)xx':
-        H2x= torch.autograd.grad(outputs=(Hx**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
+        H2x= torch.autograd.grad(outputs=(u**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
         H2xx = torch.autograd.grad(outputs=H2x.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return H2xx
     if word=='(uux)x':
@@ -515,12 +515,12 @@ def calculate_terms_PINN(word,Net,database,variables):
     if word=='exp(x)':
         return torch.exp(database[:,x_index])
     if word=='uyyt':
-        Hy = H_grad[:, 2].reshape(-1,1)
+        Hy = H_grad[:, y_index].reshape(-1,1)
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, t_index].reshape(-1, 1)
         return Hyyt
     if word=='sint':
-        return torch.sin(database[:,x_index])
+        return torch.sin(database[:,t_index])
     if word=='sinx':
         return torch.sin(database[:, x_index])
     if word=='(uxx+ux/x)^2':
@@ -558,7 +558,7 @@ def calculate_terms_PINN(word,Net,database,variables):
         return result
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
-- 
2.43.0


From 385bb658a7ee08cde18a715d8a6a38f26719d1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 075/111] fix: EqGPT equation coefficients can be computed
 without a grid size

---
 kd/model/eqgpt/calculate_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/eqgpt/calculate_terms.py b/kd/model/eqgpt/calculate_terms.py
index 7285ef7..3a114ba 100644
--- a/kd/model/eqgpt/calculate_terms.py
+++ b/kd/model/eqgpt/calculate_terms.py
@@ -10,7 +10,7 @@ id2word= dict_datas["id2word"]
 
 #print(id2word)
 
-def calculate_terms(word,Net,database,variables,nx,nt):
+def calculate_terms(word,Net,database,variables,nx=None,nt=None):
     if 'x' in variables:
         x_index=variables.index('x')
     if 't' in variables:
-- 
2.43.0


From 97f74fe081fcd0d4a0ccab5dccccdc1441629b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:09 +0000
Subject: [PATCH 076/111] fix: scoring an EqGPT candidate no longer removes the
 end symbol from the caller's sentence

---
 kd/model/eqgpt/continue_train_GPT_all.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index e7a856b..8df42c9 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -176,7 +176,7 @@ def delete_duplicate(sentence):
     all_sentence=[]
     temp_sentence=[]
     if sentence[-1]==1:
-        sentence.pop(-1)
+        sentence=sentence[:-1]
     for word in sentence:
         if word!=2:
             temp_sentence.append(word)
-- 
2.43.0


From 1e29bef2e99023404a55d7e05e78df6151eb271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:09 +0000
Subject: [PATCH 077/111] fix: EqGPT terms are duplicates only if their factors
 are combined by the same operators

---
 kd/model/eqgpt/continue_train_GPT_all.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index 8df42c9..0ef5693 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -187,8 +187,12 @@ def delete_duplicate(sentence):
     no_duplicate=[]
     true_duplicate=[]
     for sentence in all_sentence:
-        if sorted(sentence[::2]) not in no_duplicate:
-            no_duplicate.append(sorted(sentence[::2]))
+        # factors, and divisors (4 is '/'): a*b and b*a are the same term, a/b and b/a are not
+        factors=sorted(sentence[:1]+[sentence[i] for i in range(2,len(sentence),2) if sentence[i-1]!=4])
+        divisors=sorted(sentence[i] for i in range(2,len(sentence),2) if sentence[i-1]==4)
+        key=(factors,divisors,len(sentence))
+        if key not in no_duplicate:
+            no_duplicate.append(key)
             true_duplicate.append(sentence)
     concise_sentence=[]
     for sentence in true_duplicate:
-- 
2.43.0


From 954e0883fd958bdfdd7f94760a7ec910c8250aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:09 +0000
Subject: [PATCH 078/111] fix: an EqGPT candidate that cannot be evaluated has
 reward 0 instead of NaN, which ranked first

---
 kd/model/eqgpt/continue_train_GPT_all.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index 0ef5693..4839b41 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -304,7 +304,8 @@ def calculate_reward(ulti_sentence,all_Net,all_database,words2value,mask_invalid
                     #reward = (1 - 0.3 * np.log10(A.shape[1])) * R2  #wave equation, PDE_compound
                     #reward=(1-0.07*np.log10(A.shape[1])) *R2
                     reward = (1 - 0.02 * np.log10(A.shape[1])) * R2
-                    all_reward.append(reward)
+                    if np.isfinite(reward):
+                        all_reward.append(reward)
                     #reward=(1-0.1*np.log10(A.shape[1])) *R2
                     #reward = (1 - 0.1 * np.log10(A.shape[1])) * R2
                     #reward = (1-np.log10(A.shape[1])) / np.sqrt(MSE_true)
@@ -315,7 +316,8 @@ def calculate_reward(ulti_sentence,all_Net,all_database,words2value,mask_invalid
                     reward=0
         #print(all_reward)
         # plot_reward(all_reward,'L')  # disabled: called per candidate, too slow
-        reward=np.mean(np.array(all_reward))
+        # a candidate that cannot be evaluated in any case has reward 0, not NaN
+        reward=np.mean(np.array(all_reward)) if all_reward else 0
     if ({word2id['u'], word2id['sin(u)']}.issubset(terms)
             or {word2id['u'], word2id['sinh(u)']}.issubset(terms)
             or {word2id['sin(u)'], word2id['sinh(u)']}.issubset(terms)
-- 
2.43.0


From 6313ed5915d26c13d0b51a27d1ac6edff2ad2153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:09 +0000
Subject: [PATCH 079/111] fix: the EqGPT leader board grows to ten entries when
 the first epoch found fewer

---
 kd/model/kd_eqgpt.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/kd/model/kd_eqgpt.py b/kd/model/kd_eqgpt.py
index 1170237..9479ef8 100644
--- a/kd/model/kd_eqgpt.py
+++ b/kd/model/kd_eqgpt.py
@@ -474,16 +474,13 @@ class KD_EqGPT:
             potential_award = second_award[p_idx]
             potential_text = all_sentence[second_index[p_idx]]
             array = np.asarray(best_award)
-            idx_arr = np.where((array - potential_award) < 0)[0]
-            if len(idx_arr) == 0:
-                continue
             if np.isin(potential_award, array):
                 continue
-            ins_idx = idx_arr[0]
+            ins_idx = int(np.sum(array >= potential_award))
             best_sentence.insert(ins_idx, potential_text)
             best_award.insert(ins_idx, potential_award)
-            best_sentence.pop(-1)
-            best_award.pop(-1)
+            del best_sentence[10:]
+            del best_award[10:]
 
         return best_award, best_sentence
 
-- 
2.43.0


From a76df400a844b29a3f0f7527070a53d6cbc52a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:09 +0000
Subject: [PATCH 080/111] fix: the x of exp(-y) no longer counts as the
 coordinate x in an EqGPT candidate

---
 kd/model/eqgpt/continue_train_GPT_all.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index 4839b41..434db99 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -331,6 +331,8 @@ def calculate_reward(ulti_sentence,all_Net,all_database,words2value,mask_invalid
             vis_sentence[i] = 'sqr(x)'
         if vis_sentence[i]=='sqrt(u)':
             vis_sentence[i] = 'sqr(u)'
+        if vis_sentence[i]=='exp(-y)':
+            vis_sentence[i] = 'ep(-y)'
     equation="".join(vis_sentence)
     #print(equation)
     for variable in variables:
-- 
2.43.0


From db69e6fa23b05b79068ed4b1b15ac18dbfc6f1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 081/111] fix: KD_PySR.fit rejects multi-column targets instead
 of flattening them

---
 kd/model/kd_pysr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kd/model/kd_pysr.py b/kd/model/kd_pysr.py
index 56d178f..991f0bd 100644
--- a/kd/model/kd_pysr.py
+++ b/kd/model/kd_pysr.py
@@ -171,7 +171,10 @@ class KD_PySR(BaseEstimator):
             KD_PySR: The fitted estimator instance.
         """
         X_arr = np.asarray(X)
-        y_arr = np.asarray(y).reshape(-1)
+        y_arr = np.asarray(y)
+        if y_arr.ndim > 1 and y_arr.size != max(y_arr.shape):
+            raise ValueError(f"KD_PySR.fit expects a single target per sample, got y.shape={y_arr.shape}")
+        y_arr = y_arr.reshape(-1)
 
         if X_arr.ndim != 2:
             raise ValueError(f"KD_PySR.fit 期望 X 为二维数组，但收到 X.shape={X_arr.shape}")
-- 
2.43.0


From 246ed5935ac53f538044e2616c6b5baf79af3411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 082/111] fix: a failed KD_PySR.fit no longer leaves the
 estimator looking fitted

---
 kd/model/kd_pysr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kd/model/kd_pysr.py b/kd/model/kd_pysr.py
index 991f0bd..5ba8051 100644
--- a/kd/model/kd_pysr.py
+++ b/kd/model/kd_pysr.py
@@ -183,11 +183,13 @@ class KD_PySR(BaseEstimator):
                 f"KD_PySR.fit 收到不匹配的样本数：X.shape[0]={X_arr.shape[0]}, y.shape[0]={y_arr.shape[0]}"
             )
 
+        model = self._build_backend()
+        model.fit(X_arr, y_arr)
+
+        # Only a completed fit replaces the fitted state.
         self.X_train_ = X_arr
         self.y_train_ = y_arr
-
-        self._model = self._build_backend()
-        self._model.fit(X_arr, y_arr)
+        self._model = model
         self._update_equation_info()
         return self
 
-- 
2.43.0


From 0a5601fde78091780e6f86e5eb2bfabb1689e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:46 +0000
Subject: [PATCH 083/111] fix: PySR residual plot shows the values passed to
 plot_residuals

---
 kd/viz/_adapters/pysr.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/kd/viz/_adapters/pysr.py b/kd/viz/_adapters/pysr.py
index 8218b36..b57e174 100644
--- a/kd/viz/_adapters/pysr.py
+++ b/kd/viz/_adapters/pysr.py
@@ -163,20 +163,27 @@ class PySRVizAdapter:
         return VizResult(intent="parity", paths=[path])
 
     def _residual(self, model, ctx) -> VizResult:
-        X, y_true = self._get_training_data(model, ctx)
-        if X is None or y_true is None:
-            return VizResult(
-                intent="residual",
-                warnings=["PySR residual plot requires access to (X, y)."],
-            )
-
-        try:
-            y_pred = np.asarray(model.predict(X)).reshape(-1)
-        except Exception as exc:
-            return VizResult(
-                intent="residual",
-                warnings=[f"KD_PySR.predict failed during residual plot: {exc}"],
-            )
+        actual = ctx.options.get("actual")
+        predicted = ctx.options.get("predicted")
+        if actual is not None and predicted is not None:
+            # Values passed explicitly (see kd.viz.plot_residuals) take precedence.
+            y_true = np.asarray(actual).reshape(-1)
+            y_pred = np.asarray(predicted).reshape(-1)
+        else:
+            X, y_true = self._get_training_data(model, ctx)
+            if X is None or y_true is None:
+                return VizResult(
+                    intent="residual",
+                    warnings=["PySR residual plot requires access to (X, y)."],
+                )
+
+            try:
+                y_pred = np.asarray(model.predict(X)).reshape(-1)
+            except Exception as exc:
+                return VizResult(
+                    intent="residual",
+                    warnings=[f"KD_PySR.predict failed during residual plot: {exc}"],
+                )
 
         try:
             data = ResidualPlotData.from_actual_predicted(
-- 
2.43.0


From 654a9f13d444d2de8d76c2089d407937c9bcc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 084/111] fix: visualization adapters are looked up along the
 class hierarchy, lazy ones included

---
 kd/viz/registry.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/kd/viz/registry.py b/kd/viz/registry.py
index b6aa236..2268ace 100644
--- a/kd/viz/registry.py
+++ b/kd/viz/registry.py
@@ -52,18 +52,15 @@ def get_adapter(target: Any) -> Optional[VizAdapter]:
         return None
     model_cls = target if isinstance(target, type) else type(target)
 
-    adapter = _ADAPTERS.get(model_cls)
-    if adapter is not None:
-        return adapter
-
-    # Check lazy adapters by class name before subclass walk.
-    class_name = model_cls.__name__
-    if class_name in _LAZY_ADAPTERS:
-        _resolve_lazy(class_name)
-        adapter = _ADAPTERS.get(model_cls)
+    # Nearest class first; lazy adapters are resolved when their class is met.
+    for cls in model_cls.__mro__:
+        if cls not in _ADAPTERS and cls.__name__ in _LAZY_ADAPTERS:
+            _resolve_lazy(cls.__name__)
+        adapter = _ADAPTERS.get(cls)
         if adapter is not None:
             return adapter
 
+    # Virtual subclasses (abc registration) do not appear in the MRO.
     for registered_cls, registered_adapter in _ADAPTERS.items():
         try:
             if issubclass(model_cls, registered_cls):
-- 
2.43.0


From 71acadde785a38fa03c1fa5e57e67d45225e33a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 085/111] fix: an equation that cannot be rendered yields a
 warning, not the path of a missing or stale image

---
 kd/viz/_adapters/discover.py |  4 +++-
 kd/viz/_adapters/dlga.py     |  4 +++-
 kd/viz/_adapters/pysr.py     |  4 +++-
 kd/viz/_adapters/sga.py      | 21 +++++++++------------
 kd/viz/equation_renderer.py  |  3 +++
 5 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 613bf96..3f6ef48 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -229,12 +229,14 @@ class DiscoverVizAdapter:
 
         _, path = self._resolve_output(ctx, 'equation.png')
         try:
-            render_latex_to_image(
+            rendered = render_latex_to_image(
                 latex,
                 output_path=str(path),
                 font_size=ctx.options.get('font_size', 16),
                 show=False,
             )
+            if rendered is False:
+                raise ValueError(f'cannot render {latex!r}')
         except Exception as exc:  # pragma: no cover - runtime dependency issues
             return VizResult(intent='equation', warnings=[f'Failed to render LaTeX equation: {exc}'])
 
diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index 04af42b..03bf3dd 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -208,12 +208,14 @@ class DLGAVizAdapter:
             operator_names=operators,
         )
         _, path = self._resolve_output(ctx, 'equation.png')
-        render_latex_to_image(
+        rendered = render_latex_to_image(
             latex,
             output_path=str(path),
             font_size=ctx.options.get('font_size', 16),
             show=False,
         )
+        if rendered is False:
+            return VizResult(intent='equation', warnings=[f'Failed to render LaTeX equation: {latex!r}'])
         return VizResult(intent='equation', paths=[path], metadata={'latex': latex, 'index': index})
 
     def _residual(self, model, ctx) -> VizResult:
diff --git a/kd/viz/_adapters/pysr.py b/kd/viz/_adapters/pysr.py
index b57e174..0b27858 100644
--- a/kd/viz/_adapters/pysr.py
+++ b/kd/viz/_adapters/pysr.py
@@ -103,12 +103,14 @@ class PySRVizAdapter:
 
         _, path = self._resolve_output(ctx, "equation.png")
         try:
-            render_latex_to_image(
+            rendered = render_latex_to_image(
                 latex,
                 output_path=str(path),
                 font_size=ctx.options.get("font_size", 18),
                 show=False,
             )
+            if rendered is False:
+                raise ValueError(f"cannot render {latex!r}")
         except Exception as exc:
             return VizResult(
                 intent="equation",
diff --git a/kd/viz/_adapters/sga.py b/kd/viz/_adapters/sga.py
index 2028af7..73b439b 100644
--- a/kd/viz/_adapters/sga.py
+++ b/kd/viz/_adapters/sga.py
@@ -76,18 +76,15 @@ class SGAVizAdapter:
         output_path = self._resolve_output(ctx, 'equation.png')
         structure_path = self._resolve_output(ctx, 'equation_structure.png')
         try:
-            render_latex_to_image(
-                latex_plain,
-                output_path=str(output_path),
-                font_size=ctx.options.get('font_size', 16),
-                show=False,
-            )
-            render_latex_to_image(
-                structure_plain,
-                output_path=str(structure_path),
-                font_size=ctx.options.get('font_size', 16),
-                show=False,
-            )
+            for latex, path in ((latex_plain, output_path), (structure_plain, structure_path)):
+                rendered = render_latex_to_image(
+                    latex,
+                    output_path=str(path),
+                    font_size=ctx.options.get('font_size', 16),
+                    show=False,
+                )
+                if rendered is False:
+                    raise ValueError(f'cannot render {latex!r}')
         except Exception as exc:  # pragma: no cover - runtime dependency issues
             return VizResult(intent='equation', warnings=[f'Failed to render LaTeX equation: {exc}'])
 
diff --git a/kd/viz/equation_renderer.py b/kd/viz/equation_renderer.py
index 40aaf6e..23c772c 100644
--- a/kd/viz/equation_renderer.py
+++ b/kd/viz/equation_renderer.py
@@ -28,6 +28,7 @@ def render_latex_to_image(
     *,
     show=True,
 ):
+    """Render ``latex_str``; return ``False`` (and log) when that is impossible."""
     try:
         latex_str = _ensure_math_mode(str(latex_str))
         # Heuristically adjust figure width based on LaTeX string length.
@@ -47,10 +48,12 @@ def render_latex_to_image(
         
         if show:
             plt.show()
+        return True
         
     except Exception as e:
         logger.error("Failed to render LaTeX to image: %s", e)
         logger.error("  Offending LaTeX content: %s", latex_str)
+        return False
     finally:
         if 'fig' in locals():
             try:
-- 
2.43.0


From 0100b15aad919f0f3c6ff2b9b77a58d865108897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 086/111] fix: DLGA field comparison refreshes an existing
 image

---
 kd/viz/_adapters/dlga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index 03bf3dd..c8e6c1d 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -131,8 +131,8 @@ class DLGAVizAdapter:
             output_dir=str(path.parent),
         )
         produced = path.parent / 'pde_comparison.png'
-        if produced.exists() and not path.exists():
-            produced.rename(path)
+        if produced.exists():
+            produced.replace(path)
         return VizResult(intent='field_comparison', paths=[path], metadata={'field_comparison': data})
 
     def _time_slices(self, model, ctx) -> VizResult:
-- 
2.43.0


From 1057f3902c4d6e5f98400dc60cd794bb2f08bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 087/111] fix: DLGA equation plot rejects negative solution
 indices (chromosomes and coefficients differ in number)

---
 kd/viz/_adapters/dlga.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index c8e6c1d..d6d275b 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -194,6 +194,8 @@ class DLGAVizAdapter:
 
         index = int(ctx.options.get('solution_index', 0) or 0)
         try:
+            if index < 0:
+                raise IndexError(index)
             chromosome = chrom[index]
             coefficients = coef[index]
             lhs = names[index]
-- 
2.43.0


From d2d070078ea5dec1a1d4f158ab05a249e08f47ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 088/111] fix: DLGA field plots accept spatial_coords as the
 API documents

---
 kd/viz/_adapters/dlga.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index d6d275b..1152026 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -534,6 +534,8 @@ class DLGAVizAdapter:
 
     def _build_field_comparison_data(self, ctx) -> Optional[FieldComparisonData]:
         x_coords = ctx.options.get('x_coords')
+        if x_coords is None:
+            x_coords = ctx.options.get('spatial_coords')
         t_coords = ctx.options.get('t_coords')
         true_field = ctx.options.get('true_field')
         if true_field is None:
@@ -562,6 +564,8 @@ class DLGAVizAdapter:
 
     def _build_time_slice_data(self, ctx) -> Optional[TimeSliceComparisonData]:
         x_coords = ctx.options.get('x_coords')
+        if x_coords is None:
+            x_coords = ctx.options.get('spatial_coords')
         t_coords = ctx.options.get('t_coords')
         true_field = ctx.options.get('true_field')
         predicted_field = ctx.options.get('predicted_field')
-- 
2.43.0


From b7d9dab2700afe1ea33a21664a194a4848a52d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 089/111] fix: Discover density plot labels each curve with its
 own epoch

---
 kd/viz/_adapters/discover.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 3f6ef48..bb19d2c 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -141,7 +141,9 @@ class DiscoverVizAdapter:
             epoches = list(range(0, len(history), step))
             if (len(history) - 1) not in epoches:
                 epoches.append(len(history) - 1)
-        data = history if epoches is None else [history[i] for i in epoches if i < len(history)]
+        if epoches is not None:
+            epoches = [i for i in epoches if 0 <= i < len(history)]
+        data = history if epoches is None else [history[i] for i in epoches]
         if not data:
             return VizResult(intent='density', warnings=['No data available for requested epochs.'])
 
-- 
2.43.0


From 77fb222def8f86f8a9d293f1de1f8260715b32db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 090/111] fix: Discover N-D plots keep the order of descending
 coordinates

---
 kd/viz/discover_viz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index 686dd57..5ef3f7a 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -315,6 +315,8 @@ def _calculate_pde_fields_nd(
     for dim_idx in range(n_input_dim):
         coord_1d = np.asarray(data_dict['X'][dim_idx]).flatten()
         coord_unique = np.unique(coord_1d)
+        if coord_1d.size == coord_unique.size:
+            coord_unique = coord_1d  # keep the order of the data along this axis
         if coord_unique.size < 2:
             raise ValueError(
                 f"Spatial dimension {dim_idx} has fewer than 2 unique "
-- 
2.43.0


From fc84adb5fe60a6e6ed36d0ef8dacca58f6983267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 091/111] fix: plot helpers do not demand data for models that
 bring their own (as in examples/sga_example.py)

---
 kd/viz/api.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/kd/viz/api.py b/kd/viz/api.py
index 2ea9455..aaa3e09 100644
--- a/kd/viz/api.py
+++ b/kd/viz/api.py
@@ -31,9 +31,9 @@ def plot_time_slices(
     model: Any,
     *,
     x_coords: Any = None,
-    t_coords: Any,
-    true_field: Any,
-    predicted_field: Any,
+    t_coords: Any = None,
+    true_field: Any = None,
+    predicted_field: Any = None,
     slice_times: Optional[Any] = None,
     spatial_coords: Optional[Any] = None,
     show_info: bool = True,
@@ -61,8 +61,8 @@ def render_equation(model: Any, *, show_info: bool = True, **options: Any) -> Vi
 def plot_residuals(
     model: Any,
     *,
-    actual: Any,
-    predicted: Any,
+    actual: Any = None,
+    predicted: Any = None,
     coordinates: Optional[Any] = None,
     show_info: bool = True,
     **options: Any,
@@ -80,9 +80,9 @@ def plot_field_comparison(
     model: Any,
     *,
     x_coords: Any = None,
-    t_coords: Any,
-    true_field: Any,
-    predicted_field: Any,
+    t_coords: Any = None,
+    true_field: Any = None,
+    predicted_field: Any = None,
     residual_field: Optional[Any] = None,
     spatial_coords: Optional[Any] = None,
     show_info: bool = True,
-- 
2.43.0


From 1d146e6432f82b3dc7b5234416f891e4add087ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:31 +0000
Subject: [PATCH 092/111] fix: Discover plots show field values at their times
 instead of at time indices

---
 kd/model/discover/adapter.py |  2 ++
 kd/viz/_adapters/discover.py |  2 +-
 kd/viz/discover_viz.py       | 18 +++++++++++++-----
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index 8485055..1a77724 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -110,6 +110,7 @@ class DiscoverRegularAdapter:
             "u": u,
             "ut": ut,
             "X": [x_column],
+            "t": t,
             "n_input_dim": self.n_input_dim or 1,
         }
         if sym_true is not None:
@@ -244,6 +245,7 @@ class DiscoverRegularAdapter:
             "u": u,
             "ut": ut,
             "X": x_list,
+            "t": t_coord,
             "n_input_dim": n_input_dim,
         }
         if sym_true is not None:
diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index bb19d2c..e906307 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -319,7 +319,7 @@ class DiscoverVizAdapter:
             cmap=ctx.options.get('cmap', 'coolwarm'), s=15, alpha=0.8,
         )
         fig.colorbar(sc, ax=ax1, label='Residual ($u_t$ - RHS)')
-        ax1.set_xlabel('Time (index)')
+        ax1.set_xlabel('Time')
         ax1.set_ylabel('Space')
         ax1.set_title('Spatiotemporal Residual Distribution')
 
diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index 5ef3f7a..85d4412 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -229,6 +229,14 @@ def _infer_axis(coord_node, coord_to_axis: dict) -> int:
         return coord_to_axis[name]
     raise ValueError(f"无法从 '{name}' 推断空间轴索引")
 
+def _time_axis(data_dict, num_timesteps):
+    """Time coordinates of the data; their indices when the data carry none."""
+    t = data_dict.get('t')
+    if t is None or np.size(t) != num_timesteps:
+        return np.arange(num_timesteps)
+    return np.asarray(t, dtype=float).reshape(-1)
+
+
 def _calculate_pde_fields(model, best_program):
     """
     一个私有的核心计算函数，供所有绘图函数调用。
@@ -278,7 +286,7 @@ def _calculate_pde_fields(model, best_program):
     physical_residual = ut_trimmed.flatten() - y_hat_rhs.flatten()
 
     # 4. 构建绘图坐标
-    t_axis_trimmed = np.arange(num_timesteps_trimmed)
+    t_axis_trimmed = _time_axis(data_dict, num_timesteps_trimmed)
     X_grid, T_grid = np.meshgrid(x_axis, t_axis_trimmed, indexing='ij')
     coords_for_plot = np.stack([X_grid.flatten(), T_grid.flatten()], axis=1)
 
@@ -360,7 +368,7 @@ def _calculate_pde_fields_nd(
     physical_residual = ut_trimmed.flatten() - y_hat_rhs.flatten()
 
     # 时间轴
-    t_axis_trimmed = np.arange(num_timesteps)
+    t_axis_trimmed = _time_axis(data_dict, num_timesteps)
 
     return {
         "residual": physical_residual,
@@ -390,7 +398,7 @@ def plot_pde_residual_analysis(model, best_program, show_plot=True, output_dir:
         plt.subplot(1, 2, 1)
         sc = plt.scatter(coords_for_plot[:, 1], coords_for_plot[:, 0], c=physical_residual, cmap='coolwarm', s=15, alpha=0.8)
         plt.colorbar(sc, label='Physical Residual ($u_t$ - RHS)')
-        plt.xlabel('Time (trimmed, index)')
+        plt.xlabel('Time')
         plt.ylabel('Space')
         plt.title('Spatiotemporal Distribution of Residuals')
         plt.subplot(1, 2, 2)
@@ -437,7 +445,7 @@ def plot_field_comparison(model, best_program, show_plot=True, output_dir: str =
         im0 = ax0.pcolormesh(t_axis, x_axis, ut_grid, cmap='viridis', vmin=vmin, vmax=vmax, shading='gouraud')
         fig.colorbar(im0, ax=ax0, label='Value')
         ax0.set_title("True Field ($u_t$)", fontsize=14)
-        ax0.set_xlabel("Time (trimmed, index)", fontsize=12)
+        ax0.set_xlabel("Time", fontsize=12)
         ax0.set_ylabel("Space", fontsize=12)
 
         # 绘制右图：预测场
@@ -445,7 +453,7 @@ def plot_field_comparison(model, best_program, show_plot=True, output_dir: str =
         im1 = ax1.pcolormesh(t_axis, x_axis, y_hat_grid, cmap='viridis', vmin=vmin, vmax=vmax, shading='gouraud')
         fig.colorbar(im1, ax=ax1, label='Value')
         ax1.set_title("Predicted Field (RHS)", fontsize=14)
-        ax1.set_xlabel("Time (trimmed, index)", fontsize=12)
+        ax1.set_xlabel("Time", fontsize=12)
 
         plt.tight_layout(rect=[0, 0.03, 1, 0.95])
 
-- 
2.43.0


From 61c131f8d982167ba4d65c027fbabfac9793381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 093/111] fix: SPR field comparison draws space along the space
 axis (the image was transposed)

---
 kd/viz/discover_viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index 85d4412..45d50de 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -738,7 +738,7 @@ def plot_spr_field_comparison(model, best_program, output_dir: str = None):
 
     # 绘制左图：真实场
     ax0 = axes[0]
-    im0 = ax0.imshow(grid_ut.T, extent=(min(t),max(t),min(x),max(x)), origin='lower',
+    im0 = ax0.imshow(grid_ut, extent=(min(t),max(t),min(x),max(x)), origin='lower',
                      aspect='auto', cmap='viridis', vmin=vmin, vmax=vmax)
     fig.colorbar(im0, ax=ax0, label='Value')
     ax0.set_title("True Field ($u_t$)")
@@ -747,7 +747,7 @@ def plot_spr_field_comparison(model, best_program, output_dir: str = None):
 
     # 绘制右图：预测场
     ax1 = axes[1]
-    im1 = ax1.imshow(grid_yhat.T, extent=(min(t),max(t),min(x),max(x)), origin='lower',
+    im1 = ax1.imshow(grid_yhat, extent=(min(t),max(t),min(x),max(x)), origin='lower',
                      aspect='auto', cmap='viridis', vmin=vmin, vmax=vmax)
     fig.colorbar(im1, ax=ax1, label='Value')
     ax1.set_title("Predicted Field (RHS)")
-- 
2.43.0


From 15ca5db089304f6902767e272baf09745d037763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 094/111] fix: plot_optimization_analysis no longer fails on a
 one-generation history

---
 kd/viz/dlga_viz.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kd/viz/dlga_viz.py b/kd/viz/dlga_viz.py
index 14399a2..28e2e6f 100644
--- a/kd/viz/dlga_viz.py
+++ b/kd/viz/dlga_viz.py
@@ -400,6 +400,7 @@ def plot_optimization_analysis(model, output_dir: str = None):
 
         # 2. Right plot: Fitness evolution analysis
         fitness_changes = np.abs(np.diff(fitness_history))
+        show_gens = 0
 
         # Calculate cumulative changes and find major change interval
         if len(fitness_changes) > 0:
-- 
2.43.0


From 3a8aa0530d7b7649ac486763946904cccf0bf341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 095/111] fix: DLGA time slices are titled with the time they
 show

---
 kd/viz/_adapters/dlga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index 1152026..1ec7f9e 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -155,11 +155,11 @@ class DLGAVizAdapter:
         if not isinstance(axes, np.ndarray):
             axes = np.asarray([axes])
 
-        for ax, idx, t_val in zip(axes, indices, slice_times):
+        for ax, idx in zip(axes, indices):
             ax.plot(data.x_coords, data.true_field[:, idx], 'b-', linewidth=2, label='Exact')
             ax.plot(data.x_coords, data.predicted_field[:, idx], 'r--', linewidth=2, label='Prediction')
             ax.set_xlabel(ctx.options.get('space_label', 'Space'))
-            ax.set_title(f't = {t_val:.3f}')
+            ax.set_title(f't = {t_coords[idx]:.3f}')
             ax.grid(True, linestyle='--', alpha=0.5)
 
         axes[0].set_ylabel(ctx.options.get('field_label', 'u(x, t)'))
-- 
2.43.0


From 40da3e621398d3b0bfbfa97f8d3a43dcc14e4b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:22 +0000
Subject: [PATCH 096/111] fix: Discover density metadata reports the requested
 epochs again

---
 kd/viz/_adapters/discover.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index e906307..e533945 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -141,9 +141,8 @@ class DiscoverVizAdapter:
             epoches = list(range(0, len(history), step))
             if (len(history) - 1) not in epoches:
                 epoches.append(len(history) - 1)
-        if epoches is not None:
-            epoches = [i for i in epoches if 0 <= i < len(history)]
-        data = history if epoches is None else [history[i] for i in epoches]
+        drawn = range(len(history)) if epoches is None else [i for i in epoches if 0 <= i < len(history)]
+        data = [history[i] for i in drawn]
         if not data:
             return VizResult(intent='density', warnings=['No data available for requested epochs.'])
 
@@ -152,7 +151,7 @@ class DiscoverVizAdapter:
             sns.kdeplot(
                 np.asarray(rewards),
                 ax=ax,
-                label=f'Epoch {epoches[idx] if epoches else idx}',
+                label=f'Epoch {drawn[idx]}',
                 fill=False,
             )
 
-- 
2.43.0


From 11c699eb28d0d77a11bf30923c4ff5282eefec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:28 +0000
Subject: [PATCH 097/111] fix: PINN training works for fields of any magnitude
 (losses above 1e8 crashed the last round)

---
 kd/model/discover/pinn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 0b315da..3610499 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -231,7 +231,7 @@ class PINN_model:
         return loss
     
     def pretrain(self):
-        best_loss = 1e8
+        best_loss = float('inf')
         last_improvement=0
         if self.pretrain_path_load is not None:
             self.load_model(self.pretrain_path_load)
@@ -296,7 +296,7 @@ class PINN_model:
             program_pde[i].switch_tokens()
         if last:
             # self.pinn_epoch *=3
-            best_loss = 1e8
+            best_loss, last_improvement = float('inf'), 0
 
         logging.info(f"coef:{coef}")
         if local_sample:
-- 
2.43.0


From b7a49e5ce75138445216eab1147911fee3a63f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:44 +0000
Subject: [PATCH 098/111] fix: uniform-grid check of the SGA context works for
 any coordinate unit

np.allclose' default absolute tolerance (1e-8) is larger than the spacing of
axes in small units (nanometres, femtoseconds), so any grid was accepted as
uniform there. Limit the absolute slack to a fraction of the spacing.
---
 kd/model/sga/sgapde/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 3f67ece..31ec5cc 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -372,7 +372,9 @@ class ProblemContext:
                 if coord.size < 2:
                     continue
                 diffs = np.diff(coord)
-                if not np.allclose(diffs, diffs[0]):
+                # The absolute slack must stay small compared with the spacing itself.
+                slack = min(1e-8, 1e-3 * abs(diffs[0]))
+                if not np.allclose(diffs, diffs[0], atol=slack):
                     raise ValueError(
                         "Structured grid requires uniform spacing for axis "
                         f"'{axis}'."
-- 
2.43.0


From 01d85d8c24bf5aad7ff537eae0276e9a61bcdca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:14 +0000
Subject: [PATCH 099/111] fix: Discover adapter judges grid spacing relative to
 the axis unit

np.allclose / np.isclose with their default absolute tolerance (1e-8) accepted
any time grid whose steps are tiny (e.g. femtoseconds) as evenly spaced, and
refused valid spatial axes in small units (e.g. nanometres) as having zero
spacing.
---
 kd/model/discover/adapter.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index 1a77724..7f6fcd5 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -17,6 +17,12 @@ _MAX_SPATIAL_DIM = 3
 _MIN_SPATIAL_POINTS = 4
 
 
+def _evenly_spaced(steps: np.ndarray) -> bool:
+    """Whether all steps are equal, whatever the unit of the axis."""
+    # The absolute slack must stay small compared with the spacing itself.
+    return np.allclose(steps, steps[0], atol=min(1e-8, 1e-3 * abs(steps[0])))
+
+
 @dataclass
 class DiscoverRegularAdapter:
     """Convert a :class:`~kd.dataset.PDEDataset` into DISCOVER regular-data format.
@@ -86,7 +92,7 @@ class DiscoverRegularAdapter:
 
         # Ensure evenly spaced time grid when requested.
         dt = np.diff(t)
-        if self.enforce_uniform_dt and not np.allclose(dt, dt[0]):
+        if self.enforce_uniform_dt and not _evenly_spaced(dt):
             raise ValueError("Time grid must be evenly spaced for finite-difference evaluation")
         delta_t = float(dt[0])
         if delta_t == 0.0:
@@ -189,8 +195,9 @@ class DiscoverRegularAdapter:
                     f"{_MIN_SPATIAL_POINTS}"
                 )
             coord = coords_1d[axis_name]
-            dx_vals = np.diff(coord)
-            if np.any(np.isclose(dx_vals, 0.0)):
+            dx_vals = np.abs(np.diff(coord))
+            # Relative to the axis: a small unit (e.g. nanometres) is not a zero spacing.
+            if np.any(dx_vals <= 1e-8 * np.max(dx_vals)):
                 raise ValueError(
                     f"Spatial axis '{axis_name}' has zero spacing "
                     f"between consecutive points"
@@ -206,7 +213,7 @@ class DiscoverRegularAdapter:
             )
 
         dt = np.diff(t_coord)
-        if self.enforce_uniform_dt and not np.allclose(dt, dt[0]):
+        if self.enforce_uniform_dt and not _evenly_spaced(dt):
             raise ValueError(
                 f"Grid along '{lhs_axis}' must be evenly spaced "
                 "for finite-difference evaluation"
-- 
2.43.0


From 1819cf9ee1734b8352a592721d0eac17c7cc428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:22 +0000
Subject: [PATCH 100/111] fix: PINN mode recognises varying parameters of small
 magnitude

np.allclose' default absolute tolerance (1e-8) made any parameter field of small
values (e.g. a diffusivity around 1e-9) count as constant, so its variation was
silently dropped instead of being refused.
---
 kd/model/discover/task/pde/pde_pinn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/task/pde/pde_pinn.py b/kd/model/discover/task/pde/pde_pinn.py
index c64328a..774d489 100644
--- a/kd/model/discover/task/pde/pde_pinn.py
+++ b/kd/model/discover/task/pde/pde_pinn.py
@@ -129,7 +129,8 @@ class PDEPINNTask(PDETask):
             if token.param_var is None or token.param_var >= len(self._param_fields_raw):
                 continue
             raw = self._param_fields_raw[token.param_var]
-            if not np.allclose(raw, raw.flat[0]):
+            # Relative to the parameter's own size: small values may vary too.
+            if not np.allclose(raw, raw.flat[0], atol=1e-8 * np.max(np.abs(raw))):
                 raise NotImplementedError(
                     f"Spatially-varying param '{token.name}' not supported "
                     "in PINN mode. Use constant parameters or Regular mode."
-- 
2.43.0


From dbb16367e220c92400b41f96035c72516d11a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:38 +0000
Subject: [PATCH 101/111] fix: sampling advances the recurrent state of the
 Discover policy

Every token was drawn with the initial hidden state, while training scores
sequences with the state carried along; samples did not follow the policy.
---
 kd/model/discover/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/controller.py b/kd/model/discover/controller.py
index 944b5be..cec7356 100644
--- a/kd/model/discover/controller.py
+++ b/kd/model/discover/controller.py
@@ -391,7 +391,7 @@ class Controller(object):
             
             (output, cell_state) = self.cell(next_input, state)
             time = time + 1
-            (finished, next_input, next_state, emit, loop_state) = self.loop_fn(time, \
+            (finished, next_input, state, emit, loop_state) = self.loop_fn(time, \
                 cell_output=output, cell_state=cell_state, loop_state=loop_state)
 
         actions_ta, obs_ta, priors_ta, next_obs, next_prior, next_lengths, next_finished =loop_state
-- 
2.43.0


From ee94f4b6e348188939b14324b6707a3402bf4417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:22 +0000
Subject: [PATCH 102/111] fix: KD_Discover_SPR keeps the equation of its final
 search as best_p

---
 kd/model/kd_discover.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 637c19a..60e4e35 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -706,7 +706,9 @@ class KD_Discover_SPR(KD_Discover):
 
         print(f"The No.{iter_num} pde discovery process")
         self.reset_up(reset_controller=False)    
-        return self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)
+        result = self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)
+        self.best_p = [result['program']]
+        return result
     
     def pinn_train(self, best_p, count, coef=0.1, local_sample=False, last=False):
         """Train PINN with discovered equation constraint.
-- 
2.43.0


From 4412534bdbc4e325ad90b4216752098542e1fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:34 +0000
Subject: [PATCH 103/111] fix: a Discover model keeps searching and plotting
 its own data after another model is set up

---
 kd/model/kd_discover.py | 26 ++++++++++++++++++++++++++
 kd/viz/discover_viz.py  |  6 ++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 60e4e35..e2c7db1 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -70,6 +70,11 @@ class KD_Discover(BaseRL):
     """
     
     _parameter: dict = {}
+
+    # What a model keeps on the Program class, which all models share
+    _PROGRAM_STATE = ("task", "library", "const_optimizer", "cache",
+                      "use_torch", "execute_function")
+    _program_state = None
     
     def __init__(self,
         n_iterations=100,
@@ -136,10 +141,27 @@ class KD_Discover(BaseRL):
         self.controller = self.make_controller()
         self.gp_aggregator = self.make_gp_aggregator()
         self.searcher = self.make_searcher()
+        self._remember_program_state()
         self.set_seeds(self.seed)
+
+    def _remember_program_state(self):
+        """Note the Program state that belongs to this model."""
+        self._program_state = {
+            name: getattr(Program, name)
+            for name in self._PROGRAM_STATE if hasattr(Program, name)
+        }
+
+    def _activate(self):
+        """Make this model the one Program works for.
+
+        Setting up another model replaces the state of the Program class.
+        """
+        for name, value in (self._program_state or {}).items():
+            setattr(Program, name, value)
         
     def info(self):
         """Print model information."""
+        self._activate()
         print("Library: ", Program.task.library)
         self.controller.prior.report_constraint_counts()
         
@@ -276,6 +298,7 @@ class KD_Discover(BaseRL):
         Returns:
             dict: Training results.
         """
+        self._activate()
         return self.searcher.search_one_step(epoch=epoch, verbose=verbose)
 
     def train(self, n_epochs=100, verbose=True):
@@ -288,6 +311,7 @@ class KD_Discover(BaseRL):
         Returns:
             dict: Training results.
         """
+        self._activate()
         return self.searcher.search(n_epochs=n_epochs, verbose=verbose)
         
     def set_config(self, config):
@@ -467,6 +491,7 @@ class KD_Discover(BaseRL):
     
     def print_pq(self):
         """Print priority queue."""
+        self._activate()
         self.searcher.print_pq()
 
     def plot(self, fig_type, **kwargs):
@@ -641,6 +666,7 @@ class KD_Discover_SPR(KD_Discover):
         """
         if clear_cache:
             Program.clear_cache()
+            self._remember_program_state()
 
         if new_seed is not None:
             self.set_seeds(new_seed)
diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index 45d50de..38b0a22 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -577,8 +577,10 @@ def _calculate_pinn_fields(model, best_program):
     if y_hat_rhs is None or Theta is None:
         raise AttributeError("best_program 对象中未找到缓存的 Theta 矩阵或 y_hat_rhs。请确保对 pde_pinn.py 和 program.py 的修改已生效。")
 
-    # 3. 从 Program.task 获取对应的、已被裁剪的数据
-    task = Program.task
+    # 3. 从模型自己的 task 获取对应的、已被裁剪的数据
+    #    (Program.task belongs to the model that was set up last)
+    state = getattr(model, '_program_state', None) or {}
+    task = state.get('task') or Program.task
 
     # Defensive check: if task.ut was never set (e.g. AD_generate_mD path
     # before the reset_ut fix), try to recover from ut_cache.
-- 
2.43.0


From 204c146754860aa911b95b52a008b42bdea3d781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:40 +0000
Subject: [PATCH 104/111] fix: the diff_descedent2 constraint also covers the
 physics-informed operators

---
 kd/model/discover/dso/prior.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index c9c6638..90fad2e 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -730,7 +730,8 @@ class DiffConstraint_des(RelationalConstraint):
 class DiffConstraint_des2(RelationalConstraint):
     def __init__(self, library):
         not_included_names  = []
-        candidates = ["n2","n3","n4","mul", "div", "exp","log","sin","cos"]
+        candidates = ["n2","n3","n4","mul", "div", "exp","log","sin","cos",
+                      "n2_t","n3_t","mul_t","div_t"]
         for name in library.names:
             if name in candidates:
                 not_included_names.append(name)
-- 
2.43.0


From 6d4e3aab46aba2093e5ccf91f5fcc43835a88f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:32 +0000
Subject: [PATCH 105/111] fix: the web app finds the Discover models under
 their present module and registry names

---
 app.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/app.py b/app.py
index 748af2a..c46ec68 100644
--- a/app.py
+++ b/app.py
@@ -51,8 +51,8 @@ def _is_bohrium_env(request):
 MODEL_KEYS = {
     "KD_SGA": "sga",
     "KD_DLGA": "dlga",
-    "KD_DSCV": "dscv",
-    "KD_DSCV_SPR": "dscv_spr",
+    "KD_DSCV": "discover",
+    "KD_DSCV_SPR": "discover_spr",
     "KD_EqGPT": "eqgpt",
 }
 
@@ -162,8 +162,8 @@ def _get_model_capabilities(model):
         return []
     caps = list(list_capabilities(model))
     # spr_* intents only work for KD_DSCV_SPR (PINN mode)
-    from kd.model.kd_dscv import KD_DSCV_SPR
-    if not isinstance(model, KD_DSCV_SPR):
+    from kd.model.kd_discover import KD_Discover_SPR
+    if not isinstance(model, KD_Discover_SPR):
         caps = [c for c in caps if not c.startswith("spr_")]
     return sorted(caps)
 
@@ -293,8 +293,8 @@ def _run_local(
                 model.fit_dataset(dataset, sample=sample)
 
             elif model_name == "KD_DSCV":
-                from kd.model.kd_dscv import KD_DSCV
-                model = KD_DSCV(
+                from kd.model.kd_discover import KD_Discover
+                model = KD_Discover(
                     binary_operators=_parse_ops(dscv_binary),
                     unary_operators=_parse_ops(dscv_unary),
                     n_samples_per_batch=int(dscv_batch),
@@ -304,8 +304,8 @@ def _run_local(
                 result = model.fit_dataset(dataset, n_epochs=int(dscv_epochs))
 
             elif model_name == "KD_DSCV_SPR":
-                from kd.model.kd_dscv import KD_DSCV_SPR
-                model = KD_DSCV_SPR(
+                from kd.model.kd_discover import KD_Discover_SPR
+                model = KD_Discover_SPR(
                     binary_operators=_parse_ops(dscv_binary),
                     unary_operators=_parse_ops(dscv_unary),
                     n_samples_per_batch=int(dscv_batch),
-- 
2.43.0


From 2572a9a3db45cf66e176a9313ee0759d0f1803f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:32 +0000
Subject: [PATCH 106/111] fix: the web app shows equations that are already
 wrapped in dollar signs

---
 app.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/app.py b/app.py
index c46ec68..32aee61 100644
--- a/app.py
+++ b/app.py
@@ -185,13 +185,15 @@ def _render_equation_fig(model, equation_text):
         return None
     fig, ax = plt.subplots(figsize=(8, 2))
     ax.axis("off")
+    # DLGA equations already come wrapped in "$...$"
+    label = ax.text(0.5, 0.5, f"${equation_text.strip('$')}$", fontsize=18,
+                    ha="center", va="center", transform=ax.transAxes)
     try:
-        ax.text(0.5, 0.5, f"${equation_text}$", fontsize=18,
-                ha="center", va="center", transform=ax.transAxes)
-    except Exception:
-        ax.text(0.5, 0.5, equation_text, fontsize=14,
-                ha="center", va="center", transform=ax.transAxes, family="monospace")
-    fig.tight_layout()
+        fig.tight_layout()  # the text is only parsed here
+    except ValueError:
+        label.set(text=equation_text, fontsize=14, family="monospace",
+                  parse_math=False)
+        fig.tight_layout()
     return fig
 
 
-- 
2.43.0


From 128d8e6bc68b42e1b69e7d7ee373d5d8f78c1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:32 +0000
Subject: [PATCH 107/111] fix: the offline runner keeps the orientation of a
 square .mat field

---
 kd/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/runner.py b/kd/runner.py
index 5555677..8deb709 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -51,7 +51,7 @@ def load_dataset(config):
             x = np.asarray(raw[file_config.get("x_key", "x")], dtype=float).flatten()
             t = np.asarray(raw[file_config.get("t_key", "t")], dtype=float).flatten()
             u = np.asarray(raw[file_config.get("u_key", "usol")])
-            if u.shape == (len(t), len(x)):
+            if u.shape != (len(x), len(t)) and u.shape == (len(t), len(x)):
                 u = u.T
             return PDEDataset(equation_name="uploaded", x=x, t=t, usol=u)
 
-- 
2.43.0


From 8a86c446062f551aeb4f8c6997fc09fbe659a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:32 +0000
Subject: [PATCH 108/111] fix: the offline runner reports a missing dataset
 file instead of using another dataset

---
 kd/runner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kd/runner.py b/kd/runner.py
index 8deb709..5d15017 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -40,7 +40,10 @@ def load_dataset(config):
     dataset_name = config.get("dataset_name")
     dataset_file = config.get("dataset_file")
 
-    if dataset_file and os.path.exists(dataset_file):
+    if dataset_file:
+        if not os.path.exists(dataset_file):
+            raise FileNotFoundError(f"Dataset file not found: {dataset_file}")
+
         from kd.dataset._base import PDEDataset, load_mat_file
 
         file_config = config.get("file_config", {})
-- 
2.43.0


From f770580f45141afe1dad7fe96f9a7940593423b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:32 +0000
Subject: [PATCH 109/111] fix: the offline runner's result names the dataset
 that was used

---
 kd/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/runner.py b/kd/runner.py
index 5d15017..5b97a7f 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -202,7 +202,7 @@ def main():
 
     output_dir = args.output_dir or config.get("output_dir", "output")
     params = config.get("params", {})
-    dataset_info = config.get("dataset_name") or config.get("dataset_file", "unknown")
+    dataset_info = config.get("dataset_file") or config.get("dataset_name", "unknown")
 
     print(f"=== KD GPU Runner ===")
     print(f"  Model   : {model_name}")
-- 
2.43.0


From 4b60e7f1438e358d27503142ab1ab80c8ada01b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:32 +0000
Subject: [PATCH 110/111] fix: the offline runner saves its images alongside
 result.json

---
 kd/runner.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kd/runner.py b/kd/runner.py
index 5b97a7f..adf4107 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -19,6 +19,7 @@ Config JSON format::
 import argparse
 import json
 import os
+import shutil
 import sys
 import time
 import traceback
@@ -173,6 +174,12 @@ def save_viz(output_dir, model):
                         dpi=150, bbox_inches="tight",
                     )
                     plt.close(vr.figure)
+                elif vr.paths and os.path.exists(vr.paths[0]):
+                    # Adapters save into a per-model subfolder
+                    shutil.copyfile(
+                        vr.paths[0],
+                        os.path.join(output_dir, f"{viz_type}.png"),
+                    )
             except Exception:
                 pass
 
-- 
2.43.0


From f8474aab9e8a47820af40695b3367e5bbff95838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:24 +0000
Subject: [PATCH 111/111] fix: configure(save_dir=None) goes back to the
 working directory

---
 kd/viz/_style.py | 9 ++++++---
 kd/viz/core.py   | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/kd/viz/_style.py b/kd/viz/_style.py
index 2e9dc11..12dd1ca 100644
--- a/kd/viz/_style.py
+++ b/kd/viz/_style.py
@@ -29,18 +29,21 @@ class VizConfig:
 
 _CONFIG = VizConfig()
 
+# Default of ``save_dir``: leave it alone (``None`` goes back to the working directory)
+KEEP: Any = object()
+
 
 def configure(
     *,
     style: Optional[Dict[str, Any]] = None,
-    save_dir: Union[str, Path, None] = None,
+    save_dir: Union[str, Path, None] = KEEP,
     backend: Optional[str] = None,
 ) -> VizConfig:
     if style is not None:
         _CONFIG.style = dict(DEFAULT_STYLE)
         _CONFIG.style.update(style)
-    if save_dir is not None:
-        _CONFIG.save_dir = Path(save_dir)
+    if save_dir is not KEEP:
+        _CONFIG.save_dir = None if save_dir is None else Path(save_dir)
     if backend is not None:
         matplotlib.use(backend, force=True)
         _CONFIG.backend = backend
diff --git a/kd/viz/core.py b/kd/viz/core.py
index 14514de..646ff06 100644
--- a/kd/viz/core.py
+++ b/kd/viz/core.py
@@ -17,7 +17,7 @@ from ._contracts import (
     TimeSliceComparisonData,
 )
 from ._helpers import resolve_output_path
-from ._style import VizConfig, configure as configure_style, get_config, style_context
+from ._style import KEEP, VizConfig, configure as configure_style, get_config, style_context
 
 
 @dataclass
@@ -57,7 +57,7 @@ class VizContext:
 def configure(
     *,
     style: Optional[Dict[str, Any]] = None,
-    save_dir: Union[str, Path, None] = None,
+    save_dir: Union[str, Path, None] = KEEP,
     backend: Optional[str] = None,
 ) -> VizConfig:
     return configure_style(style=style, save_dir=save_dir, backend=backend)
-- 
2.43.0

