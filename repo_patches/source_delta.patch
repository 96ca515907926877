From abad52ac325e4e32987a0288f76fb0e9502a8e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 01/23] fix: weight of the own inside surface in the rear
 temperature is 1 - temperature difference coefficient

It was rounded to one decimal, so for temperature difference coefficients such
as 0.15 or 0.05 the two weights of the rear temperature did not sum to 1.
---
 heat_load_calc/initializer/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index a6fc2ea..da8fd1e 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -639,7 +639,7 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
             # 温度差係数が1.0でない場合はk_ei_jsに値を代入する。
             # id は自分自身の境界IDとし、自分自身の表面の影響は1.0から温度差係数を減じた値になる。
             if bs.h_td < 1.0:
-                k_ei_js.append({'id': bs.id, 'coef': round(1.0 - bs.h_td, 1)})
+                k_ei_js.append({'id': bs.id, 'coef': 1.0 - bs.h_td})
             else:
                 # 温度差係数が1.0の場合はNoneとする。
                 k_ei_js.append(None)
-- 
2.43.0


From 34d88a304cff010f737d11b7d401e644290d570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 02/23] fix: radiative heat transfer coefficients stay with
 their boundary when boundaries are not grouped by room

The form factors were concatenated room by room, so they were attached to the
wrong boundaries unless the boundaries were listed in the order of the rooms.
---
 heat_load_calc/core/shape_factor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/core/shape_factor.py b/heat_load_calc/core/shape_factor.py
index a5b73f0..076e417 100644
--- a/heat_load_calc/core/shape_factor.py
+++ b/heat_load_calc/core/shape_factor.py
@@ -23,9 +23,11 @@ def get_h_r_js(a_srf_js: np.ndarray, p_js_is: np.ndarray) -> np.ndarray:
 
     # 微小点に対する境界jの形態係数
     # 永田先生の方法
-    f_js = np.concatenate([
-        _get_f_i_js(a_srf_js=a_srf_js.flatten()[p_js_is[:, i] == 1])
-        for i in range(n_spaces)])
+    # 境界は室ごとに並んでいるとは限らないため、室ごとに計算した値を元の境界の位置に戻す。
+    f_js = np.zeros(a_srf_js.size, dtype=float)
+    for i in range(n_spaces):
+        is_connected = p_js_is[:, i] == 1
+        f_js[is_connected] = _get_f_i_js(a_srf_js=a_srf_js.flatten()[is_connected])
 
     # 境界間の放射熱伝達率を決定する際、平均放射温度を20℃固定値であるとして計算する。
     t_mrt = 273.15 + 20.0
-- 
2.43.0


From 91701d37d1e5ca8f7135a7a5e8b9c24629e31d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 03/23] fix: read the maximum capacity of radiative cooling
 from the radiative equipment

---
 heat_load_calc/core/pre_calc_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index c76f653..ffb4a67 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -277,7 +277,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     for i, s in enumerate(ss):
         if s['equipment']['cooling']['radiative']['installed']:
             is_radiative_cooling_is_list.append(True)
-            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['max_capacity'])
+            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['radiative']['max_capacity'])
         else:
             is_radiative_cooling_is_list.append(False)
             radiative_cooling_max_capacity_is_list.append(0.0)
-- 
2.43.0


From 414048d67e7b6bcd065917e8b2909e4ca55b6dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 04/23] fix: rooms without convective cooling carry no
 convective cooling specification and are not dehumidified

---
 heat_load_calc/core/heat_exchanger.py      | 3 ++-
 heat_load_calc/core/pre_calc_parameters.py | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/heat_load_calc/core/heat_exchanger.py b/heat_load_calc/core/heat_exchanger.py
index 3b66479..d936bff 100644
--- a/heat_load_calc/core/heat_exchanger.py
+++ b/heat_load_calc/core/heat_exchanger.py
@@ -11,7 +11,8 @@ def get_dehumid_coeff(lcs_is_n, theta_r_is_npls, rac_spec, x_r_non_dh_is_n):
     # 以下の取り扱いを簡単にするため（冷房負荷を正とするため）、正負を反転させる
     qs_is_n = -lcs_is_n
 
-    dh = qs_is_n > 1.0e-3
+    # 対流冷房が設置されていない（風量が0の）室では除湿しない。
+    dh = (qs_is_n > 1.0e-3) & (rac_spec['v_max'] > 0.0)
 
     v_ac_is_n = np.zeros_like(lcs_is_n, dtype=float)
 
diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index ffb4a67..e2ec93f 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -287,10 +287,11 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     is_radiative_cooling_is = np.array(is_radiative_cooling_is_list)
     lr_cs_max_cap_is = np.array(radiative_cooling_max_capacity_is_list)
 
-    qmin_c_is = np.array([s['equipment']['cooling']['convective']['q_min'] for s in ss]).reshape(-1, 1)
-    qmax_c_is = np.array([s['equipment']['cooling']['convective']['q_max'] for s in ss]).reshape(-1, 1)
-    Vmin_is = np.array([s['equipment']['cooling']['convective']['v_min'] for s in ss]).reshape(-1, 1)
-    Vmax_is = np.array([s['equipment']['cooling']['convective']['v_max'] for s in ss]).reshape(-1, 1)
+    # 対流冷房が設置されていない室では仕様が与えられないため、能力・風量を 0.0 とする。
+    qmin_c_is = np.array([s['equipment']['cooling']['convective'].get('q_min', 0.0) for s in ss]).reshape(-1, 1)
+    qmax_c_is = np.array([s['equipment']['cooling']['convective'].get('q_max', 0.0) for s in ss]).reshape(-1, 1)
+    Vmin_is = np.array([s['equipment']['cooling']['convective'].get('v_min', 0.0) for s in ss]).reshape(-1, 1)
+    Vmax_is = np.array([s['equipment']['cooling']['convective'].get('v_max', 0.0) for s in ss]).reshape(-1, 1)
 
     # endregion
 
-- 
2.43.0


From 58599f439e440e7d71f2faf7739d03f942b52e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 05/23] fix: ground boundaries see the deep ground temperature
 behind the soil instead of 0 degree C

---
 heat_load_calc/core/conditions.py             | 18 +++++++++++++++---
 heat_load_calc/core/core.py                   |  2 +-
 heat_load_calc/core/pre_calc_parameters.py    |  8 ++++++++
 heat_load_calc/core/sequence_ground.py        |  1 +
 heat_load_calc/initializer/boundary_simple.py |  3 +++
 5 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/heat_load_calc/core/conditions.py b/heat_load_calc/core/conditions.py
index ff3238b..724c2c1 100644
--- a/heat_load_calc/core/conditions.py
+++ b/heat_load_calc/core/conditions.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from heat_load_calc.core.operation_mode import OperationMode
-from heat_load_calc.core.pre_calc_parameters import PreCalcParameters
+from heat_load_calc.core.pre_calc_parameters import PreCalcParameters, PreCalcParametersGround
 from heat_load_calc.external import psychrometrics as psy
 
 
@@ -59,11 +59,14 @@ class Conditions:
 
 class GroundConditions:
 
-    def __init__(self, theta_dsh_srf_a_js_ms_n, q_srf_js_n):
+    def __init__(self, theta_dsh_srf_a_js_ms_n, theta_dsh_srf_t_js_ms_n, q_srf_js_n):
 
         # ステップnの境界jにおける項別公比法の指数項mの吸熱応答の項別成分, degree C, [j, m] (m=12)
         self.theta_dsh_srf_a_js_ms_n = theta_dsh_srf_a_js_ms_n
 
+        # ステップnの境界jにおける項別公比法の指数項mの貫流応答の項別成分, degree C, [j, m] (m=12)
+        self.theta_dsh_srf_t_js_ms_n = theta_dsh_srf_t_js_ms_n
+
         # ステップnの境界jにおける表面熱流（壁体吸熱を正とする）, W/m2, [j, 1]
         self.q_srf_js_n = q_srf_js_n
 
@@ -126,18 +129,25 @@ def initialize_conditions(n_spaces: int, n_bdries: int):
     )
 
 
-def initialize_ground_conditions(n_grounds: int):
+def initialize_ground_conditions(ss: PreCalcParametersGround):
+
+    n_grounds = ss.n_grounds
 
     # ステップnの統合された境界j*における指数項mの吸熱応答の項別成分, degree C, [j*, 12]
     # 初期値を0.0℃とする。
     theta_dsh_srf_a_js_ms_n0 = np.full((n_grounds, 12), 0.0)
 
+    # ステップnの境界jにおける指数項mの貫流応答の項別成分, degree C, [j, 12]
+    # 裏面温度（深部温度）は一定であるため、定常状態の値とする。
+    theta_dsh_srf_t_js_ms_n0 = ss.phi_t1_js_ms * ss.theta_rear_js / (1.0 - ss.r_js_ms)
+
     # ステップnの境界jにおける表面熱流（壁体吸熱を正とする）, W/m2, [j, 1]
     # 初期値を0.0W/m2とする。
     q_srf_js_n0 = np.zeros((n_grounds, 1), dtype=float)
 
     return GroundConditions(
         theta_dsh_srf_a_js_ms_n=theta_dsh_srf_a_js_ms_n0,
+        theta_dsh_srf_t_js_ms_n=theta_dsh_srf_t_js_ms_n0,
         q_srf_js_n=q_srf_js_n0
     )
 
@@ -146,6 +156,8 @@ def update_conditions_by_ground_conditions(is_ground: np.array, c: Conditions, g
 
     c.theta_dsh_srf_a_js_ms_n[is_ground, :] = gc.theta_dsh_srf_a_js_ms_n
 
+    c.theta_dsh_srf_t_js_ms_n[is_ground, :] = gc.theta_dsh_srf_t_js_ms_n
+
     c.q_srf_js_n[is_ground, :] = gc.q_srf_js_n
 
     return c
diff --git a/heat_load_calc/core/core.py b/heat_load_calc/core/core.py
index 9c42906..49587be 100644
--- a/heat_load_calc/core/core.py
+++ b/heat_load_calc/core/core.py
@@ -57,7 +57,7 @@ def calc(
     # （ループ計算する必要の無い）事前計算を行い, クラス PreCalcParameters, PreCalcParametersGround に必要な変数を格納する。
     pp, ppg = pre_calc_parameters.make_pre_calc_parameters(delta_t=delta_t, data_directory=input_data_dir)
 
-    gc_n = conditions.initialize_ground_conditions(n_grounds=ppg.n_grounds)
+    gc_n = conditions.initialize_ground_conditions(ss=ppg)
 
     print('助走計算（土壌のみ）')
     for n in range(-n_step_run_up, -n_step_run_up_build):
diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index e2ec93f..cfa286d 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -199,6 +199,12 @@ class PreCalcParametersGround:
     # 地盤jの項別公比法における項mの吸熱応答係数の第一項 , m2K/W, [j, 12]
     phi_a1_js_ms: np.ndarray
 
+    # 地盤jの項別公比法における項mの貫流応答係数の第一項, [j, 12]
+    phi_t1_js_ms: np.ndarray
+
+    # 地盤jの裏面温度（深部温度）, degree C, [j, 1]
+    theta_rear_js: np.ndarray
+
     # 地盤jにおける室内側放射熱伝達率, W/m2K, [j, 1]
     h_r_js: np.ndarray
 
@@ -614,6 +620,8 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
         r_js_ms=r_js_ms[is_ground_js.flatten(), :],
         phi_a0_js=phi_a0_js[is_ground_js.flatten(), :],
         phi_a1_js_ms=phi_a1_js_ms[is_ground_js.flatten(), :],
+        phi_t1_js_ms=phi_t1_js_ms[is_ground_js.flatten(), :],
+        theta_rear_js=k_eo_js[is_ground_js.flatten(), :] * theta_o_ave,
         h_r_js=h_r_js[is_ground_js.flatten(), :],
         h_c_js=h_c_js[is_ground_js.flatten(), :],
         theta_o_ns=theta_o_ns,
diff --git a/heat_load_calc/core/sequence_ground.py b/heat_load_calc/core/sequence_ground.py
index 23da37f..c49e987 100644
--- a/heat_load_calc/core/sequence_ground.py
+++ b/heat_load_calc/core/sequence_ground.py
@@ -20,6 +20,7 @@ def run_tick(gc_n: GroundConditions, ss: PreCalcParametersGround, n: int):
 
     return GroundConditions(
         theta_dsh_srf_a_js_ms_n=theta_dsh_srf_a_js_ms_npls,
+        theta_dsh_srf_t_js_ms_n=gc_n.theta_dsh_srf_t_js_ms_n,
         q_srf_js_n=q_srf_js_n,
     )
 
diff --git a/heat_load_calc/initializer/boundary_simple.py b/heat_load_calc/initializer/boundary_simple.py
index 4d15b12..79166e6 100644
--- a/heat_load_calc/initializer/boundary_simple.py
+++ b/heat_load_calc/initializer/boundary_simple.py
@@ -110,6 +110,9 @@ def get_boundary_simple(theta_o_ns, i_dn_ns, i_sky_ns, r_n_ns, a_sun_ns, h_sun_n
     # 境界の種類が'external_general_part', 'external_transparent_part', 'external_opaque_part'の場合に定義される。
     if b['boundary_type'] in ['external_general_part', 'external_transparent_part', 'external_opaque_part']:
         h_td = float(b['temp_dif_coef'])
+    # 地盤の場合は裏面温度が深部温度そのものであるため、1.0 とする。
+    elif b['boundary_type'] == 'ground':
+        h_td = 1.0
     else:
         h_td = 0.0
 
-- 
2.43.0


From bb063cbc1ad0e800677bf78e8cd3fa205dcc92fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 06/23] fix: asking a wall for its response factors no longer
 adds layers to the wall

---
 heat_load_calc/initializer/response_factor.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/heat_load_calc/initializer/response_factor.py b/heat_load_calc/initializer/response_factor.py
index ecbbc83..e852d9d 100644
--- a/heat_load_calc/initializer/response_factor.py
+++ b/heat_load_calc/initializer/response_factor.py
@@ -400,12 +400,10 @@ class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
 
         is_ground = False
 
-        c = self._cs
-        c.append(0.0)
+        c = self._cs + [0.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(self._r_o)
+        r = self._rs + [self._r_o]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
@@ -433,12 +431,10 @@ class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
 
         is_ground = True
 
-        c = self._cs
-        c.append(3300.0 * 3.0)
+        c = self._cs + [3300.0 * 3.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(3.0 / 1.0)
+        r = self._rs + [3.0 / 1.0]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
-- 
2.43.0


From 331a8ae33406bfc1f0acb75acadd7792035d825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 07/23] fix: sunshades survive a round trip through their
 dictionary form

---
 heat_load_calc/convert/factor_f.py | 48 ++++++++++++++----------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/heat_load_calc/convert/factor_f.py b/heat_load_calc/convert/factor_f.py
index 13b25ac..10dcbdf 100644
--- a/heat_load_calc/convert/factor_f.py
+++ b/heat_load_calc/convert/factor_f.py
@@ -241,18 +241,16 @@ class SunshadeOpaqueInput(SunshadeOpaque):
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
@@ -293,11 +291,11 @@ class SunshadeTransient:
             if d['input'] == 'not_input':
                 return SunshadeTransientNotInput()
             elif d['input'] == 'not_exist':
-                raise SunshadeTransientNotExist()
+                return SunshadeTransientNotExist()
             elif d['input'] == 'simple':
                 return SunshadeTransientExistSimple(depth=d['depth'], d_h=d['d_h'], d_e=d['d_e'])
             elif d['input'] == 'complex':
-                raise SunshadeTransientExistDetail(
+                return SunshadeTransientExistDetail(
                     x1=d['x1'],
                     x2=d['x2'],
                     x3=d['x3'],
@@ -526,18 +524,16 @@ class SunshadeTransientExistDetail(SunshadeTransient):
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
-- 
2.43.0


From f717a8819cf79919eaa9e8b7a65157340bcfa0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 08/23] fix: boundary floors and ceilings of attached houses
 get their own U value

---
 .../convert/get_u_psi_eta_from_u_a_and_eta_a.py        | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 521ab5e..eabdb84 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -41,7 +41,9 @@ def get_u_psi(u_psi: PartType, key: str) -> float:
         'floor': u_psi.floor,
         'boundary_ceiling': u_psi.boundary_ceiling,
         'boundary_wall': u_psi.boundary_wall,
-        'boundary_floor': u_psi.boundary_wall,
+        'boundary_floor': u_psi.boundary_floor,
+        'upward_boundary_floor': u_psi.boundary_ceiling,
+        'downward_boundary_floor': u_psi.boundary_floor,
         'window': u_psi.window,
         'door': u_psi.door,
         'earthfloor_perimeter': u_psi.earthfloor_perimeter,
@@ -192,13 +194,15 @@ def get_m_opq(
         不透明部位のm値の合計, W/K （暖房期・冷房期）
     """
 
+    u_psi = PartType(**u_psi_value)
+
     m_opq_h_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='heating')
+        s.area * 0.034 * get_u_psi(u_psi, s.general_part_type.value) * s.get_nu(region=region, season='heating')
         for s in gps
     ])
 
     m_opq_c_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='cooling')
+        s.area * 0.034 * get_u_psi(u_psi, s.general_part_type.value) * s.get_nu(region=region, season='cooling')
         for s in gps
     ])
 
-- 
2.43.0


From 42232b57b1913e9eab9f65149e48d00beef5b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 09/23] fix: windows that do not face outdoors gain no solar
 heat instead of raising an error

---
 heat_load_calc/convert/ees_house.py                  | 12 ++++++++----
 .../convert/get_u_psi_eta_from_u_a_and_eta_a.py      |  3 +++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/heat_load_calc/convert/ees_house.py b/heat_load_calc/convert/ees_house.py
index b94fd24..7fbc5a7 100644
--- a/heat_load_calc/convert/ees_house.py
+++ b/heat_load_calc/convert/ees_house.py
@@ -1696,10 +1696,14 @@ class Window(WindowNoSpec, IGetQ, IGetM):
         return self._window_spec.get_eta_d(season=season)
 
     def get_m(self, region: int, season: str) -> float:
-        return self.get_eta_d(season=season) \
-               * self.area \
-               * self.sunshade.get_f(region=region, season=season, direction=self.direction) \
-               * self.get_nu(region=region, season=season)
+
+        if self.next_space == NextSpace.OUTDOOR:
+            return self.get_eta_d(season=season) \
+                   * self.area \
+                   * self.sunshade.get_f(region=region, season=season, direction=self.direction) \
+                   * self.get_nu(region=region, season=season)
+        else:
+            return 0.0
 
     def get_as_dict(self):
 
diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index eabdb84..74960ea 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -231,6 +231,9 @@ def get_eta_d_each(
         η_d,h・η_d,c 値, (W/m2)/(W/m2)
     """
 
+    # 外気に面さない窓には日射があたらない（日よけも定義されない）ため、外気に面する窓のみを対象とする。
+    ws = [s for s in ws if s.next_space == NextSpace.OUTDOOR]
+
     sum_a_f_nu_h = sum(
         s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws
     )
-- 
2.43.0


From 07c873acfcbe7bfab8d62d015cab85b9d94c8a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 10/23] fix: windows name their room by the key the initializer
 reads

---
 heat_load_calc/convert/ees_house.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/convert/ees_house.py b/heat_load_calc/convert/ees_house.py
index 7fbc5a7..e957d95 100644
--- a/heat_load_calc/convert/ees_house.py
+++ b/heat_load_calc/convert/ees_house.py
@@ -1724,7 +1724,7 @@ class Window(WindowNoSpec, IGetQ, IGetM):
         # TODO: 下記の表面熱伝達抵抗や長波長放射率についてはきちんと整理しないといけない。
         d = {
             'name': self.name,
-            'connected_id': self.space_type.get_connected_id(),
+            'connected_room_id': self.space_type.get_connected_id(),
             'boundary_type': 'external_transparent_part',
             'area': self.area,
             'is_sun_striked_outside': is_sun_striked_outside,
-- 
2.43.0


From 9114892eee16e13916b8d426f719c4447965d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 11/23] fix: rounding in the floor areas no longer makes the
 inner wall area complex

---
 heat_load_calc/convert/convert_lv3_to_lv4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/convert/convert_lv3_to_lv4.py b/heat_load_calc/convert/convert_lv3_to_lv4.py
index a797509..c6c2af6 100644
--- a/heat_load_calc/convert/convert_lv3_to_lv4.py
+++ b/heat_load_calc/convert/convert_lv3_to_lv4.py
@@ -289,7 +289,7 @@ def get_inner_wall_total_area(a_mr, a_or, a_a, a_evlp_hzt_mr, a_evlp_hzt_or, a_e
 
     a_iw_mr = max(0.0, 4 * r_iw_mr * h_iw * a_mr ** 0.5 - a_evlp_hzt_mr)
     a_iw_or = max(0.0, 4 * r_iw_or * h_iw * a_or ** 0.5 - a_evlp_hzt_or)
-    a_iw_nr = max(0.0, 4 * r_iw_nr * h_iw * (a_a - a_mr - a_or) ** 0.5 - a_evlp_hzt_nr)
+    a_iw_nr = max(0.0, 4 * r_iw_nr * h_iw * max(0.0, a_a - a_mr - a_or) ** 0.5 - a_evlp_hzt_nr)
 
     return a_iw_mr, a_iw_or, a_iw_nr
 
-- 
2.43.0


From 6aa7a3089652a322a2fff2ebe92ebb863374d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 12/23] fix: indices can be converted in region 8, which has no
 heating season

---
 .../get_u_psi_eta_from_u_a_and_eta_a.py       | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 74960ea..ea4342e 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -196,7 +196,8 @@ def get_m_opq(
 
     u_psi = PartType(**u_psi_value)
 
-    m_opq_h_general_part = sum([
+    # 8地域は暖房期間が定義されない。
+    m_opq_h_general_part = None if region == 8 else sum([
         s.area * 0.034 * get_u_psi(u_psi, s.general_part_type.value) * s.get_nu(region=region, season='heating')
         for s in gps
     ])
@@ -206,11 +207,11 @@ def get_m_opq(
         for s in gps
     ])
 
-    m_opq_h_door = sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='heating') for s in ds])
+    m_opq_h_door = None if region == 8 else sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='heating') for s in ds])
 
     m_opq_c_door = sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='cooling') for s in ds])
 
-    m_opq_h = m_opq_h_general_part + m_opq_h_door
+    m_opq_h = None if region == 8 else m_opq_h_general_part + m_opq_h_door
     m_opq_c = m_opq_c_general_part + m_opq_c_door
 
     return m_opq_h, m_opq_c
@@ -234,17 +235,22 @@ def get_eta_d_each(
     # 外気に面さない窓には日射があたらない（日よけも定義されない）ため、外気に面する窓のみを対象とする。
     ws = [s for s in ws if s.next_space == NextSpace.OUTDOOR]
 
-    sum_a_f_nu_h = sum(
-        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws
-    )
-
     sum_a_f_nu_c = sum(
         s.area * s.get_f(region=region, season='cooling') * s.get_nu(region=region, season='cooling') for s in ws
     )
 
-    eta_d_h = np.clip((m_h - m_h_opq) / sum_a_f_nu_h, 0.0, 0.88)
     eta_d_c = np.clip((m_c - m_c_opq) / sum_a_f_nu_c, 0.0, 0.88)
 
+    # 8地域は暖房期間が定義されないため、冷房期の値を用いる。
+    if region == 8:
+        return float(eta_d_c), float(eta_d_c)
+
+    sum_a_f_nu_h = sum(
+        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws
+    )
+
+    eta_d_h = np.clip((m_h - m_h_opq) / sum_a_f_nu_h, 0.0, 0.88)
+
     return float(eta_d_h), float(eta_d_c)
 
 
@@ -299,7 +305,8 @@ def calc_parts_spec(
     q = _get_q(a_evp_total=a_evp_total, u_a=u_a_target)
 
     # m値, W/(W/m2)
-    m_h = _get_m_h(a_evp_total=a_evp_total, eta_a_h=eta_a_h_target)
+    # （8地域は暖房期間が定義されない。）
+    m_h = None if region == 8 else _get_m_h(a_evp_total=a_evp_total, eta_a_h=eta_a_h_target)
     m_c = _get_m_c(a_evp_total=a_evp_total, eta_a_c=eta_a_c_target)
 
     # 各部位の基準U値・ψ値に対するq値, W/K
-- 
2.43.0


From 20aa04cc4ffac0feb05188a4685d69d86a3f6eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 13/23] fix: radiative capacity also holds in rooms that reach
 it only after a neighbour was limited

---
 heat_load_calc/core/next_condition.py | 38 +++++++++++++++------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/heat_load_calc/core/next_condition.py b/heat_load_calc/core/next_condition.py
index 7e03e23..697d363 100644
--- a/heat_load_calc/core/next_condition.py
+++ b/heat_load_calc/core/next_condition.py
@@ -103,29 +103,33 @@ def calc_next_temp_and_load(
     # lr 放射空調負荷, W, [i, 1]
     theta, lc, lr = get_load_and_temp(kt, kc, kr, k, nt, theta_set, c, lc_set, r, lr_set)
 
-    # 計算された放射空調負荷が最大放熱量を上回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
-    over_lr = lr > lr_h_max_cap_is
+    # ある室の放射空調負荷を最大放熱量に固定すると隣室の負荷が変わるため、最大放熱量を超える室がなくなるまで再計算を繰り返す。
+    # 固定した室の放射空調負荷は最大放熱量に等しいため、繰り返しの回数は室の数を超えない。
+    for _ in range(n_room):
 
-    # 対流負荷を未知数とする。
-    c[over_lr] = 1
+        # 計算された放射空調負荷が最大放熱量を上回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
+        over_lr = lr > lr_h_max_cap_is
 
-    # 放射負荷を最大放熱量に指定する。
-    r[over_lr] = 0
-    lr_set[over_lr] = lr_h_max_cap_is[over_lr]
+        # 対流負荷を未知数とする。
+        c[over_lr] = 1
 
-    # 計算された放射空調負荷が最大放熱量を下回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
-    # 注意：冷房の最大放熱量は正の値で指定される。一方、計算される負荷（lr）は、冷房の場合、負の値で指定される。
-    under_lr = lr < -lr_cs_max_cap_is
+        # 放射負荷を最大放熱量に指定する。
+        r[over_lr] = 0
+        lr_set[over_lr] = lr_h_max_cap_is[over_lr]
 
-    # 対流負荷を未知数とする。
-    c[under_lr] = 1
+        # 計算された放射空調負荷が最大放熱量を下回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
+        # 注意：冷房の最大放熱量は正の値で指定される。一方、計算される負荷（lr）は、冷房の場合、負の値で指定される。
+        under_lr = lr < -lr_cs_max_cap_is
 
-    # 放射負荷を最大放熱量に指定する。
-    r[under_lr] = 0
-    lr_set[under_lr] = -lr_cs_max_cap_is[under_lr]
+        # 対流負荷を未知数とする。
+        c[under_lr] = 1
 
-    # 放射暖房を最大放熱量に指定して再計算する。
-    theta, lc, lr = get_load_and_temp(kt, kc, kr, k, nt, theta_set, c, lc_set, r, lr_set)
+        # 放射負荷を最大放熱量に指定する。
+        r[under_lr] = 0
+        lr_set[under_lr] = -lr_cs_max_cap_is[under_lr]
+
+        # 放射暖房を最大放熱量に指定して再計算する。
+        theta, lc, lr = get_load_and_temp(kt, kc, kr, k, nt, theta_set, c, lc_set, r, lr_set)
 
     return theta, lc, lr
 
-- 
2.43.0


From 853e4cb367dc66b32cb6f1e54dc8dca3492053d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 14/23] fix: sun exactly in front of a surface no longer makes
 its radiation undefined

---
 heat_load_calc/initializer/inclined_surface_solar_radiation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/inclined_surface_solar_radiation.py b/heat_load_calc/initializer/inclined_surface_solar_radiation.py
index 8593111..83a67af 100644
--- a/heat_load_calc/initializer/inclined_surface_solar_radiation.py
+++ b/heat_load_calc/initializer/inclined_surface_solar_radiation.py
@@ -109,7 +109,8 @@ def get_theta_aoi_j_n(
     )
 
     # cos がマイナスの場合は入射角が90°～270°、つまり傾斜面の裏面に太陽が位置していることになるため、ゼロにする。
-    cos_theta_aoi_j_n = np.clip(cos_theta_aoi_j_n, 0.0, None)
+    # 太陽が傾斜面の正面にあるとき丸め誤差により 1.0 をわずかに超えることがあるため、1.0 を上限とする。
+    cos_theta_aoi_j_n = np.clip(cos_theta_aoi_j_n, 0.0, 1.0)
 
     # cos から radian に変換する。
     theta_aoi_j_n = np.arccos(cos_theta_aoi_j_n)
-- 
2.43.0


From 030ce9009d62fe1330262b224101a49ad5879698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 15/23] fix: rooms whose volumes are whole numbers can be
 initialized

---
 heat_load_calc/initializer/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index da8fd1e..293f831 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -344,7 +344,7 @@ def _make_spaces_dict(rooms: List[dict]):
     check_not_specifying_multi_room_type(room_type_is=room_type_is, specified_type=RoomType.UNDERFLOOR)
 
     # 室iの気積, m3, [i]
-    v_room_cap_is = np.array([r['volume'] for r in rooms])
+    v_room_cap_is = np.array([r['volume'] for r in rooms], dtype=float)
 
     # 室iの外気からの機械換気量, m3/h, [i]
     v_vent_ex_is = np.array([r['vent'] for r in rooms])
-- 
2.43.0


From 679e703081734372449d644d2f79b90ba899643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 16/23] fix: surfaces of rooms without a floor absorb no
 radiant floor heat instead of an undefined share

---
 .../initializer/a12_indoor_radiative_heat_transfer.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py b/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py
index bde5c82..0c2822a 100644
--- a/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py
+++ b/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py
@@ -19,7 +19,9 @@ def get_flr_i_js(area_i_js: np.ndarray, is_radiative_heating: bool, is_floor_i_j
 
     a_floor_i = np.sum(area_i_js[is_floor_i_js])
 
-    flr_i_js = area_i_js / a_floor_i * is_radiative_heating * is_floor_i_js
+    # 床のない室では床面積が0となるため、床のみを計算の対象とする。
+    flr_i_js = np.zeros(len(area_i_js), dtype=float)
+    flr_i_js[is_floor_i_js] = area_i_js[is_floor_i_js] / a_floor_i * is_radiative_heating
 
     return flr_i_js
 
-- 
2.43.0


From afaf36d686f258b77261c56faac59eed3c7f6805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 17/23] fix: form factors of the occupants sum to one in rooms
 without floor or with nothing but floor

---
 heat_load_calc/initializer/occupants_form_factor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/occupants_form_factor.py b/heat_load_calc/initializer/occupants_form_factor.py
index 2410143..4e27472 100644
--- a/heat_load_calc/initializer/occupants_form_factor.py
+++ b/heat_load_calc/initializer/occupants_form_factor.py
@@ -27,6 +27,7 @@ def get_f_mrt_hum_is(a_bdry_i_js: np.ndarray, is_floor_bdry_i_js: np.ndarray) ->
     f2 = np.logical_not(is_floor_bdry_i_js)
     f_mrt_hum_i_js[f2] = a_bdry_i_js[f2] / np.sum(a_bdry_i_js[f2]) * (1.0 - f_mrt_hum_floor)
 
-    return f_mrt_hum_i_js
+    # 床のみ又は床以外のみからなる室においても合計を 1.0 とする。
+    return f_mrt_hum_i_js / np.sum(f_mrt_hum_i_js)
 
 
-- 
2.43.0


From 5e5392e7589016308f06f19701dd41966b397719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 18/23] fix: radiative cooling acts on the floor also in rooms
 without radiative heating

---
 heat_load_calc/initializer/initializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index 293f831..9158f3f 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -662,7 +662,10 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
 
     # 暖房設備仕様の読み込み
     # 放射暖房有無（Trueなら放射暖房あり）
-    is_radiative_heating_is = [a22.read_is_radiative_heating(room) for room in rooms]
+    # 放射冷房も同じ部位で吸熱するものとする。（吸熱部位がない場合、放射冷房の処理熱量がどの表面にも作用しない。）
+    is_radiative_heating_is = [
+        a22.read_is_radiative_heating(room) or a22.read_is_radiative_cooling(room) for room in rooms
+    ]
 
     # 放射暖房の発熱部位の設定（とりあえず床発熱） 表7
     # TODO: 発熱部位を指定して、面積按分するように変更すべき。
-- 
2.43.0


From ee2ca60b3edadbc22f3a5ad113ca5b716e0b69e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 19/23] fix: rooms without surfaces that absorb the sun can be
 simulated

---
 heat_load_calc/core/pre_calc_parameters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index cfa286d..e76237f 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -488,7 +488,10 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     a_srf_abs_is = np.dot(p_is_js, a_srf_js * is_solar_abs_js)
 
     # ステップnの境界jにおける透過日射吸収熱量, W/m2, [j, n]
-    q_sol_js_ns = np.dot(p_js_is, q_trs_sol_is_ns / a_srf_abs_is)\
+    # 日射を吸収する境界のない室では面積の合計が0となるため、透過日射がある場合にのみ面積で除する。
+    q_srf_abs_is_ns = np.zeros_like(q_trs_sol_is_ns, dtype=float)
+    np.divide(q_trs_sol_is_ns, a_srf_abs_is, out=q_srf_abs_is_ns, where=q_trs_sol_is_ns != 0.0)
+    q_sol_js_ns = np.dot(p_js_is, q_srf_abs_is_ns)\
         * is_solar_abs_js * (1.0 - r_sol_fnt)
 
     # ステップnの境界jにおける外気側等価温度の外乱成分, ℃, [j, n]
-- 
2.43.0


From 9193b009e93fec88c1795f320bcce6e07430a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 20/23] fix: saturated vapour pressure of whole number
 temperatures was truncated to whole numbers

---
 heat_load_calc/external/psychrometrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/external/psychrometrics.py b/heat_load_calc/external/psychrometrics.py
index 26fd52d..9ba3685 100644
--- a/heat_load_calc/external/psychrometrics.py
+++ b/heat_load_calc/external/psychrometrics.py
@@ -122,7 +122,7 @@ def get_p_vs_is2(theta: np.ndarray) -> np.ndarray:
     b_4 = -0.000013198825
     b_5 = -0.49382577
 
-    p_vs_is = np.zeros_like(theta)
+    p_vs_is = np.zeros_like(theta, dtype=float)
 
     p_vs_is[theta >= 0.0] = np.exp(a_1 / t[theta >= 0.0] + a_2 + a_3 * t[theta >= 0.0] + a_4 * t[theta >= 0.0] ** 2 + a_5 * np.log(t[theta >= 0.0]))
     p_vs_is[theta < 0.0] = np.exp(b_1 / t[theta < 0.0] + b_2 + b_3 * t[theta < 0.0] + b_4 * t[theta < 0.0] ** 2 + b_5 * np.log(t[theta < 0.0]))
-- 
2.43.0


From 329278647c39f61d89656906692f8c3d070d24ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 21/23] fix: radiation of the inner surface of a glazing uses
 the emissivity of the inner surface

---
 notebook/initializer/shgc_window/glass_thermal_balance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notebook/initializer/shgc_window/glass_thermal_balance.py b/notebook/initializer/shgc_window/glass_thermal_balance.py
index 7d3fe69..8aac9d5 100644
--- a/notebook/initializer/shgc_window/glass_thermal_balance.py
+++ b/notebook/initializer/shgc_window/glass_thermal_balance.py
@@ -777,7 +777,7 @@ class Glass:
         if surface_method == 'JIS_A2103':
             t_s = theta_s + ABSOLUTE_ZERO
             t_r_i = theta_r_i + ABSOLUTE_ZERO
-            h_r = self._gls[0].sff.eps * get_sigma() * (t_s ** 3 + t_s ** 2 * t_r_i + t_s * t_r_i ** 2 + t_r_i ** 3)
+            h_r = self._gls[-1].sfb.eps * get_sigma() * (t_s ** 3 + t_s ** 2 * t_r_i + t_s * t_r_i ** 2 + t_r_i ** 3)
             h_c = {
                 'summer': 2.5,
                 'winter': 3.6
-- 
2.43.0


From f51e542a76f0e00ed5284986e0c829ff26ac6e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:01 +0000
Subject: [PATCH 22/23] fix: label the rows of the results with the calculation
 interval that was asked for (n_step_hourly)

---
 heat_load_calc/core/core.py | 5 +++--
 heat_load_calc/core/log.py  | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/heat_load_calc/core/core.py b/heat_load_calc/core/core.py
index 49587be..9376803 100644
--- a/heat_load_calc/core/core.py
+++ b/heat_load_calc/core/core.py
@@ -91,7 +91,7 @@ def calc(
     print('ログ作成')
 
     # ds: data simple, 1時間間隔で主要なパラメータのみを抽出した pd.DataFrame
-    # dd: data detail, 15分間隔のすべてのパラメータ pd.DataFrame
+    # dd: data detail, 計算間隔（n_step_hourly=4 なら15分間隔）のすべてのパラメータ pd.DataFrame
     ds, dd = log.record(
         pps=pp,
         logger=logger,
@@ -99,7 +99,8 @@ def calc(
         show_simple_result=show_simple_result,
         show_detail_result=show_detail_result,
         n_step_main=n_step_main,
-        n_d_main=n_d_main
+        n_d_main=n_d_main,
+        n_step_hourly=n_step_hourly
     )
 
     return ds, dd
diff --git a/heat_load_calc/core/log.py b/heat_load_calc/core/log.py
index acc4839..0175fb3 100644
--- a/heat_load_calc/core/log.py
+++ b/heat_load_calc/core/log.py
@@ -152,11 +152,12 @@ class Logger:
         self.q_l_frt = ss.g_lh_frt_is * (self.x_r - self.x_frt)
 
 
-def record(pps: PreCalcParameters, logger: Logger, output_data_dir: str, show_simple_result: bool, show_detail_result: bool, n_step_main: int, n_d_main: int):
+def record(pps: PreCalcParameters, logger: Logger, output_data_dir: str, show_simple_result: bool, show_detail_result: bool, n_step_main: int, n_d_main: int, n_step_hourly: int = 4):
 
-    date_index_15min = pd.date_range(start='1/1/1989', periods=n_step_main, freq='15min')
+    # 計算間隔（1時間を n_step_hourly 分割）ごとの日時
+    date_index_step = pd.date_range(start='1/1/1989', periods=n_step_main, freq=pd.Timedelta(hours=1) / n_step_hourly)
 
-    dd = pd.DataFrame(index=date_index_15min)
+    dd = pd.DataFrame(index=date_index_step)
 
     dd['out_temp'] = logger.theta_o_ns[0:n_step_main]
     dd['out_abs_humid'] = logger.x_o_ns[0:n_step_main]
-- 
2.43.0


From 2a6001e065d56bb140485fba8c4b1d3324fc954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:08 +0000
Subject: [PATCH 23/23] fix: response factors of layers are for the calculation
 interval that was asked for, not always 900 s

---
 heat_load_calc/core/pre_calc_parameters.py    |  6 ++--
 heat_load_calc/initializer/response_factor.py | 29 ++++++++++++-------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index e76237f..d759880 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -326,7 +326,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     a_srf_js = np.array([b['area'] for b in bs]).reshape(-1, 1)
 
     # 応答係数を取得する。
-    phi_a0_js, phi_a1_js_ms, phi_t0_js, phi_t1_js_ms, r_js_ms = _get_responsfactors(bs)
+    phi_a0_js, phi_a1_js_ms, phi_t0_js, phi_t1_js_ms, r_js_ms = _get_responsfactors(bs, delta_t=delta_t)
 
     # 境界jの室内側表面対流熱伝達率, W/m2K, [j, 1]
     h_c_js = np.array([b['h_c'] for b in bs]).reshape(-1, 1)
@@ -634,7 +634,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     return pre_calc_parameters, pre_calc_parameters_ground
 
 
-def _get_responsfactors(bs):
+def _get_responsfactors(bs, delta_t: float = 900.0):
 
     # 境界jの吸熱応答係数の初項, m2K/W, [j, 1]
     phi_a0_js = []
@@ -648,7 +648,7 @@ def _get_responsfactors(bs):
     r_js_ms = []
 
     for b in bs:
-        rff = response_factor.ResponseFactorFactory.create(spec=b['spec'])
+        rff = response_factor.ResponseFactorFactory.create(spec=b['spec'], delta_t=delta_t)
         rf = rff.get_response_factors()
         phi_a0_js.append(rf.rfa0)
         phi_a1_js_ms.append(rf.rfa1)
diff --git a/heat_load_calc/initializer/response_factor.py b/heat_load_calc/initializer/response_factor.py
index e852d9d..aeecd31 100644
--- a/heat_load_calc/initializer/response_factor.py
+++ b/heat_load_calc/initializer/response_factor.py
@@ -229,13 +229,13 @@ def get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps: List[float], alp: List[float],
 
 
 # 二等辺三角波励振の応答係数、指数項別応答係数、公比の計算
-def get_RFTRI(alp, AT0, AA0, AT, AA, M):
+def get_RFTRI(alp, AT0, AA0, AT, AA, M, delta_t=900.0):
     # 二等辺三角波励振の応答係数の配列を初期化
     dblRFT = np.zeros(M)
     dblRFA = np.zeros(M)
 
     # 二等辺三角波励振の応答係数の初項を計算
-    dblTemp = np.array(alp) * 900
+    dblTemp = np.array(alp) * delta_t
     dblE1 = (1.0 - np.exp(-dblTemp)) / dblTemp
     dblRFT[0] = AT0 + np.sum(dblE1 * AT)
     dblRFA[0] = AA0 + np.sum(dblE1 * AA)
@@ -263,7 +263,7 @@ def get_RFTRI(alp, AT0, AA0, AT, AA, M):
 
 
 # 応答係数
-def calc_response_factor(is_ground: bool, C_i_k_p, R_i_k_p):
+def calc_response_factor(is_ground: bool, C_i_k_p, R_i_k_p, delta_t: float = 900.0):
     """
     VBAからの主な変更点：
     (1)二次元配列（objArray）で壁体の情報を受け取っていたが、壁体情報クラスで受け取るように変更
@@ -273,6 +273,7 @@ def calc_response_factor(is_ground: bool, C_i_k_p, R_i_k_p):
     :param WallType: 壁体種類, 'wall' or 'soil'
     :param DTime: 計算時間間隔[s]
     :param wall: 壁体基本情報クラス
+    :param delta_t: 計算時間間隔, s
     """
 
     NcalTime = 50  # 応答係数を作成する時間数[h]
@@ -288,7 +289,7 @@ def calc_response_factor(is_ground: bool, C_i_k_p, R_i_k_p):
     AT0, AA0, AT, AA, ATstep, AAstep = get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps, alpha_m, M)
 
     # 二等辺三角波励振の応答係数、指数項別応答係数、公比の計算
-    RFT, RFA, RFT1, RFA1, Row = get_RFTRI(alpha_m, AT0, AA0, AT, AA, M)
+    RFT, RFA, RFT1, RFA1, Row = get_RFTRI(alpha_m, AT0, AA0, AT, AA, M, delta_t)
 
     RFT0 = RFT[0]  # 貫流応答係数の初項
     RFA0 = RFA[0]  # 吸熱応答係数の初項
@@ -310,7 +311,7 @@ class ResponseFactorFactory:
         pass
 
     @classmethod
-    def create(cls, spec: Dict):
+    def create(cls, spec: Dict, delta_t: float = 900.0):
 
         if spec['method'] == 'response_factor':
 
@@ -331,7 +332,8 @@ class ResponseFactorFactory:
                 return ResponseFactorFactoryTransientEnvelope(
                     cs=[float(layer['thermal_capacity']) for layer in layers],
                     rs=[float(layer['thermal_resistance']) for layer in layers],
-                    r_o=float(spec['outside_heat_transfer_resistance'])
+                    r_o=float(spec['outside_heat_transfer_resistance']),
+                    delta_t=delta_t
                 )
 
             elif spec['boundary_type'] == 'ground':
@@ -340,7 +342,8 @@ class ResponseFactorFactory:
 
                 return ResponseFactorFactoryTransientGround(
                     cs=[float(layer['thermal_capacity']) for layer in layers],
-                    rs=[float(layer['thermal_resistance']) for layer in layers]
+                    rs=[float(layer['thermal_resistance']) for layer in layers],
+                    delta_t=delta_t
                 )
 
             elif spec['boundary_type'] in ['external_transparent_part', 'external_opaque_part']:
@@ -382,19 +385,21 @@ class ResponseFactorFactoryDirect(ResponseFactorFactory):
 
 class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
 
-    def __init__(self, cs: List[float], rs: List[float], r_o: float):
+    def __init__(self, cs: List[float], rs: List[float], r_o: float, delta_t: float = 900.0):
         """
 
         Args:
             cs: 熱容量, kJ/m2K, [layer数]
             rs: 熱抵抗, m2K/W, [layer数]
             r_o: 室外側熱伝達抵抗, m2K/W
+            delta_t: 計算時間間隔, s
         """
 
         super().__init__()
         self._cs = cs
         self._rs = rs
         self._r_o = r_o
+        self._delta_t = delta_t
 
     def get_response_factors(self) -> ResponseFactor:
 
@@ -408,24 +413,26 @@ class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
 
         # 応答係数
         _RFT0, _RFA0, _RFT1, _RFA1, _Row, _n_root_i_js = \
-            calc_response_factor(is_ground, c_layer_i_k_l, r_layer_i_k_l)
+            calc_response_factor(is_ground, c_layer_i_k_l, r_layer_i_k_l, self._delta_t)
 
         return ResponseFactor(rft0=_RFT0, rfa0=_RFA0, rft1=_RFT1, rfa1=_RFA1, row=_Row, n_root=_n_root_i_js)
 
 
 class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
 
-    def __init__(self, cs: List[float], rs: List[float]):
+    def __init__(self, cs: List[float], rs: List[float], delta_t: float = 900.0):
         """
 
         Args:
             cs: 熱容量, kJ/m2K, [layer数]
             rs: 熱抵抗, m2K/W, [layer数]
+            delta_t: 計算時間間隔, s
         """
 
         super().__init__()
         self._cs = cs
         self._rs = rs
+        self._delta_t = delta_t
 
     def get_response_factors(self) -> ResponseFactor:
 
@@ -439,7 +446,7 @@ class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
 
         # 応答係数
         _RFT0, _RFA0, _RFT1, _RFA1, _Row, _n_root_i_js = \
-            calc_response_factor(is_ground, c_layer_i_k_l, r_layer_i_k_l)
+            calc_response_factor(is_ground, c_layer_i_k_l, r_layer_i_k_l, self._delta_t)
 
         return ResponseFactor(rft0=_RFT0, rfa0=_RFA0, rft1=_RFT1, rfa1=_RFA1, row=_Row, n_root=_n_root_i_js)
 
-- 
2.43.0

