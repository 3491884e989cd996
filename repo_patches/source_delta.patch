From 3a7471b6f8852a076f177caec30e3e926c864483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 01/12] fix: do not round the share of the room side in the
 rear temperature of a boundary

round(1.0 - h_td, 1) turned the temperature difference coefficients 0.05 and 0.15
into shares which do not sum to one with k_outside.
---
 heat_load_calc/initializer/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index a6fc2ea..da8fd1e 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -639,7 +639,7 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
             # 温度差係数が1.0でない場合はk_ei_jsに値を代入する。
             # id は自分自身の境界IDとし、自分自身の表面の影響は1.0から温度差係数を減じた値になる。
             if bs.h_td < 1.0:
-                k_ei_js.append({'id': bs.id, 'coef': round(1.0 - bs.h_td, 1)})
+                k_ei_js.append({'id': bs.id, 'coef': 1.0 - bs.h_td})
             else:
                 # 温度差係数が1.0の場合はNoneとする。
                 k_ei_js.append(None)
-- 
2.43.0


From 4a75b0520a5357dc06b517be3dfe657d34e352e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 02/12] fix: let a ground boundary see the temperature behind
 the ground

k_outside was 0.0 for ground boundaries, so the annual mean outdoor temperature
prepared for them was multiplied by zero and the ground was taken as 0 degree C.
---
 heat_load_calc/initializer/boundary_simple.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heat_load_calc/initializer/boundary_simple.py b/heat_load_calc/initializer/boundary_simple.py
index 4d15b12..51d392c 100644
--- a/heat_load_calc/initializer/boundary_simple.py
+++ b/heat_load_calc/initializer/boundary_simple.py
@@ -108,8 +108,11 @@ def get_boundary_simple(theta_o_ns, i_dn_ns, i_sky_ns, r_n_ns, a_sun_ns, h_sun_n
 
     # 温度差係数
     # 境界の種類が'external_general_part', 'external_transparent_part', 'external_opaque_part'の場合に定義される。
+    # 地盤の裏面温度は年平均外気温度（相当外気温度として与える）であるため、1.0とする。
     if b['boundary_type'] in ['external_general_part', 'external_transparent_part', 'external_opaque_part']:
         h_td = float(b['temp_dif_coef'])
+    elif b['boundary_type'] == 'ground':
+        h_td = 1.0
     else:
         h_td = 0.0
 
-- 
2.43.0


From ff754a22dc00e94a4c4b0e7500eb121b2aa9d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 03/12] fix: read the capacity of radiative cooling where the
 initializer writes it

A house with radiative cooling stopped with KeyError: 'max_capacity'.
---
 heat_load_calc/core/pre_calc_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index c76f653..ffb4a67 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -277,7 +277,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     for i, s in enumerate(ss):
         if s['equipment']['cooling']['radiative']['installed']:
             is_radiative_cooling_is_list.append(True)
-            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['max_capacity'])
+            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['radiative']['max_capacity'])
         else:
             is_radiative_cooling_is_list.append(False)
             radiative_cooling_max_capacity_is_list.append(0.0)
-- 
2.43.0


From 997a9f628b9aa35d5870c32c78f505a3e913efb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 04/12] fix: leave the layers of a wall as they are when its
 response factors are asked for

get_response_factors appended the outside layer to the object's own lists, so a
second call computed the factors of a wall with one layer more.
---
 heat_load_calc/initializer/response_factor.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/heat_load_calc/initializer/response_factor.py b/heat_load_calc/initializer/response_factor.py
index ecbbc83..e852d9d 100644
--- a/heat_load_calc/initializer/response_factor.py
+++ b/heat_load_calc/initializer/response_factor.py
@@ -400,12 +400,10 @@ class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
 
         is_ground = False
 
-        c = self._cs
-        c.append(0.0)
+        c = self._cs + [0.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(self._r_o)
+        r = self._rs + [self._r_o]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
@@ -433,12 +431,10 @@ class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
 
         is_ground = True
 
-        c = self._cs
-        c.append(3300.0 * 3.0)
+        c = self._cs + [3300.0 * 3.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(3.0 / 1.0)
+        r = self._rs + [3.0 / 1.0]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
-- 
2.43.0


From 3b4b91388ddd5611bb1af8b6921ae59f4ba1eb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 05/12] fix: give the boundary floors of an attached house
 their own U values

---
 .../convert/get_u_psi_eta_from_u_a_and_eta_a.py        | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 521ab5e..eabdb84 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -41,7 +41,9 @@ def get_u_psi(u_psi: PartType, key: str) -> float:
         'floor': u_psi.floor,
         'boundary_ceiling': u_psi.boundary_ceiling,
         'boundary_wall': u_psi.boundary_wall,
-        'boundary_floor': u_psi.boundary_wall,
+        'boundary_floor': u_psi.boundary_floor,
+        'upward_boundary_floor': u_psi.boundary_ceiling,
+        'downward_boundary_floor': u_psi.boundary_floor,
         'window': u_psi.window,
         'door': u_psi.door,
         'earthfloor_perimeter': u_psi.earthfloor_perimeter,
@@ -192,13 +194,15 @@ def get_m_opq(
         不透明部位のm値の合計, W/K （暖房期・冷房期）
     """
 
+    u_psi = PartType(**u_psi_value)
+
     m_opq_h_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='heating')
+        s.area * 0.034 * get_u_psi(u_psi, s.general_part_type.value) * s.get_nu(region=region, season='heating')
         for s in gps
     ])
 
     m_opq_c_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='cooling')
+        s.area * 0.034 * get_u_psi(u_psi, s.general_part_type.value) * s.get_nu(region=region, season='cooling')
         for s in gps
     ])
 
-- 
2.43.0


From 890b0966e0857cfe7a1f979557c3b3bf78a5c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 06/12] fix: let a window that does not face the outside gain
 no sun

---
 heat_load_calc/convert/ees_house.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/convert/ees_house.py b/heat_load_calc/convert/ees_house.py
index b94fd24..3691c05 100644
--- a/heat_load_calc/convert/ees_house.py
+++ b/heat_load_calc/convert/ees_house.py
@@ -1605,6 +1605,10 @@ class WindowNoSpec(UpperArealEnvelope):
         従って、この get_f 関数は、Window クラスでオーバーライドし、引数にガラスの構成を与えるようにすべき。
         """
 
+        # 外気に面さない窓には日射が当たらない。
+        if self.next_space != NextSpace.OUTDOOR:
+            return 0.0
+
         return self.sunshade.get_f(region=region, season=season, direction=self.direction)
 
 
@@ -1698,7 +1702,7 @@ class Window(WindowNoSpec, IGetQ, IGetM):
     def get_m(self, region: int, season: str) -> float:
         return self.get_eta_d(season=season) \
                * self.area \
-               * self.sunshade.get_f(region=region, season=season, direction=self.direction) \
+               * self.get_f(region=region, season=season) \
                * self.get_nu(region=region, season=season)
 
     def get_as_dict(self):
-- 
2.43.0


From b237ca40baf30627e96539d3901a0048db759d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 07/12] fix: build the sunshade of a window instead of raising
 it

---
 heat_load_calc/convert/factor_f.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heat_load_calc/convert/factor_f.py b/heat_load_calc/convert/factor_f.py
index 13b25ac..2c9d979 100644
--- a/heat_load_calc/convert/factor_f.py
+++ b/heat_load_calc/convert/factor_f.py
@@ -293,11 +293,11 @@ class SunshadeTransient:
             if d['input'] == 'not_input':
                 return SunshadeTransientNotInput()
             elif d['input'] == 'not_exist':
-                raise SunshadeTransientNotExist()
+                return SunshadeTransientNotExist()
             elif d['input'] == 'simple':
                 return SunshadeTransientExistSimple(depth=d['depth'], d_h=d['d_h'], d_e=d['d_e'])
             elif d['input'] == 'complex':
-                raise SunshadeTransientExistDetail(
+                return SunshadeTransientExistDetail(
                     x1=d['x1'],
                     x2=d['x2'],
                     x3=d['x3'],
-- 
2.43.0


From 9f0f91c0bcefcc70ab1f99a092ceb6f8c0b99d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 08/12] fix: write the shape of a sunshade where it is read
 from

---
 heat_load_calc/convert/factor_f.py | 44 ++++++++++++++----------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/heat_load_calc/convert/factor_f.py b/heat_load_calc/convert/factor_f.py
index 2c9d979..10dcbdf 100644
--- a/heat_load_calc/convert/factor_f.py
+++ b/heat_load_calc/convert/factor_f.py
@@ -241,18 +241,16 @@ class SunshadeOpaqueInput(SunshadeOpaque):
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
@@ -526,18 +524,16 @@ class SunshadeTransientExistDetail(SunshadeTransient):
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
-- 
2.43.0


From 1255503b492a716acb2749fdc2ca7fb12befd9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 09/12] fix: pass the direction of a window to its detailed
 sunshade

---
 heat_load_calc/convert/factor_f.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/convert/factor_f.py b/heat_load_calc/convert/factor_f.py
index 10dcbdf..7a5e792 100644
--- a/heat_load_calc/convert/factor_f.py
+++ b/heat_load_calc/convert/factor_f.py
@@ -517,7 +517,7 @@ class SunshadeTransientExistDetail(SunshadeTransient):
             f値
         """
 
-        return self._sunshade_complex_kernel.get_f_sh(region=region, season=season)
+        return self._sunshade_complex_kernel.get_f_sh(region=region, season=season, direction=direction)
 
     def get_as_dict(self):
 
-- 
2.43.0


From 36f3af28936f1ef61c3e2589c2998070e4594e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 10/12] fix: count heat bridges in the UA and eta-A values of
 an envelope

---
 heat_load_calc/convert/check_ua_a_eta_a.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/heat_load_calc/convert/check_ua_a_eta_a.py b/heat_load_calc/convert/check_ua_a_eta_a.py
index 279328c..1952e06 100644
--- a/heat_load_calc/convert/check_ua_a_eta_a.py
+++ b/heat_load_calc/convert/check_ua_a_eta_a.py
@@ -5,7 +5,7 @@
 from typing import List
 
 from heat_load_calc.convert.ees_house import *
-from heat_load_calc.convert.ees_house import GeneralPart, Window, Door, EarthfloorPerimeter, EarthfloorCenter
+from heat_load_calc.convert.ees_house import GeneralPart, Window, Door, EarthfloorPerimeter, EarthfloorCenter, Heatbridge
 
 
 def check_u_a_and_eta_a(region, model_house_envelope):
@@ -15,26 +15,27 @@ def check_u_a_and_eta_a(region, model_house_envelope):
     ds: List[Door] = Door.make_doors(ds=model_house_envelope['doors'])
     eps: List[EarthfloorPerimeter] = EarthfloorPerimeter.make_earthfloor_perimeters(ds=model_house_envelope['earthfloor_perimeters'])
     ecs: List[EarthfloorCenter] = EarthfloorCenter.make_earthfloor_centers(ds=model_house_envelope['earthfloor_centers'])
+    hbs: List[Heatbridge] = Heatbridge.make_heatbridges(ds=model_house_envelope['heat_bridges'])
 
     # 外皮の面積の合計, m2
     a_evp_total = get_envelope_total_area(gps=gps, ws=ws, ds=ds, ecs=ecs)
 
     # q値, W/K
-    q_total = get_q(gps=gps, ws=ws, ds=ds, eps=eps, region=region)
+    q_total = get_q(gps=gps, ws=ws, ds=ds, eps=eps, hbs=hbs, region=region)
 
     # UA値, W/m2K
     u_a = q_total / a_evp_total
 
     if region != 8:
 
-        m_h = get_m(gps=gps, ws=ws, ds=ds, region=region, season='heating')
+        m_h = get_m(gps=gps, ws=ws, ds=ds, hbs=hbs, region=region, season='heating')
         eta_a_h = m_h / a_evp_total * 100.0
 
     else:
 
         eta_a_h = None
 
-    m_c = get_m(gps=gps, ws=ws, ds=ds, region=region, season='cooling')
+    m_c = get_m(gps=gps, ws=ws, ds=ds, hbs=hbs, region=region, season='cooling')
 
     eta_a_c = m_c / a_evp_total * 100
 
@@ -57,7 +58,7 @@ def get_envelope_total_area(gps: List[IArea], ws: List[IArea], ds: List[IArea],
     return sum(structure.area for structure in gps + ws + ds + ecs)
 
 
-def get_q(gps: List[IGetQ], ws: List[IGetQ], ds: List[IGetQ], eps: List[IGetQ], region: int) -> float:
+def get_q(gps: List[IGetQ], ws: List[IGetQ], ds: List[IGetQ], eps: List[IGetQ], hbs: List[IGetQ], region: int) -> float:
     """
     各部位のq値（W/K)の合計を求める。
     Args:
@@ -65,25 +66,27 @@ def get_q(gps: List[IGetQ], ws: List[IGetQ], ds: List[IGetQ], eps: List[IGetQ],
         ws: 透明な開口部
         ds: 不透明な開口部
         eps: 土間床周辺部
+        hbs: 熱橋
         region: 地域の区分
     Returns:
         q値, W/K
     """
 
-    return sum(s.get_q(region=region) for s in gps + ws + ds + eps)
+    return sum(s.get_q(region=region) for s in gps + ws + ds + eps + hbs)
 
 
-def get_m(gps: List[IGetM], ws: List[IGetM], ds: List[IGetM], region: int, season: str) -> float:
+def get_m(gps: List[IGetM], ws: List[IGetM], ds: List[IGetM], hbs: List[IGetM], region: int, season: str) -> float:
     """
     各部位のm値(W/(W/m2))の合計を求める。
     Args:
         gps: 一般部位
         ws: 透明な開口部
         ds: 不透明な開口部
+        hbs: 熱橋
         region: 地域の区分
         season: 期間
     Returns:
         m値, W/(W/m2)
     """
 
-    return sum(s.get_m(region=region, season=season) for s in gps + ws + ds)
+    return sum(s.get_m(region=region, season=season) for s in gps + ws + ds + hbs)
-- 
2.43.0


From 2deea4adb3e1fc7973cf8948e3c02f3f61fc64e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 11/12] fix: name the room of a window as the other boundaries
 name theirs

---
 heat_load_calc/convert/ees_house.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/convert/ees_house.py b/heat_load_calc/convert/ees_house.py
index 3691c05..9801d5b 100644
--- a/heat_load_calc/convert/ees_house.py
+++ b/heat_load_calc/convert/ees_house.py
@@ -1724,7 +1724,7 @@ class Window(WindowNoSpec, IGetQ, IGetM):
         # TODO: 下記の表面熱伝達抵抗や長波長放射率についてはきちんと整理しないといけない。
         d = {
             'name': self.name,
-            'connected_id': self.space_type.get_connected_id(),
+            'connected_room_id': self.space_type.get_connected_id(),
             'boundary_type': 'external_transparent_part',
             'area': self.area,
             'is_sun_striked_outside': is_sun_striked_outside,
-- 
2.43.0


From ec12845b92b7fa4e24b57e0bfb2d8fb918a8fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:30 +0000
Subject: [PATCH 12/12] fix: give every surface the form factor of its own
 place in the list

get_h_r_js put the form factors of the rooms one behind the other, so with
boundaries not sorted by room the surfaces got those of other surfaces.
---
 heat_load_calc/core/shape_factor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/core/shape_factor.py b/heat_load_calc/core/shape_factor.py
index a5b73f0..e2153a6 100644
--- a/heat_load_calc/core/shape_factor.py
+++ b/heat_load_calc/core/shape_factor.py
@@ -23,9 +23,12 @@ def get_h_r_js(a_srf_js: np.ndarray, p_js_is: np.ndarray) -> np.ndarray:
 
     # 微小点に対する境界jの形態係数
     # 永田先生の方法
-    f_js = np.concatenate([
-        _get_f_i_js(a_srf_js=a_srf_js.flatten()[p_js_is[:, i] == 1])
-        for i in range(n_spaces)])
+    f_js = np.zeros(a_srf_js.size, dtype=float)
+
+    for i in range(n_spaces):
+        # 室iに接する境界
+        is_connected_js = p_js_is[:, i] == 1
+        f_js[is_connected_js] = _get_f_i_js(a_srf_js=a_srf_js.flatten()[is_connected_js])
 
     # 境界間の放射熱伝達率を決定する際、平均放射温度を20℃固定値であるとして計算する。
     t_mrt = 273.15 + 20.0
-- 
2.43.0

