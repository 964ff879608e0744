From 1766ade0f55ddfbce491c65566fe5bd5425ea714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 01/30] fix: harmonic-mean regulariser must not be comparable
 with permeabilities in m^2

---
 src/simulator/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 6fc5c70..e09785a 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -62,15 +62,15 @@ class Simulator:
             
             # Расчет проводимостей
             for i in range(nx-1):
-                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :] + 1e-15)
+                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :] + 1e-30)
                 self.T_x[i, :, :] = k_harmonic * dy * dz / dx
             
             for j in range(ny-1):
-                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :] + 1e-15)
+                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :] + 1e-30)
                 self.T_y[:, j, :] = k_harmonic * dx * dz / dy
             
             for k in range(nz-1):
-                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1] + 1e-15)
+                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1] + 1e-30)
                 self.T_z[:, :, k] = k_harmonic * dx * dy / dz
         
         # Объем пористой среды для расчетов IMPES
-- 
2.43.0


From 46e0a7ed04c884dd3a1c8656c75f2e2e2178ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 02/30] fix: stone2 kro must reduce to the two-phase oil-water
 curve at zero gas for any end points

---
 src/simulator/fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 4933565..a5f32ad 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -409,7 +409,7 @@ class Fluid:
             # Двухфазные кривые
             krow = self.ko_end_w * (1.0 - swn) ** self.now
             krog = self.ko_end_g * (1.0 - sgn) ** self.nog
-            kro = krow + krog - min(self.ko_end_w, self.ko_end_g)
+            kro = krow + krog - self.ko_end_g
             return torch.clamp(kro, min=0.0)
         # Corey (двухфазный oil-water)
         s_norm = self._get_normalized_saturation(s_w)
-- 
2.43.0


From c5f458f7d8bc8f116b82d89e72561b78902e01d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 03/30] fix: Peaceman well index in SI from the cell size and
 rock permeability (was 100 mD, 1 m cubes, no thickness, negative for radii
 above 0.2 m)

---
 src/simulator/well.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/simulator/well.py b/src/simulator/well.py
index 8c51591..b69be8b 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -7,7 +7,7 @@ class Well:
     Класс для представления скважины в резервуаре.
     """
     
-    def __init__(self, name, well_type, i, j, k, radius, control_type, control_value, reservoir_dimensions, injected_phase: str = 'water', rate_type: str = 'reservoir', surface_phase: str = None, limits: dict = None, bhp_min: float = None):
+    def __init__(self, name, well_type, i, j, k, radius, control_type, control_value, reservoir_dimensions, injected_phase: str = 'water', rate_type: str = 'reservoir', surface_phase: str = None, limits: dict = None, bhp_min: float = None, cell_size=None, permeability: float = None):
         """
         Инициализирует скважину.
         
@@ -19,6 +19,8 @@ class Well:
             control_type: Тип контроля ('rate' или 'bhp')
             control_value: Значение контроля (дебит в м³/день или забойное давление в МПа)
             reservoir_dimensions: Размеры резервуара (nx, ny, nz)
+            cell_size: Размеры ячейки (dx, dy, dz) в метрах (по умолчанию куб со стороной 1 м)
+            permeability: Горизонтальная проницаемость ячейки в м² (по умолчанию 100 мД)
         """
         self.name = name
         self.type = well_type
@@ -39,16 +41,17 @@ class Well:
         self.cell_index = (i, j, k)
         self.cell_index_flat = i + j * nx + k * nx * ny
         
-        # Определяем реальные размеры ячейки из reservoir_dimensions
-        # Для Peaceman нужно знать dx, dy. Полагаем кубические ячейки и берём 1 м, если размеры не переданы.
-        dx = dy = 1.0
+        # Для Peaceman нужны размеры ячейки: если не переданы, полагаем куб со стороной 1 м
+        dx, dy, dz = (float(v) for v in (cell_size if cell_size is not None else (1.0, 1.0, 1.0)))
         
         # Эффективный радиус ячейки для модели Писмана
         ro = 0.28 * ((dx**2 + dy**2)**0.5) / 2
         
-        # Индекс скважины по модели Писмана (k заменим позже при гетерогенности)
-        k_h_assumed = 100.0  # мД
-        self.well_index = 2 * math.pi * k_h_assumed / (math.log(ro / radius) + 1e-12)
+        # Индекс скважины по модели Писмана: WI = 2*pi*k*h / ln(ro/rw), м³
+        k_h = permeability if permeability is not None else 100.0 * 9.869233e-16
+        if ro <= radius and (control_type == 'bhp' or bhp_min is not None):
+            raise ValueError(f"Радиус скважины {name} ({radius} м) не меньше эффективного радиуса ячейки ({ro:.3f} м)")
+        self.well_index = 2 * math.pi * k_h * dz / math.log(ro / radius) if ro > radius else None
         # Диагностика последнего шага
         self.last_q_total = None           # м3/с (знак: + инжекция, - отбор)
         self.last_surface_rates = {}       # {'oil','water','gas','liquid'} в м3/сутки
@@ -104,13 +107,20 @@ class WellManager:
                 rate_type=w.get('rate_type', 'reservoir'),
                 surface_phase=w.get('surface_phase'),
                 limits=w.get('limits'),
-                bhp_min=w.get('bhp_min')
+                bhp_min=w.get('bhp_min'),
+                cell_size=reservoir.grid_size,
+                permeability=self._cell_permeability(reservoir, i, j, k)
             )
             self.wells.append(well)
             print(f"  > Скважина '{well.name}' добавлена в менеджер.")
         
         print(f"Менеджер скважин успешно создан. Всего скважин: {len(self.wells)}")
 
+    @staticmethod
+    def _cell_permeability(reservoir, i, j, k):
+        """Горизонтальная проницаемость ячейки скважины, м² (среднее геометрическое kx и ky)."""
+        return math.sqrt(float(reservoir.permeability_x[i, j, k]) * float(reservoir.permeability_y[i, j, k]))
+
     def add_well(self, well):
         # Этот метод больше не нужен, так как вся логика в __init__
         pass
-- 
2.43.0


From 4d691df052796157f7006c751dbd5c54d3fc9557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 04/30] fix: reject wells placed outside the grid instead of
 wrapping them into another cell

---
 src/simulator/well.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simulator/well.py b/src/simulator/well.py
index b69be8b..ae97121 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -84,6 +84,10 @@ class WellManager:
             else:
                 raise ValueError(f"Неверный формат координат скважины: {w}")
             
+            nx, ny, nz = reservoir.dimensions
+            if not (0 <= i < nx and 0 <= j < ny and 0 <= k < nz):
+                raise ValueError(f"Скважина {w['name']} находится вне сетки {nx}x{ny}x{nz}: ({i},{j},{k})")
+            
             # Поддержка как старого формата (control), так и нового формата (control_type, control_value)
             if 'control' in w:
                 control_type = w['control']['type']
-- 
2.43.0


From 17ca153876fc9c062350040571ad7744553ed369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 05/30] fix: honour krw_end, krg_end and sg_cr in the water and
 gas relative permeabilities

---
 src/simulator/fluid.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index a5f32ad..46ce719 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -258,7 +258,7 @@ class Fluid:
         
         # d(krw)/d(sw) = d(krw)/d(s_norm) * d(s_norm)/d(sw)
         # d(krw)/d(s_norm) = nw * s_norm^(nw-1)
-        dkrw_dsw = self.nw * (s_norm ** (self.nw - 1)) * dsw_norm_dsw
+        dkrw_dsw = self.krw_end * self.nw * (s_norm ** (self.nw - 1)) * dsw_norm_dsw
         
         # d(kro)/d(sw) = d(kro)/d(s_norm) * d(s_norm)/d(sw)
         # d(kro)/d(s_norm) = -no * (1-s_norm)^(no-1)
@@ -385,7 +385,7 @@ class Fluid:
             Тензор относительной проницаемости воды
         """
         s_norm = self._get_normalized_saturation(s_w)
-        return s_norm**self.nw
+        return self.krw_end * s_norm**self.nw
 
     def calc_oil_kr(self, s_w, s_g=None):
         """
@@ -426,13 +426,13 @@ class Fluid:
             Тензор относительной проницаемости газа
         """
         # Нормализуем газонасыщенность
-        # Газ движется в диапазоне от 0 до (1 - sw_cr - so_r)
-        s_g_norm = s_g / (1.0 - self.sw_cr - self.so_r + 1e-10)
+        # Газ движется в диапазоне от sg_cr до (1 - sw_cr - so_r)
+        s_g_norm = (s_g - self.sg_cr) / (1.0 - self.sw_cr - self.so_r - self.sg_cr + 1e-10)
         s_g_norm = torch.clamp(s_g_norm, 0.0, 1.0)
         
         # Используем показатель Кори для газа (обычно 2-3)
         ng = getattr(self, 'ng', 2.0)  # Показатель Кори для газа
-        return s_g_norm**ng
+        return self.krg_end * s_g_norm**ng
 
     def calc_dkrw_dsw(self, s_w):
         """
@@ -452,7 +452,7 @@ class Fluid:
         
         # Производная dkrw/dsw = dkrw/ds_norm * ds_norm/dsw
         result = torch.zeros_like(s_w)
-        result[mask] = self.nw * s_norm[mask]**(self.nw - 1) / normalized_range
+        result[mask] = self.krw_end * self.nw * s_norm[mask]**(self.nw - 1) / normalized_range
         
         return result
 
@@ -489,18 +489,18 @@ class Fluid:
             Тензор производной относительной проницаемости газа
         """
         ng = getattr(self, 'ng', 2.0)
-        normalized_range = 1.0 - self.sw_cr - self.so_r
+        normalized_range = 1.0 - self.sw_cr - self.so_r - self.sg_cr
         
         # Нормализованная газонасыщенность
-        s_g_norm = s_g / (normalized_range + 1e-10)
+        s_g_norm = (s_g - self.sg_cr) / (normalized_range + 1e-10)
         s_g_norm = torch.clamp(s_g_norm, 0.0, 1.0)
         
         # Проверяем, находится ли насыщенность в допустимом диапазоне
-        mask = (s_g > 0.0) & (s_g < normalized_range)
+        mask = (s_g > self.sg_cr) & (s_g < self.sg_cr + normalized_range)
         
         # Производная dkrg/dsg = ng * s_g_norm^(ng-1) / normalized_range
         result = torch.zeros_like(s_g)
-        result[mask] = ng * s_g_norm[mask]**(ng - 1) / normalized_range
+        result[mask] = self.krg_end * ng * s_g_norm[mask]**(ng - 1) / normalized_range
         
         return result
 
-- 
2.43.0


From 21f7d64b74e7cc798c3c97c47887cdec41b8f945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 06/30] fix: saturation limits must not create or destroy a
 phase that starts below its residual, nor let gas push water below connate

---
 src/simulator/simulation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index e09785a..4ab6716 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1382,15 +1382,19 @@ class Simulator:
         dSg_sub = dSg / N
         S_w_cur = S_w_old
         S_g_cur = S_g_old
+        # Нижние пределы насыщенностей: остаточная либо исходная, если фаза уже ниже остаточной
+        # (иначе кламп создавал бы фазу из ничего)
+        sw_min_t = torch.clamp(S_w_start, max=sw_cr)
+        sg_min_t = torch.clamp(S_g_start, max=sg_cr)
+        so_min_t = torch.clamp(1.0 - S_w_start - S_g_start, min=0.0, max=so_r)
         for _ in range(N):
             S_w_cur = S_w_cur + dSw_sub
             S_g_cur = S_g_cur + dSg_sub
             # мягкие клампы на случай численной погрешности (min/max как тензоры одной формы)
-            sw_min_t = torch.full_like(S_w_cur, float(sw_cr))
-            sw_max_t = (1.0 - so_r - S_g_cur)
+            S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=1.0 - so_min_t - sw_min_t)
+            sw_max_t = (1.0 - so_min_t - S_g_cur)
             S_w_cur = torch.clamp(S_w_cur, min=sw_min_t, max=sw_max_t)
-            sg_min_t = torch.full_like(S_g_cur, float(sg_cr))
-            sg_max_t = (1.0 - so_r - S_w_cur)
+            sg_max_t = (1.0 - so_min_t - S_w_cur)
             S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=sg_max_t)
 
             # Подшаговая интеграция компонентного баланса с учётом текущих S
-- 
2.43.0


From 9d18c4cdbf848bb134a92036630ee9386dccb662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 07/30] fix: upwind phase mobilities by the phase potential, so
 that no phase flows out of a cell where it is immobile

---
 src/simulator/simulation.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 4ab6716..733aa03 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -988,11 +988,6 @@ class Simulator:
 
         mob_w_x = torch.where(dp_x > 0, mob_w[:-1,:,:], mob_w[1:,:,:])
         mob_w_y = torch.where(dp_y > 0, mob_w[:,:-1,:], mob_w[:,1:,:])
-        mob_w_z = torch.where(dp_z > 0, mob_w[:,:,:-1], mob_w[:,:,1:])
-
-        mob_g_x = torch.where(dp_x > 0, mob_g[:-1,:,:], mob_g[1:,:,:])
-        mob_g_y = torch.where(dp_y > 0, mob_g[:,:-1,:], mob_g[:,1:,:])
-        mob_g_z = torch.where(dp_z > 0, mob_g[:,:,:-1], mob_g[:,:,1:])
 
         # 2. Потенциалы с учётом гравитации
         _, _, dz = self.reservoir.grid_size
@@ -1005,24 +1000,28 @@ class Simulator:
             pot_w_z = dp_z
             pot_g_z = dp_z
 
+        # Капиллярное давление нефть-газ: корректируем потенциал газа
+        pot_g_x, pot_g_y = dp_x, dp_y
+        if getattr(self.fluid, 'pc_og_scale', 0.0) > 0:
+            pcog = self.fluid.get_capillary_pressure_og(self.fluid.s_g)
+            pot_g_x = dp_x - (pcog[1:,:,:] - pcog[:-1,:,:])
+            pot_g_y = dp_y - (pcog[:,1:,:] - pcog[:,:-1,:])
+            pot_g_z = pot_g_z - (pcog[:,:,1:] - pcog[:,:,:-1])
+
+        # Апстрим по потенциалу фазы: фаза вытекает из той ячейки, из которой она течёт
+        mob_w_z = torch.where(pot_w_z > 0, mob_w[:,:,:-1], mob_w[:,:,1:])
+        mob_g_x = torch.where(pot_g_x > 0, mob_g[:-1,:,:], mob_g[1:,:,:])
+        mob_g_y = torch.where(pot_g_y > 0, mob_g[:,:-1,:], mob_g[:,1:,:])
+        mob_g_z = torch.where(pot_g_z > 0, mob_g[:,:,:-1], mob_g[:,:,1:])
+
         # 3. Расходы воды
         flow_w_x = self.T_x * mob_w_x * dp_x
         flow_w_y = self.T_y * mob_w_y * dp_y
         flow_w_z = self.T_z * mob_w_z * pot_w_z
 
-        # Капиллярное давление нефть-газ: корректируем потенциал газа
-        if getattr(self.fluid, 'pc_og_scale', 0.0) > 0:
-            pcog = self.fluid.get_capillary_pressure_og(self.fluid.s_g)
-            dpcg_x = pcog[1:,:,:] - pcog[:-1,:,:]
-            dpcg_y = pcog[:,1:,:] - pcog[:,:-1,:]
-            dpcg_z = pcog[:,:,1:] - pcog[:,:,:-1]
-            flow_g_x = self.T_x * mob_g_x * (dp_x - dpcg_x)
-            flow_g_y = self.T_y * mob_g_y * (dp_y - dpcg_y)
-            flow_g_z = self.T_z * mob_g_z * (pot_g_z - dpcg_z)
-        else:
-            flow_g_x = self.T_x * mob_g_x * dp_x
-            flow_g_y = self.T_y * mob_g_y * dp_y
-            flow_g_z = self.T_z * mob_g_z * pot_g_z
+        flow_g_x = self.T_x * mob_g_x * pot_g_x
+        flow_g_y = self.T_y * mob_g_y * pot_g_y
+        flow_g_z = self.T_z * mob_g_z * pot_g_z
 
         # 4. Дивергенция
         div_w = torch.zeros_like(S_w_old)
-- 
2.43.0


From f14dccc1405ce4ca514059db760df12d2c05f01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 08/30] fix: component balance counted every well twice (once
 per step and again over the sub-steps, the latter ignoring choke, limits and
 BHP switches)

---
 src/simulator/simulation.py | 111 ------------------------------------
 1 file changed, 111 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 733aa03..58adc6d 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1396,117 +1396,6 @@ class Simulator:
             sg_max_t = (1.0 - so_min_t - S_w_cur)
             S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=sg_max_t)
 
-            # Подшаговая интеграция компонентного баланса с учётом текущих S
-            try:
-                if self.fluid.pvt is not None:
-                    # Обновляем временно насыщенности для расчёта кривых
-                    self.fluid.s_w = S_w_cur
-                    self.fluid.s_g = S_g_cur
-                    self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-                    # Мобилизации и доли
-                    mu_w = self.fluid._eval_pvt(P_new, 'mu_w')
-                    mu_o = self.fluid._eval_pvt(P_new, 'mu_o')
-                    mu_g = self.fluid._eval_pvt(P_new, 'mu_g')
-                    krw = self.fluid.calc_water_kr(self.fluid.s_w)
-                    kro = self.fluid.calc_oil_kr(self.fluid.s_w, self.fluid.s_g)
-                    krg = self.fluid.calc_gas_kr(self.fluid.s_g)
-                    mob_w_cur = krw / (mu_w + 1e-12)
-                    mob_o_cur = kro / (mu_o + 1e-12)
-                    mob_g_cur = krg / (mu_g + 1e-12)
-                    mob_t_cur = mob_w_cur + mob_o_cur + mob_g_cur
-                    fw_cur = mob_w_cur / (mob_t_cur + 1e-12)
-                    fg_cur = mob_g_cur / (mob_t_cur + 1e-12)
-                    fo_cur = mob_o_cur / (mob_t_cur + 1e-12)
-                    # PVT на текущем P
-                    Bo = self.fluid._eval_pvt(P_new, 'Bo'); Bw = self.fluid._eval_pvt(P_new, 'Bw'); Bg = self.fluid._eval_pvt(P_new, 'Bg')
-                    Rs = self.fluid._eval_pvt(P_new, 'Rs')
-                    try:
-                        Rv = self.fluid._eval_pvt(P_new, 'Rv')
-                    except Exception:
-                        Rv = torch.zeros_like(Bg)
-                    dt_sub = dt / N
-                    # Скважины: вклад за подшаг
-                    for well in self.well_manager.get_wells():
-                        i, j, k = well.i, well.j, well.k
-                        if i >= self.reservoir.nx or j >= self.reservoir.ny or k >= self.reservoir.nz:
-                            continue
-                        Bo_cell = float(Bo[i, j, k]); Bw_cell = float(Bw[i, j, k]); Bg_cell = float(Bg[i, j, k])
-                        Rs_cell = float(Rs[i, j, k])
-                        try:
-                            Rv_cell = float(Rv[i, j, k])
-                        except Exception:
-                            Rv_cell = 0.0
-                        fo_ = float(fo_cur[i, j, k]); fw_ = float(fw_cur[i, j, k]); fg_ = float(fg_cur[i, j, k])
-                        # Вычисляем q_total для подшага по текущим долям
-                        if well.control_type == 'rate':
-                            rate_scale = float(self.sim_params.get('global_rate_scale', 1.0))
-                            q_base = (well.control_value * rate_scale) / 86400.0
-                            if well.type == 'injector':
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    if getattr(well, 'injected_phase', 'water') == 'gas':
-                                        q_total_sub = q_base * Bg_cell
-                                    else:
-                                        q_total_sub = q_base * Bw_cell
-                                else:
-                                    q_total_sub = q_base
-                                q_total_sub *= 1.0
-                                # IN для газа/воды
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                                else:
-                                    qw_surf = max(q_total_sub, 0.0) / max(Bw_cell, 1e-12) * 86400.0
-                                    self.component_balance['oil']['in'] += 0.0
-                                    self.component_balance['gas']['in'] += 0.0
-                            else:
-                                # producer
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    sp = (well.surface_phase or 'liquid').lower()
-                                    if sp == 'oil':
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    elif sp == 'water':
-                                        q_w_res = q_base * Bw_cell
-                                        q_total_sub = - q_w_res / max(fw_, 1e-12)
-                                    elif sp == 'gas':
-                                        denom = (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    else:
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12) + fw_ / max(Bw_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                else:
-                                    q_total_sub = -q_base
-                                qo_res = max((-q_total_sub * fo_), 0.0)
-                                qg_res = max((-q_total_sub * fg_), 0.0)
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-                        elif well.control_type == 'bhp':
-                            # оценим total по текущим долям (Mobility-weighted WI уже учтён на шаге давления)
-                            wi = well.well_index
-                            p_bhp = well.control_value * 1e6
-                            p_block = float(P_new[i, j, k])
-                            # приблизим mob_t по текущим долям (линейно): используем mob_t_cur
-                            mob_t_cell = float(mob_t_cur[i, j, k])
-                            q_total_sub = wi * mob_t_cell * (p_block - p_bhp)
-                            if well.type == 'injector':
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(-q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                            else:
-                                qabs = abs(q_total_sub)
-                                qo_res = qabs * fo_
-                                qg_res = qabs * fg_
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-            except Exception:
-                pass
-
         self.fluid.s_w = S_w_cur
         self.fluid.s_g = S_g_cur
         self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-- 
2.43.0


From b61e1459c00b3989c5743030ae553a830fe28fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 09/30] fix: cross-flow from a BHP producer into the reservoir
 was booked as production in the component balance

---
 src/simulator/simulation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 58adc6d..e8c4a80 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1328,17 +1328,17 @@ class Simulator:
                         except Exception:
                             Rv_cell = 0.0
                         fo_ = fo[i, j, k].item(); fw_ = fw[i, j, k].item(); fg_ = fg[i, j, k].item()
-                        qabs = abs(q_total)
-                        oil_surf = qabs * (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12)) * 86400.0
-                        gas_surf = qabs * (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12)) * 86400.0
+                        qabs = abs(float(q_total))
                         # Компоненты OUT по фактическим reservoir-дебитам при BHP
                         scale_t = float(dt)
                         qo_res = float((qabs * fo_))
                         qg_res = float((qabs * fg_))
                         oil_delta = scale_t * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
                         gas_delta = scale_t * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                        self.component_balance['oil']['out'] += oil_delta
-                        self.component_balance['gas']['out'] += gas_delta
+                        # При обратном перетоке (пласт ниже забойного) флюид поступает в пласт
+                        side = 'out' if q_total > 0 else 'in'
+                        self.component_balance['oil'][side] += oil_delta
+                        self.component_balance['gas'][side] += gas_delta
                         self._dbg(
                             f"WELL_OUT name={well.name} mode=bhp cell=({i},{j},{k}) q_total={q_total:.6e} fw={fw_:.3f} fg={fg_:.3f} fo={fo_:.3f}",
                             f"Bo={Bo_cell:.4g} Bw={Bw_cell:.4g} Bg={Bg_cell:.4g} Rs={Rs_cell:.4g} Rv={Rv_cell:.4g}",
-- 
2.43.0


From b0dd550d6da23316668e33367089dc39c5ae62cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 10/30] fix: cross-flow from the reservoir into a BHP gas
 injector was missing from the component balance

---
 src/simulator/simulation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index e8c4a80..54728f6 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1300,14 +1300,16 @@ class Simulator:
                         q_g[i, j, k] += (-q_total)
                         if self.fluid.pvt is not None:
                             Bg_cell = float(self.fluid._eval_pvt(P_new, 'Bg')[i, j, k])
-                            qg_surf = max(-q_total, 0.0) / max(Bg_cell, 1e-12) * 86400.0
+                            qg_surf = abs(float(q_total)) / max(Bg_cell, 1e-12) * 86400.0
                             try:
                                 Rv_cell = float(self.fluid._eval_pvt(P_new, 'Rv')[i, j, k])
                             except Exception:
                                 Rv_cell = 0.0
                             scale = float(dt / 86400.0)
-                            self.component_balance['gas']['in'] += float(qg_surf * scale)
-                            self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * scale)
+                            # При обратном перетоке (пласт выше забойного) газ уходит из пласта
+                            side = 'in' if q_total < 0 else 'out'
+                            self.component_balance['gas'][side] += float(qg_surf * scale)
+                            self.component_balance['oil'][side] += float(Rv_cell * qg_surf * scale)
                     else:
                         q_w[i, j, k] += (-q_total)
                 else:
-- 
2.43.0


From 6f1d081105347e0c0678d1a8ae47fd00d8d2e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 11/30] fix: the minimum bottom-hole pressure of a rate
 producer was checked with the wrong sign and not applied to the withdrawn
 volume

---
 src/simulator/simulation.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 54728f6..bc85633 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1143,6 +1143,7 @@ class Simulator:
                             # q_liq_surf = q_total*(fo/Bo + fg*Rv/Bg + fw/Bw)
                             denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12) + fw_ / max(Bw_cell, 1e-12))
                             q_total = - (q_base / max(denom, 1e-12))
+                        q_total = self._limit_rate_by_bhp_min(well, q_total, mob_t[i, j, k], P_new[i, j, k])
                         # Availability-choke: масштабируем q_total по доступности фаз в ячейке (dS не выходит за пределы)
                         PV_cell = float(self.porous_volume[i, j, k])
                         fw_ = fw[i, j, k].item(); fg_ = fg[i, j, k].item()
@@ -1214,6 +1215,7 @@ class Simulator:
                         qo_loc = q_total * fo[i, j, k]
                     else:
                         # Резервуарный total rate
+                        q_total = self._limit_rate_by_bhp_min(well, q_total, mob_t[i, j, k], P_new[i, j, k])
                         # Возможные surface-лимиты также применим, если есть PVT
                         if self.fluid.pvt is not None:
                             Bo_cell = float(self.fluid._eval_pvt(P_new, 'Bo')[i, j, k])
@@ -1533,8 +1535,8 @@ class Simulator:
                     wi = well.well_index
                     # Требуемый BHP для обеспечения заданного rate
                     # q = wi * mob_t * (p_block - p_bhp) => p_bhp_req = p_block - q/(wi*mob_t)
-                    denom = wi * mob_t_well + 1e-12
-                    p_bhp_req = p_block - rate_si / denom
+                    denom = wi * mob_t_well + 1e-30
+                    p_bhp_req = p_block + rate_si / denom  # rate_si < 0 для продуктора
                     p_bhp_min = well.bhp_min * 1e6
                     if p_bhp_req < p_bhp_min:
                         # Переключаемся на BHP-контроль на этом шаге
@@ -1553,6 +1555,16 @@ class Simulator:
                 q_wells[idx] += well_index_val * mob_t_well * p_bhp
         return q_wells, well_bhp_terms
 
+    def _limit_rate_by_bhp_min(self, well, q_total, mob_t_cell, p_cell):
+        """ Ограничивает отбор (q_total < 0) так, чтобы забойное давление не опускалось ниже bhp_min. """
+        if well.bhp_min is None:
+            return q_total
+        q_max = well.well_index * float(mob_t_cell) * max(float(p_cell) - well.bhp_min * 1e6, 0.0)
+        if -q_total > q_max:
+            well.last_mode = 'bhp'
+            return -q_max
+        return q_total
+
     def _solve_pressure_cg_pytorch(self, A, b, x0=None, M_diag=None, tol=1e-6, max_iter=500):
         """
         Решает СЛАУ Ax=b методом сопряженных градиентов (CG) с предобуславливателем.
-- 
2.43.0


From b280244a1ef2a20a6202c0124a40a9fe0094e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 12/30] fix: an IMPES step that had to be cut covered only part
 of the requested dt, and a failed one left side effects behind

---
 src/simulator/simulation.py | 63 +++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index bc85633..66e6b2a 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -820,50 +820,67 @@ class Simulator:
     # ==================================================================
     
     def _impes_step(self, dt):
-        """ Выполняет один временной шаг с использованием схемы IMPES с адаптивным dt. """
-        original_dt = dt
+        """ Выполняет один временной шаг с использованием схемы IMPES с адаптивным dt.
+
+        Если шаг приходится дробить, подшаги повторяются, пока не будет пройден весь dt.
+        При неудаче состояние (поля, балансы, диагностика скважин) возвращается к началу шага.
+        """
         current_dt = dt
+        remaining = dt
         max_attempts = self.sim_params.get("max_time_step_attempts", 5)
         dt_reduction_factor = self.sim_params.get("dt_reduction_factor", 2.0)
-        dt_increase_factor = self.sim_params.get("dt_increase_factor", 1.25)
-
-        consecutive_success = 0
-        last_dt_increased = False
+        snapshot = self._snapshot_state()
 
-        for attempt in range(max_attempts):
-            print(f"Попытка шага IMPES с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
+        failures = 0
+        while failures < max_attempts:
+            step_dt = min(current_dt, remaining)
+            print(f"Попытка шага IMPES с dt = {step_dt/86400:.2f} дней (Неудач: {failures}/{max_attempts})")
 
-            P_new, converged = self._impes_pressure_step(current_dt)
+            P_new, converged = self._impes_pressure_step(step_dt)
 
             if converged:
                 # Обновляем давление и выполняем шаг насыщенности
                 self.fluid.pressure = P_new
-                self._impes_saturation_step(P_new, current_dt)
+                self._impes_saturation_step(P_new, step_dt)
 
                 # Сохраняем предыдущие состояния для следующего шага
                 self.fluid.prev_pressure = self.fluid.pressure.clone()
                 self.fluid.prev_sw = self.fluid.s_w.clone()
 
-                consecutive_success += 1
-
-                # Попробуем увеличить dt, если успешно несколько раз подряд
-                if consecutive_success >= 2 and current_dt < original_dt and not last_dt_increased:
-                    current_dt = min(current_dt * dt_increase_factor, original_dt)
-                    last_dt_increased = True
-                else:
-                    last_dt_increased = False
-
-                return True
+                remaining -= step_dt
+                if remaining <= 1e-9 * dt:
+                    return True
+                continue
 
             # если не сошлось, уменьшаем шаг
             print("  IMPES не сошелся, уменьшаем dt")
-            current_dt /= dt_reduction_factor
-            consecutive_success = 0
-            last_dt_increased = False
+            current_dt = step_dt / dt_reduction_factor
+            failures += 1
 
         print("IMPES не сошелся даже с минимальным dt, прекращаем симуляцию.")
+        self._restore_state(snapshot)
         return False
 
+    def _snapshot_state(self):
+        """ Снимок состояния, которое меняет временной шаг. """
+        fl = self.fluid
+        return {
+            'fluid': (fl.pressure, fl.s_w, fl.s_g, fl.s_o, fl.prev_pressure, fl.prev_sw),
+            'mass': {ph: dict(v) for ph, v in self.mass_balance.items()},
+            'component': {c: dict(v) for c, v in self.component_balance.items()},
+            'wells': [(w.last_q_total, dict(w.last_surface_rates), w.last_mode)
+                      for w in self.well_manager.get_wells()],
+        }
+
+    def _restore_state(self, snapshot):
+        """ Возвращает состояние к снимку _snapshot_state. """
+        fl = self.fluid
+        fl.pressure, fl.s_w, fl.s_g, fl.s_o, fl.prev_pressure, fl.prev_sw = snapshot['fluid']
+        self.mass_balance = snapshot['mass']
+        self.component_balance = snapshot['component']
+        for w, (q, rates, mode) in zip(self.well_manager.get_wells(), snapshot['wells']):
+            w.last_q_total, w.last_surface_rates, w.last_mode = q, rates, mode
+
     def _impes_pressure_step(self, dt):
         """ Неявный шаг для расчета давления в схеме IMPES. """
         # 1. Подготовка коэффициентов
-- 
2.43.0


From 5cb989b7df2b0927e240d339494d261ae20bc452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 13/30] fix: run() dropped the last step when total time / time
 step is not exact in floating point

---
 src/simulator/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 66e6b2a..9d99cbe 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2069,7 +2069,8 @@ class Simulator:
         animation_fps = self.sim_params.get('animation_fps', 5)
         
         # Рассчитываем количество шагов
-        num_steps = int(total_time_days / time_step_days)
+        # (допуск: 0.3/0.1 = 2.9999999999999996 — это 3 шага)
+        num_steps = int(total_time_days / time_step_days + 1e-9)
         
         # Создаем уникальную директорию для данного запуска
         timestamp = datetime.datetime.now().strftime("%Y%m%d_%H%M%S")
-- 
2.43.0


From a3b42f9cba8a495c1d18a405423c023e0ebd437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 14/30] fix: run() kept advancing the clock after an IMPES step
 that did not converge

---
 src/simulator/simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 9d99cbe..8e0774b 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2093,6 +2093,11 @@ class Simulator:
             # Выполняем один шаг
             success = self.run_step(dt=time_step_sec)
             
+            # IMPES сам дробит шаг: если он всё равно не сошёлся, состояние не продвинулось
+            if not success and self.solver_type == 'impes':
+                print(f"  Шаг {i+1} не сошелся. Завершаем симуляцию.")
+                break
+            
             # Если шаг не сошелся, пробуем с меньшим шагом
             if not success and self.solver_type == 'fully_implicit':
                 print(f"  Шаг {i+1} не сошелся. Пробуем с меньшим временным шагом.")
-- 
2.43.0


From 1a680af8e65a24a56be3132fc3e96936ae58bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 15/30] fix: VTK export used reservoir attributes and a results
 directory that do not exist, and float ranges for the node count

---
 src/output/vtk_writer.py    | 10 +++++-----
 src/simulator/simulation.py |  5 +++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/output/vtk_writer.py b/src/output/vtk_writer.py
index f50e524..b38d872 100644
--- a/src/output/vtk_writer.py
+++ b/src/output/vtk_writer.py
@@ -17,9 +17,9 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
 
     # Создаем координаты узлов сетки.
     # VTK ожидает координаты узлов, поэтому массив должен быть на 1 больше, чем число ячеек.
-    x = np.arange(0, (nx + 1) * dx, dx)
-    y = np.arange(0, (ny + 1) * dy, dy)
-    z = np.arange(0, (nz + 1) * dz, dz)
+    x = np.arange(nx + 1) * dx
+    y = np.arange(ny + 1) * dy
+    z = np.arange(nz + 1) * dz
 
     # Получаем данные с устройства и конвертируем в NumPy
     pressure_mpa = fluid.pressure.cpu().numpy() / 1e6 # Конвертируем в МПа для удобства
@@ -31,8 +31,8 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
     pressure_reshaped = pressure_mpa.reshape((nx, ny, nz), order='F')
     saturation_w_reshaped = saturation_w.reshape((nx, ny, nz), order='F')
     saturation_o_reshaped = saturation_o.reshape((nx, ny, nz), order='F')
-    perm_h_reshaped = reservoir.perm_h.cpu().numpy().reshape((nx, ny, nz), order='F')
-    perm_v_reshaped = reservoir.perm_v.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_h_reshaped = reservoir.permeability_x.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_v_reshaped = reservoir.permeability_z.cpu().numpy().reshape((nx, ny, nz), order='F')
     
     # Создаем словарь с данными для ячеек
     cell_data = {
diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 8e0774b..e2a95d6 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2184,7 +2184,7 @@ class Simulator:
         # Сохранение результатов в VTK (если указано)
         if save_vtk:
             try:
-                self._save_to_vtk(output_filename)
+                self._save_to_vtk(output_filename, results_dir)
             except ImportError:
                 print("Не удалось сохранить в формате VTK: отсутствуют необходимые модули.")
         
@@ -2197,12 +2197,13 @@ class Simulator:
             except ImportError:
                 print("Не удалось создать анимацию: отсутствует модуль imageio.")
 
-    def _save_to_vtk(self, output_filename):
+    def _save_to_vtk(self, output_filename, results_dir):
         """
         Сохраняет результаты в формате VTK.
         
         Args:
             output_filename: Имя файла для сохранения
+            results_dir: Директория результатов запуска
         """
         try:
             import vtk
-- 
2.43.0


From 297d4c8c2a37f333b3db0ec5f39efb7c378b2094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 16/30] fix: every fully implicit step was reported as
 converged (a tuple is always true), and a rolled-back one lost the gas
 saturation

---
 src/simulator/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index e2a95d6..1974c58 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -163,7 +163,7 @@ class Simulator:
             print(f"Попытка шага с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
             
             # Выполняем шаг с текущим значением dt
-            converged = self._fully_implicit_newton_step(current_dt)
+            converged, _ = self._fully_implicit_newton_step(current_dt)
             
             if converged:
                 print(f"Шаг успешно выполнен с dt = {current_dt/86400:.2f} дней.")
@@ -186,7 +186,7 @@ class Simulator:
             # Неудачная попытка - восстанавливаем начальное состояние
             self.fluid.pressure = initial_pressure.clone()
             self.fluid.s_w = initial_saturation.clone()
-            self.fluid.s_o = 1.0 - self.fluid.s_w
+            self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
             
             print("Решатель не сошелся. Уменьшаем шаг времени.")
             current_dt /= dt_reduction_factor
@@ -479,7 +479,7 @@ class Simulator:
             # Ограничиваем значения физическими пределами
             self.fluid.s_w.clamp_(self.fluid.sw_cr, 1.0 - self.fluid.so_r)
             self.fluid.pressure.clamp_(1e5, 100e6)  # От 0.1 МПа до 100 МПа
-            self.fluid.s_o = 1.0 - self.fluid.s_w  # Обновляем нефтенасыщенность
+            self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g  # Обновляем нефтенасыщенность
             
             # Вычисляем время, затраченное на итерацию
             iter_time = time.time() - start_time
@@ -767,7 +767,7 @@ class Simulator:
         self.fluid.s_w.clamp_(self.fluid.sw_cr, 1.0 - self.fluid.so_r)
         
         # Обновляем также нефтенасыщенность
-        self.fluid.s_o = 1.0 - self.fluid.s_w
+        self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
         
         # Подсчитываем количество ограниченных значений
         p_limited = torch.sum(p_delta != p_delta_raw).item()
-- 
2.43.0


From 8e58c51fe62dfb7bdd1287584ec582ad7a77c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 17/30] fix: a fully implicit step that had to be cut covered
 only part of the requested dt

---
 src/simulator/simulation.py | 65 ++++++++++++-------------------------
 1 file changed, 21 insertions(+), 44 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 1974c58..768d839 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -144,56 +144,43 @@ class Simulator:
         Returns:
             Успешность выполнения шага (True/False)
         """
-        # Сохраняем оригинальный временной шаг для возможного увеличения в будущем
-        original_dt = dt
         current_dt = dt
+        remaining = dt
         max_attempts = self.sim_params.get("max_time_step_attempts", 5)
-        dt_increase_factor = self.sim_params.get("dt_increase_factor", 1.5)
         dt_reduction_factor = self.sim_params.get("dt_reduction_factor", 2.0)
         
         # Сохраняем начальное состояние для возможного отката
-        initial_pressure = self.fluid.pressure.clone()
-        initial_saturation = self.fluid.s_w.clone()
-        
-        # Счетчик успешных шагов подряд с уменьшенным шагом
-        consecutive_success = 0
-        last_dt_increased = False
+        snapshot = self._snapshot_state()
         
-        for attempt in range(max_attempts):
-            print(f"Попытка шага с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
+        failures = 0
+        while failures < max_attempts:
+            step_dt = min(current_dt, remaining)
+            print(f"Попытка шага с dt = {step_dt/86400:.2f} дней (Неудач: {failures}/{max_attempts})")
             
-            # Выполняем шаг с текущим значением dt
-            converged, _ = self._fully_implicit_newton_step(current_dt)
+            # Newton откатывает поля сам; s_o восстанавливаем вместе с ними
+            s_o_before = self.fluid.s_o
+            converged, _ = self._fully_implicit_newton_step(step_dt)
             
             if converged:
-                print(f"Шаг успешно выполнен с dt = {current_dt/86400:.2f} дней.")
-                consecutive_success += 1
+                print(f"Шаг успешно выполнен с dt = {step_dt/86400:.2f} дней.")
                 
                 # Обновляем предыдущие состояния флюида
                 self.fluid.prev_pressure = self.fluid.pressure.clone()
                 self.fluid.prev_sw = self.fluid.s_w.clone()
                 
-                # Если это был уменьшенный шаг и мы успешно сделали несколько шагов подряд,
-                # пробуем увеличить шаг для следующей итерации, но не больше исходного
-                if consecutive_success >= 2 and current_dt < original_dt and not last_dt_increased:
-                    current_dt = min(current_dt * dt_increase_factor, original_dt)
-                    last_dt_increased = True
-                    print(f"Увеличиваем временной шаг до dt = {current_dt/86400:.2f} дней для следующей итерации.")
-                else:
-                    last_dt_increased = False
-                return True
+                # Раздробленный шаг повторяем, пока не пройден весь dt
+                remaining -= step_dt
+                if remaining <= 1e-9 * dt:
+                    return True
+                continue
 
-            # Неудачная попытка - восстанавливаем начальное состояние
-            self.fluid.pressure = initial_pressure.clone()
-            self.fluid.s_w = initial_saturation.clone()
-            self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-            
+            self.fluid.s_o = s_o_before
             print("Решатель не сошелся. Уменьшаем шаг времени.")
-            current_dt /= dt_reduction_factor
-            consecutive_success = 0
-            last_dt_increased = False
+            current_dt = step_dt / dt_reduction_factor
+            failures += 1
             
         print("Не удалось добиться сходимости даже с минимальным шагом. Симуляция остановлена.")
+        self._restore_state(snapshot)
         return False
         
     def _fully_implicit_newton_step(self, dt, max_iter=20, tol=1e-3, 
@@ -2093,21 +2080,11 @@ class Simulator:
             # Выполняем один шаг
             success = self.run_step(dt=time_step_sec)
             
-            # IMPES сам дробит шаг: если он всё равно не сошёлся, состояние не продвинулось
-            if not success and self.solver_type == 'impes':
+            # Шаг дробится внутри run_step: если он всё равно не сошёлся, состояние не продвинулось
+            if not success:
                 print(f"  Шаг {i+1} не сошелся. Завершаем симуляцию.")
                 break
             
-            # Если шаг не сошелся, пробуем с меньшим шагом
-            if not success and self.solver_type == 'fully_implicit':
-                print(f"  Шаг {i+1} не сошелся. Пробуем с меньшим временным шагом.")
-                reduced_dt = time_step_sec / 2
-                success = self.run_step(dt=reduced_dt)
-                
-                if not success:
-                    print(f"  Шаг {i+1} не сошелся даже с уменьшенным шагом. Завершаем симуляцию.")
-                    break
-            
             # Сохранение промежуточных результатов
             if (i + 1) % save_interval == 0 and save_interval < num_steps:
                 p_current = self.fluid.pressure.cpu().numpy()
-- 
2.43.0


From 5ae3092a49b5726d46c24c498a5edf9423a10832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 18/30] fix: AMG pinned the first unknown to zero on the
 coarsest level even for non-singular systems, so small systems got a wrong
 solution

---
 src/solver/classical_amg.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 95b7078..3aa82bf 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -1043,18 +1043,20 @@ class ClassicalAMG:
             print(f"  [V-CYCLE L{lvl}] ВХОД: ||x||={x.norm():.3e}, ||b||={b.norm():.3e}, n={level['n']}")
         
         if level['is_coarsest']:
-            # Прямое решение на coarsest уровне (фиксируем первую степень свободы)
+            # Прямое решение на coarsest уровне
             n = level['n']
             A_dense = level['A'].to_dense().clone()
             b_local = b.clone()
             x = torch.zeros_like(b_local)
-            if n > 0:
-                A_dense[0, :] = 0.0
-                A_dense[:, 0] = 0.0
-                A_dense[0, 0] = 1.0
-                b_local[0] = 0.0
 
             if n <= 500:
+                # Первую степень свободы фиксируем только для вырожденной матрицы (ядро из констант),
+                # иначе решение было бы неверным
+                if n > 0 and A_dense.sum(dim=1).abs().max() <= 1e-12 * A_dense.diagonal().abs().max():
+                    A_dense[0, :] = 0.0
+                    A_dense[:, 0] = 0.0
+                    A_dense[0, 0] = 1.0
+                    b_local[0] = 0.0
                 try:
                     x = torch.linalg.solve(A_dense, b_local)
                 except RuntimeError:
-- 
2.43.0


From 59a854d2da53eb0eede201d7f13402eaf982c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 19/30] fix: AMG smoother relaxation was capped at an absolute
 100, so the solver stalled on matrices with small diagonals

---
 src/solver/classical_amg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 3aa82bf..57744ef 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -807,7 +807,7 @@ class ClassicalAMG:
                 row_abs = self._row_abs_sum(A_current)
                 beta = 0.3  # L1-Jacobi параметр
                 denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-                inv_relax = (1.0 / denom).clamp(max=1e2)  # Мягкая страховка
+                inv_relax = 1.0 / denom
                 
                 self.levels.append({
                     'A': A_current,
@@ -835,7 +835,7 @@ class ClassicalAMG:
                 row_abs = self._row_abs_sum(A_current)
                 beta = 0.3
                 denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-                inv_relax = (1.0 / denom).clamp(max=1e2)
+                inv_relax = 1.0 / denom
                 
                 self.levels.append({
                     'A': A_current,
@@ -886,7 +886,7 @@ class ClassicalAMG:
             row_abs = self._row_abs_sum(A_current)
             beta = 0.3
             denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-            inv_relax = (1.0 / denom).clamp(max=1e2)
+            inv_relax = 1.0 / denom
             
             self.levels.append({
                 'A': A_current,
@@ -921,7 +921,7 @@ class ClassicalAMG:
             row_abs = self._row_abs_sum(A_current)
             beta = 0.3
             denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-            inv_relax = (1.0 / denom).clamp(max=1e2)
+            inv_relax = 1.0 / denom
             
             self.levels.append({
                 'A': A_current,
@@ -1303,7 +1303,7 @@ class ClassicalAMG:
         row_abs = self._row_abs_sum(A_lvl)
         beta = 0.3
         denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-        inv_relax = (1.0 / denom).clamp(max=1e2)
+        inv_relax = 1.0 / denom
         self.levels[lvl]['diag'] = diag_abs
         self.levels[lvl]['inv_relax'] = inv_relax
 
-- 
2.43.0


From 40f556b4bce79863f68158b2c69cadd5cf385d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 20/30] fix: AMG reused the hierarchy of a different grid with
 the same number of cells

---
 src/solver/pressure_amg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/pressure_amg.py b/src/solver/pressure_amg.py
index 70f08d3..7fa9fa1 100644
--- a/src/solver/pressure_amg.py
+++ b/src/solver/pressure_amg.py
@@ -63,6 +63,9 @@ def amg_solve(
     # Build AMG hierarchy (equilibration is auto-detected inside ClassicalAMG)
     cache_key = (
         A_csr64.size(),
+        # Иерархия строится по графу матрицы: другой граф (даже того же размера) требует своей
+        hash(A_csr64.crow_indices().cpu().numpy().tobytes()),
+        hash(A_csr64.col_indices().cpu().numpy().tobytes()),
         float(theta),
         int(max_levels),
         int(coarsest_size),
-- 
2.43.0


From 43168d0ef63c9e196c279134359fd9621627d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 21/30] fix: an AMG pressure solve that did not reach its
 tolerance was accepted as converged

---
 src/simulator/simulation.py | 10 ++++++----
 src/solver/classical_amg.py |  3 +++
 src/solver/pressure_amg.py  |  9 +++++++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 768d839..6edfc4b 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -919,7 +919,7 @@ class Simulator:
             # Импорт локально, чтобы не тянуть зависимости при CG
             from solver.pressure_amg import amg_solve
             # Решаем напрямую AMG V-cycles (внутри float64 и auto device)
-            P_new_flat = amg_solve(
+            P_new_flat, converged = amg_solve(
                 A, Q,
                 tol=amg_tol,
                 max_cycles=amg_max_cycles,
@@ -927,10 +927,12 @@ class Simulator:
                 max_levels=amg_max_levels,
                 coarsest_size=amg_coarsest,
                 device=amg_device,
+                return_converged=True,
             )
-            converged = True
-            P_new = P_new_flat.view(self.reservoir.dimensions)
-            return P_new, converged
+            if converged:
+                P_new = P_new_flat.view(self.reservoir.dimensions)
+                return P_new, converged
+            print("  AMG не сошёлся: решаем давление методом CG")
 
         # 5. Параметры CG из конфигурации (по умолчанию)
         cg_tol_base = self.sim_params.get("cg_tolerance", 1e-6)
diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 57744ef..4408d62 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -722,6 +722,7 @@ class ClassicalAMG:
         self.nullspace_blend = float(max(0.0, min(1.0, nullspace_blend)))
         self.nullspace_reg = float(max(1e-10, nullspace_reg))
         self.apply_tol = 5e-2
+        self.converged = False  # достиг ли tol последний solve()
         self.apply_max_cycles = 8
         self.debug_cycles = False
         self.equilibration_threshold = 1e-6
@@ -1136,6 +1137,7 @@ class ClassicalAMG:
             x_scaled = torch.zeros_like(b) if x0 is None else x0.to(self.device)
         
         b_norm = b_scaled.norm()
+        self.converged = False
         
         for cycle in range(max_iter):
             x_scaled = self._v_cycle(0, x_scaled, b_scaled, pre_smooth=3, post_smooth=2,
@@ -1145,6 +1147,7 @@ class ClassicalAMG:
             x_ratio = x_scaled.norm() / (b_norm + 1e-30)
             print(f"  [ClassicalAMG cycle {cycle+1}] rel_res={rel_res:.3e}, ||x||/||b||={x_ratio:.2e}")
             if rel_res < tol:
+                self.converged = True
                 break
         
         # Обратное масштабирование (если было)
diff --git a/src/solver/pressure_amg.py b/src/solver/pressure_amg.py
index 7fa9fa1..d18c586 100644
--- a/src/solver/pressure_amg.py
+++ b/src/solver/pressure_amg.py
@@ -43,12 +43,14 @@ def amg_solve(
     coarsest_size: int = 200,
     device: Optional[str] = "auto",
     enable_equilibration: Optional[bool] = None,
+    return_converged: bool = False,
 ) -> torch.Tensor:
     """
     Solve A x = b using Classical RS-AMG V-cycles.
     - A: torch sparse (COO or CSR), preferably SPD M-matrix from IMPES pressure discretization
     - b: dense RHS (1-D)
-    Returns x on the same device/dtype as b (float32 by default in simulator).
+    Returns x on the same device/dtype as b (float32 by default in simulator),
+    or (x, converged) when return_converged is set.
     """
     # Target device selection
     if device == "auto" or device is None:
@@ -89,7 +91,10 @@ def amg_solve(
     x64 = amg.solve(b64, x0=None, tol=tol, max_iter=max_cycles)
 
     # Return to original b's device/dtype (float32 in our pipeline)
-    return x64.to(b.device, dtype=b.dtype)
+    x = x64.to(b.device, dtype=b.dtype)
+    if return_converged:
+        return x, amg.converged
+    return x
 
 
 def amg_preconditioner(
-- 
2.43.0


From a1832f77d00acadb5f1ceed2938278cbb18c230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 22/30] hook: step tracing and planned solver failures, guarded
 by OIL_SIM_TRACE

---
 src/simulator/simulation.py | 10 ++++++++++
 src/simulator/step_trace.py | 28 ++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)
 create mode 100644 src/simulator/step_trace.py

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 6edfc4b..ae6881f 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -7,6 +7,8 @@ import time
 import os
 import datetime
 
+from . import step_trace
+
 class Simulator:
     """
     Основной класс симулятора, отвечающий за выполнение расчетов.
@@ -160,6 +162,8 @@ class Simulator:
             # Newton откатывает поля сам; s_o восстанавливаем вместе с ними
             s_o_before = self.fluid.s_o
             converged, _ = self._fully_implicit_newton_step(step_dt)
+            if step_trace.ENABLED:
+                converged = step_trace.attempt(self, step_dt, converged)
             
             if converged:
                 print(f"Шаг успешно выполнен с dt = {step_dt/86400:.2f} дней.")
@@ -167,6 +171,8 @@ class Simulator:
                 # Обновляем предыдущие состояния флюида
                 self.fluid.prev_pressure = self.fluid.pressure.clone()
                 self.fluid.prev_sw = self.fluid.s_w.clone()
+                if step_trace.ENABLED:
+                    step_trace.accepted(self, step_dt)
                 
                 # Раздробленный шаг повторяем, пока не пройден весь dt
                 remaining -= step_dt
@@ -824,6 +830,8 @@ class Simulator:
             print(f"Попытка шага IMPES с dt = {step_dt/86400:.2f} дней (Неудач: {failures}/{max_attempts})")
 
             P_new, converged = self._impes_pressure_step(step_dt)
+            if step_trace.ENABLED:
+                converged = step_trace.attempt(self, step_dt, converged)
 
             if converged:
                 # Обновляем давление и выполняем шаг насыщенности
@@ -833,6 +841,8 @@ class Simulator:
                 # Сохраняем предыдущие состояния для следующего шага
                 self.fluid.prev_pressure = self.fluid.pressure.clone()
                 self.fluid.prev_sw = self.fluid.s_w.clone()
+                if step_trace.ENABLED:
+                    step_trace.accepted(self, step_dt)
 
                 remaining -= step_dt
                 if remaining <= 1e-9 * dt:
diff --git a/src/simulator/step_trace.py b/src/simulator/step_trace.py
new file mode 100644
index 0000000..70b96bb
--- /dev/null
+++ b/src/simulator/step_trace.py
@@ -0,0 +1,28 @@
+"""
+Трассировка временных шагов для проверки на соответствие спецификации.
+
+Включается переменной окружения OIL_SIM_TRACE=1; без неё симулятор сюда не обращается.
+"""
+import os
+
+ENABLED = os.environ.get('OIL_SIM_TRACE') == '1'
+
+# Получатель событий: sink(kind, simulator, dt), kind = 'fail' | 'sub'
+sink = None
+# Заранее заданные исходы попыток: False — считать попытку несошедшейся
+plan = []
+
+
+def attempt(simulator, dt, converged):
+    """ Исход попытки решения длиной dt (с учётом плана отказов). """
+    if plan and not plan.pop(0):
+        converged = False
+    if not converged and sink is not None:
+        sink('fail', simulator, dt)
+    return converged
+
+
+def accepted(simulator, dt):
+    """ Принят подшаг длиной dt: состояние уже обновлено. """
+    if sink is not None:
+        sink('sub', simulator, dt)
-- 
2.43.0


From 65b7fbbdffba8e2601a4b0121315de7c706a477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:21 +0000
Subject: [PATCH 23/30] fix: oil relative permeability derivative used the
 Corey curve under Stone II, and was non-zero below connate water in
 get_rel_perms_derivatives

---
 src/simulator/fluid.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 46ce719..a65bbac 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -253,22 +253,7 @@ class Fluid:
         :param s_w: Тензор текущей водонасыщенности.
         :return: (dkrw_dsw, dkro_dsw) - кортеж с производными.
         """
-        s_norm = self._get_normalized_saturation(s_w)
-        dsw_norm_dsw = 1 / (1 - self.sw_cr - self.so_r)
-        
-        # d(krw)/d(sw) = d(krw)/d(s_norm) * d(s_norm)/d(sw)
-        # d(krw)/d(s_norm) = nw * s_norm^(nw-1)
-        dkrw_dsw = self.krw_end * self.nw * (s_norm ** (self.nw - 1)) * dsw_norm_dsw
-        
-        # d(kro)/d(sw) = d(kro)/d(s_norm) * d(s_norm)/d(sw)
-        # d(kro)/d(s_norm) = -no * (1-s_norm)^(no-1)
-        dkro_dsw = -self.no * ((1 - s_norm) ** (self.no - 1)) * dsw_norm_dsw
-        
-        # Обработка особых случаев на границах
-        dkrw_dsw = torch.where(s_norm <= 0, torch.zeros_like(dkrw_dsw), dkrw_dsw)
-        dkro_dsw = torch.where(s_norm >= 1, torch.zeros_like(dkro_dsw), dkro_dsw)
-        
-        return dkro_dsw, dkrw_dsw
+        return self.calc_dkro_dsw(s_w), self.calc_dkrw_dsw(s_w)
 
     def get_capillary_pressure(self, s_w):
         """
@@ -474,7 +459,11 @@ class Fluid:
         
         # Производная dkro/dsw = dkro/ds_norm * ds_norm/dsw
         result = torch.zeros_like(s_w)
-        result[mask] = -self.no * (1 - s_norm[mask])**(self.no - 1) / normalized_range
+        if self.relperm_model == 'stone2':
+            # Наклон krow; krog от Sw не зависит
+            result[mask] = -self.ko_end_w * self.now * (1 - s_norm[mask])**(self.now - 1) / normalized_range
+        else:
+            result[mask] = -self.no * (1 - s_norm[mask])**(self.no - 1) / normalized_range
         
         return result
     
-- 
2.43.0


From 1d7d23232bb027569ce16878a25d67c29d033aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:48 +0000
Subject: [PATCH 24/30] fix: calc_gas_density left out the vaporised oil that
 rho_g counts

---
 src/simulator/fluid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index a65bbac..dfe3493 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -356,7 +356,8 @@ class Fluid:
         """
         if self.pvt is not None:
             bg = self._eval_pvt(pressure, key='Bg')
-            return self.rho_gas_ref / (bg + 1e-12)
+            rv = self._eval_pvt(pressure, key='Rv')
+            return (self.rho_gas_ref + rv * self.rho_oil_ref) / (bg + 1e-12)
         return self.rho_gas_ref * (1.0 + self.gas_compressibility * (pressure - 1e5))
 
     def calc_water_kr(self, s_w):
-- 
2.43.0


From 3a648b4df42c4d77f2dfa4e04ace91ec8ee5b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 25/30] fix: PVT tables with unsorted or repeated pressures
 were interpolated into wrong values instead of rejected

---
 src/simulator/pvt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulator/pvt.py b/src/simulator/pvt.py
index e92e9dc..bf1dab0 100644
--- a/src/simulator/pvt.py
+++ b/src/simulator/pvt.py
@@ -35,6 +35,8 @@ class PVTTable:
 
         # Базовые проверки
         n = len(self.P)
+        if n == 0 or np.any(np.diff(self.P) <= 0):
+            raise ValueError("PVT: давления должны быть заданы по возрастанию")
         for arr, name in [
             (self.Bo, "Bo"), (self.Bw, "Bw"), (self.Bg, "Bg"),
             (self.mu_o, "mu_o_cP"), (self.mu_w, "mu_w_cP"), (self.mu_g, "mu_g_cP"),
-- 
2.43.0


From 10a618693f999eb973ba1b256c42ca39812474ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:12 +0000
Subject: [PATCH 26/30] fix: plots showed the X index on the vertical axis
 labelled Y and the Y index on the axis labelled X

---
 src/plotting/plotter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/plotting/plotter.py b/src/plotting/plotter.py
index 8b80b98..8353e26 100644
--- a/src/plotting/plotter.py
+++ b/src/plotting/plotter.py
@@ -30,14 +30,15 @@ class Plotter:
         else:
             z_slice_idx = 0
             
-        p_slice = pressure[:, :, z_slice_idx]
-        sw_slice = saturation[:, :, z_slice_idx]
+        # imshow: строки — вертикальная ось (Y), столбцы — горизонтальная (X)
+        p_slice = pressure[:, :, z_slice_idx].T
+        sw_slice = saturation[:, :, z_slice_idx].T
         
         # Определяем количество графиков в зависимости от наличия газа
         has_gas = gas_saturation is not None and np.any(gas_saturation > 1e-6)
         
         if has_gas:
-            sg_slice = gas_saturation[:, :, z_slice_idx]
+            sg_slice = gas_saturation[:, :, z_slice_idx].T
             fig, (ax1, ax2, ax3) = plt.subplots(1, 3, figsize=(18, 5))
         else:
             fig, (ax1, ax2) = plt.subplots(1, 2, figsize=(12, 5))
-- 
2.43.0


From 0123278f6a3c522b0c11f6488a0939d65f5086a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:18 +0000
Subject: [PATCH 27/30] fix: VTK export of run() attached the values to the
 wrong points (z fastest against points with x fastest)

---
 src/simulator/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index ae6881f..d700486 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2212,13 +2212,13 @@ class Simulator:
             grid.SetPoints(points)
             
             # Добавляем данные давления
-            pressure_array = self.fluid.pressure.cpu().numpy().flatten()
+            pressure_array = self.fluid.pressure.cpu().numpy().flatten(order='F')  # точки: i меняется быстрее всех
             vtk_pressure = numpy_support.numpy_to_vtk(pressure_array)
             vtk_pressure.SetName("Pressure")
             grid.GetPointData().AddArray(vtk_pressure)
             
             # Добавляем данные насыщенности
-            sw_array = self.fluid.s_w.cpu().numpy().flatten()
+            sw_array = self.fluid.s_w.cpu().numpy().flatten(order='F')
             vtk_sw = numpy_support.numpy_to_vtk(sw_array)
             vtk_sw.SetName("Water_Saturation")
             grid.GetPointData().AddArray(vtk_sw)
-- 
2.43.0


From dfb8ecd7dec43865f68781b686501773b8a05bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 28/30] fix: fully implicit Jacobian left the oil derivative of
 a Y face undefined for flow against the axis

---
 src/simulator/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index d700486..5ac32e0 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1839,6 +1839,7 @@ class Simulator:
                         
                     else:
                         dfw_dsw2 = trans * dlambda_w_dsw[idx2] * (dp - dp_cap + gravity_term_w)
+                        dfo_dsw2 = trans * dlambda_o_dsw[idx2] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
                             dfw_dsw1 = trans * lambda_w_up * (-dpc_dsw[idx1])
-- 
2.43.0


From af7e8c6557e8cfbf5364e72e91ff7743967ac4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 29/30] fix: a fluid with a PVT table gave densities in the
 shape of the grid, whatever the pressures' shape

---
 src/simulator/fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index dfe3493..f53d2cf 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -185,7 +185,7 @@ class Fluid:
             raise RuntimeError("PVT не загружен")
         p_mpa = (p_tensor.detach().to('cpu').numpy() / 1e6).astype(np.float64)
         vals = self.pvt.eval(p_mpa)[key]
-        return torch.from_numpy(vals).to(self.device, dtype=torch.float32).reshape(self.dimensions)
+        return torch.from_numpy(vals).to(self.device, dtype=torch.float32).reshape(p_tensor.shape)
 
     def calc_total_compressibility(self, pressure: torch.Tensor, s_w: torch.Tensor, s_g: torch.Tensor) -> torch.Tensor:
         """Оценка суммарной сжимаемости ct(P,Sw,Sg) из PVT (пер Па). Fallback на self.cf.
-- 
2.43.0


From 61570b2847f5e193ddf68e9253a425a55927483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 30/30] fix: the fully implicit step raised with Stone II
 curves (gas saturation in the shape of the grid)

---
 src/simulator/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 5ac32e0..0245368 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -305,7 +305,7 @@ class Simulator:
             
             # Расчет относительных проницаемостей и их производных
             kr_w = self.fluid.calc_water_kr(sw_vec)
-            kr_o = self.fluid.calc_oil_kr(sw_vec)
+            kr_o = self.fluid.calc_oil_kr(sw_vec, self.fluid.s_g.reshape(-1))
             
             # Расчет мобильностей для векторизации
             lambda_w = kr_w / mu_w
@@ -529,7 +529,7 @@ class Simulator:
         
         # Относительные проницаемости
         kr_w = self.fluid.calc_water_kr(sw_vec)
-        kr_o = self.fluid.calc_oil_kr(sw_vec)
+        kr_o = self.fluid.calc_oil_kr(sw_vec, self.fluid.s_g.reshape(-1))
         
         # Мобильности
         lambda_w = kr_w / mu_w
@@ -680,7 +680,7 @@ class Simulator:
             mu_w = self.fluid.mu_water
             mu_o = self.fluid.mu_oil
             kr_w = self.fluid.calc_water_kr(sw)
-            kr_o = self.fluid.calc_oil_kr(sw)
+            kr_o = self.fluid.calc_oil_kr(sw, self.fluid.s_g.reshape(-1)[idx])
             lambda_w = kr_w / mu_w
             lambda_o = kr_o / mu_o
             lambda_t = lambda_w + lambda_o
@@ -1968,7 +1968,7 @@ class Simulator:
             mu_w = self.fluid.mu_water
             mu_o = self.fluid.mu_oil
             kr_w = self.fluid.calc_water_kr(sw)
-            kr_o = self.fluid.calc_oil_kr(sw)
+            kr_o = self.fluid.calc_oil_kr(sw, self.fluid.s_g.reshape(-1)[idx])
             lambda_w = kr_w / mu_w
             lambda_o = kr_o / mu_o
             lambda_t = lambda_w + lambda_o
-- 
2.43.0

