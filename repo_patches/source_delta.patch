From 1d13949a8926a5c4ab2ac13ddde7120834454eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:12 +0000
Subject: [PATCH 01/43] fix: TAW (2002) wave run-up on a single slope without a
 given gamma_b raised ValueError

---
 .../functions/hydraulic/wave_runup/taw2002.py                    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 952a73b..fa1bdf4 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -300,6 +300,7 @@ def calculate_dimensionless_wave_runup_height_z2p(
     if np.isnan(gamma_b):
         L_berm = calculate_berm_length(
             Hm0=Hm0,
+            cot_alpha=cot_alpha,
             cot_alpha_down=cot_alpha_down,
             cot_alpha_up=cot_alpha_up,
             B_berm=B_berm,
-- 
2.43.0


From 847997138de917332b257a9327d1fd7c7eb2682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:50 +0000
Subject: [PATCH 02/43] fix: EurOtop (2018) wave run-up ignored a user-supplied
 gamma_beta

---
 .../functions/hydraulic/wave_runup/eurotop2018.py        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
index b2caa1e..6012533 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
@@ -179,10 +179,11 @@ def calculate_dimensionless_wave_runup_height_z2p(
         c1=c1, c2=c2, c3=c3, c4=c4, use_best_fit=use_best_fit
     )
 
-    gamma_beta = calculate_influence_oblique_waves_gamma_beta(
-        beta=beta,
-        gamma_f=gamma_f,
-    )
+    if wave_runup_taw2002.check_calculate_gamma_beta(beta=beta, gamma_beta=gamma_beta):
+        gamma_beta = calculate_influence_oblique_waves_gamma_beta(
+            beta=beta,
+            gamma_f=gamma_f,
+        )
 
     z2p_diml, max_reached = (
         wave_runup_taw2002.calculate_dimensionless_wave_runup_height_z2p(
-- 
2.43.0


From 92be4632a59bf84190e6a20bbaedcfb3f6dfa385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:38 +0000
Subject: [PATCH 03/43] fix: TAW (2002) overtopping with sigma and the design
 coefficients raised UnboundLocalError

---
 .../functions/hydraulic/wave_overtopping/taw2002.py   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 11bf436..da228e5 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -308,6 +308,8 @@ def calculate_dimensionless_overtopping_discharge_q(
                     "alreaddy account for uncertainty with conservative coefficient values."
                 )
             )
+            cor1 = 0
+            cor3 = 0
 
     if wave_runup_taw2002.check_calculate_gamma_beta(beta=beta, gamma_beta=gamma_beta):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
@@ -680,6 +682,8 @@ def calculate_dimensionless_crest_freeboard(
                     "alreaddy account for uncertainty with conservative coefficient values."
                 )
             )
+            cor1 = 0
+            cor3 = 0
 
     if wave_runup_taw2002.check_calculate_gamma_beta(beta=beta, gamma_beta=gamma_beta):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
@@ -753,7 +757,12 @@ def calculate_dimensionless_crest_freeboard(
     )
 
     Rc_diml_max = Rc_diml_max_equation(
-        Hm0=Hm0, q=q, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj
+        Hm0=Hm0,
+        q=q,
+        c3=c3,
+        cor3=cor3,
+        gamma_beta=gamma_beta,
+        gamma_f=gamma_f_adj,
     )
 
     Rc_diml = np.min([Rc_diml_eq24, Rc_diml_max], axis=0)
-- 
2.43.0


From 822d0e8cfc443104c5e7973667e2bdad2f7dc57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:44 +0000
Subject: [PATCH 04/43] fix: TAW (2002) crest freeboard ignored g in the
 maximum equation

---
 .../functions/hydraulic/wave_overtopping/taw2002.py              | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index da228e5..36fdea5 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -763,6 +763,7 @@ def calculate_dimensionless_crest_freeboard(
         cor3=cor3,
         gamma_beta=gamma_beta,
         gamma_f=gamma_f_adj,
+        g=g,
     )
 
     Rc_diml = np.min([Rc_diml_eq24, Rc_diml_max], axis=0)
-- 
2.43.0


From 1b212c73a583fea3b9d2fda4fada9059e0e4bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:51 +0000
Subject: [PATCH 05/43] fix: EurOtop (2018) maximum overtopping discharge did
 not use the adjusted gamma_f

---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 1a0efa3..56d3d06 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -306,7 +306,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         Hm0=Hm0,
         Rc=Rc,
         gamma_beta=gamma_beta,
-        gamma_f=gamma_f,
+        gamma_f=gamma_f_adj,
         gamma_star=gamma_star,
         c2=c2,
         c3=c3,
-- 
2.43.0


From 02d90a4014d28306c9a7260cb64de2e74937a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:57 +0000
Subject: [PATCH 06/43] fix: EurOtop (2018) crest freeboard ignored
 use_best_fit for the representative slope

---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 56d3d06..91de11e 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -663,6 +663,7 @@ def calculate_dimensionless_crest_freeboard(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
@@ -1179,6 +1180,7 @@ def calculate_dimensionless_crest_freeboard_rubble_mound(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
-- 
2.43.0


From 9a258d58d908d151e89e42d47f8ba5d83b7e2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:06 +0000
Subject: [PATCH 07/43] fix: EurOtop (2018) overtopping ignored a user-supplied
 gamma_b

---
 .../hydraulic/wave_overtopping/eurotop2018.py | 70 ++++++++++---------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 91de11e..8abc27b 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -265,24 +265,25 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.all(np.isnan(gamma_b)):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
@@ -679,24 +680,25 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.all(np.isnan(gamma_b)):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
-- 
2.43.0


From 3e7b33e4cab0274bd174d1e224af97ff2d2c1b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:22 +0000
Subject: [PATCH 08/43] fix: De Ridder et al. (2024) crest freeboard (eq. 24)
 ignored g

---
 .../functions/hydraulic/wave_overtopping/deridder2024.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index 27560fe..d8a3fdc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -147,6 +147,7 @@ def calculate_crest_freeboard_discharge_q_eq24(
         smm10_HF=smm10_HF,
         gamma_f=gamma_f,
         q=q,
+        g=g,
     )
 
     Rc = Rc_diml * Hm0
-- 
2.43.0


From 1314db3d7c127e1c64b98ea925a1af041672ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:15 +0000
Subject: [PATCH 09/43] fix: Van Gent et al. (2025) crest freeboard was not the
 inverse of the overtopping discharge

---
 .../hydraulic/wave_overtopping/vangent2025.py | 89 +++++++++----------
 1 file changed, 41 insertions(+), 48 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 307cbb6..85e12f4 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -876,60 +876,53 @@ def calculate_dimensionless_crest_freeboard(
     if design_calculation:
         q_diml = np.power(q_diml, 1.0 / 0.857)
 
-    Rc_diml = (
-        np.log((1.0 / 6.8) * cot_alpha * q_diml)
-        * (-1.0 / 5.0)
-        * gamma_f
-        * gamma_b
-        * gamma_v
-        * gamma_beta
-        * ksi_mm10
-        + 0.4 * Hm0_swell / Hm0
-    )
+    q_diml_no_wind = q_diml
+    Rc_diff = np.inf
+    n_iter = 0
+    while np.max(Rc_diff) > tolerance and n_iter < max_iter:
+        n_iter += 1
+
+        Rc_diml_eqB1 = (
+            np.log((1.0 / 6.8) * cot_alpha * q_diml_no_wind)
+            * (-1.0 / 5.0)
+            * gamma_f
+            * gamma_b
+            * gamma_v
+            * gamma_beta
+            * ksi_mm10
+            + 0.4 * Hm0_swell / Hm0
+        )
 
-    if include_influence_wind:
-        Rc_diff = np.inf
-        n_iter = 0
-        while np.max(Rc_diff) > tolerance and n_iter < max_iter:
-            n_iter += 1
-
-            gamma_w = calculate_influence_wind_gamma_w(
-                Rc=Rc_diml * Hm0,
-                Ac=Ac,
-                Hm0=Hm0,
-                q_diml=q_diml,
-            )
-            q_diml_iter = q_diml / gamma_w
+        Rc_diml_max = Rc_diml_max_equation(
+            Hm0=Hm0,
+            Hm0_swell=Hm0_swell,
+            q=q_diml_no_wind * np.sqrt(g * Hm0**3),
+            cot_alpha=cot_alpha,
+            ksi_mm10=ksi_mm10,
+            gamma_f=gamma_f,
+            gamma_b=gamma_b,
+            gamma_v=gamma_v,
+            gamma_beta=gamma_beta,
+            g=g,
+        )
 
-            Rc_diml_prev = Rc_diml
+        Rc_diml = np.min([Rc_diml_eqB1, Rc_diml_max], axis=0)
+        max_reached = Rc_diml == Rc_diml_max
 
-            Rc_diml = (
-                np.log((1.0 / 6.8) * cot_alpha * q_diml_iter)
-                * (-1.0 / 5.0)
-                * gamma_f
-                * gamma_b
-                * gamma_v
-                * gamma_beta
-                * ksi_mm10
-                + 0.4 * Hm0_swell / Hm0
-            )
+        if not include_influence_wind:
+            break
 
+        if n_iter > 1:
             Rc_diff = np.abs(Rc_diml - Rc_diml_prev)
+        Rc_diml_prev = Rc_diml
 
-    Rc_diml_max = Rc_diml_max_equation(
-        Hm0=Hm0,
-        Hm0_swell=Hm0_swell,
-        q=q,
-        cot_alpha=cot_alpha,
-        ksi_mm10=ksi_mm10,
-        gamma_f=gamma_f,
-        gamma_b=gamma_b,
-        gamma_v=gamma_v,
-        gamma_beta=gamma_beta,
-    )
-
-    Rc_diml = np.min([Rc_diml, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml, Rc_diml_max], axis=0) == Rc_diml_max
+        gamma_w = calculate_influence_wind_gamma_w(
+            Rc=Rc_diml * Hm0,
+            Ac=Ac,
+            Hm0=Hm0,
+            q_diml=q_diml_no_wind,
+        )
+        q_diml_no_wind = q_diml / gamma_w
 
     check_validity_range(
         Hm0=Hm0,
-- 
2.43.0


From e5b7045ac0e0859a1f61445bae23c91cc31403b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:23 +0000
Subject: [PATCH 10/43] fix: Van Gent et al. (2025) crest freeboard could not
 be calculated for another g than the discharge

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 85e12f4..8ce9901 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -693,6 +693,7 @@ def calculate_crest_freeboard_Rc(
     gamma_beta: float | npt.NDArray[np.float64] = np.nan,
     design_calculation: bool = True,
     include_influence_wind: bool = False,
+    g: float = 9.81,
 ) -> tuple[float | npt.NDArray[np.float64], bool | npt.NDArray[np.bool]]:
     """Calculate the crest freeboard Rc with the Van Gent et al. (2025) formula.
 
@@ -735,6 +736,8 @@ def calculate_crest_freeboard_Rc(
         Use the 95% confidence level for design calculations, by default True
     include_influence_wind : bool, optional
         Include influence of wind on wave overtopping, by default False
+    g : float, optional
+        Gravitational constant (m/s^2), by default 9.81
 
     Returns
     -------
@@ -760,6 +763,7 @@ def calculate_crest_freeboard_Rc(
         gamma_beta=gamma_beta,
         design_calculation=design_calculation,
         include_influence_wind=include_influence_wind,
+        g=g,
     )
 
     Rc = Rc_diml * Hm0
-- 
2.43.0


From 851a81b19eca41e3b21b9028aa2b099adafb4a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:21 +0000
Subject: [PATCH 11/43] fix: Van Gent (2021) returned nan without crossing seas
 when Hm0_swell was left out

---
 .../functions/hydraulic/wave_overtopping/vangent2021_caisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index a7315c2..48e6ebc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -201,6 +201,7 @@ def calculate_dimensionless_overtopping_discharge_q(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
@@ -400,6 +401,7 @@ def calculate_dimensionless_crest_freeboard(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
-- 
2.43.0


From 999c415fd88dd576a7bcd774baef5cef67b22062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:05 +0000
Subject: [PATCH 12/43] fix: oblique crest wall forces (Van Gent & Van der
 Werf, 2019) could become negative

---
 .../structural/forces_crestwall/vangentvanderwerf2019.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py b/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
index e1cf5ab..a91242b 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
@@ -418,7 +418,7 @@ def calculate_FH2p_oblique(
         z2p=z2p, Ac=Ac, beta=beta
     )
 
-    FH2p_oblique = gamma_FH_beta * FH2p_perpendicular
+    FH2p_oblique = np.maximum(gamma_FH_beta * FH2p_perpendicular, 0.0)
 
     check_validity(Hm0=Hm0, Ac=Ac, Rc=Rc, beta=beta)
 
@@ -636,7 +636,7 @@ def calculate_FV2p_oblique(
         z2p=z2p, Ac=Ac, beta=beta
     )
 
-    FV2p_oblique = gamma_FV_beta * FV2p_perpendicular
+    FV2p_oblique = np.maximum(gamma_FV_beta * FV2p_perpendicular, 0.0)
 
     check_validity(Hm0=Hm0, Ac=Ac, beta=beta, Fb=Fb)
 
-- 
2.43.0


From aa193e646f4ec6ee60969035bbb90710901b1071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:12 +0000
Subject: [PATCH 13/43] fix: Hudson (1959) damage factors raised IndexError for
 a damage percentage of 100

---
 .../functions/structural/stability_rock_armour/hudson1959.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
index d8deb79..8b7cdf3 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
@@ -138,6 +138,7 @@ def lookup_table_damage_factors(
     mult_factors_smooth = np.array([1.0, 1.0, 1.08, 1.19, 1.27, 1.37, 1.47, 1.56, 1.56])
 
     ind = np.searchsorted(percentages, damage_percentage, "right")
+    ind = np.minimum(ind, len(percentages) - 1)
     if rock_type.lower().strip() == "rough":
         factor = mult_factors_rough[ind]
     elif rock_type.lower().strip() == "smooth":
-- 
2.43.0


From ac7517f5a3e91e3de0449bb599d63d58394c5429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:18 +0000
Subject: [PATCH 14/43] fix: Jumelet et al. (2024) wave height raised
 ValueError for an integer wave period

---
 .../functions/structural/stability_rock_armour/jumelet2024.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
index dc69e38..f748190 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
@@ -294,7 +294,7 @@ def calculate_significant_wave_height_Hs(
             * np.power(S, 0.2)
             * np.power(N_plunging, -0.1)
             * cot_alpha
-            * np.sqrt((2 * np.pi / g) * np.power(Tmm10, -2))
+            * np.sqrt((2 * np.pi / g) * np.power(Tmm10, -2.0))
             * Delta
             * Dn50,
             2.0,
-- 
2.43.0


From 5261f002e7a0e64010f399ed557a0225803ee470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:36 +0000
Subject: [PATCH 15/43] fix: Van Gent (2007) wave height divided by zero when
 the crest element does not protrude at the front

---
 .../functions/structural/stability_rock_rear/vangent2007.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 2fd7e39..23a6adb 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -365,7 +365,7 @@ def calculate_maximum_significant_wave_height_Hs(
 
     Dn50 = core_physics.check_usage_Dn50_or_M50(Dn50, M50, rho_rock)
 
-    Hs_i1 = Rc2_front
+    Hs_i1 = np.where(np.asarray(Rc2_front) > 0.0, Rc2_front, Rc)
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-- 
2.43.0


From 451f5d3bc6705ce8c99cf7a4d65a0d32c853d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:43 +0000
Subject: [PATCH 16/43] fix: Goda (1967) transmission for arrays was truncated
 to integers when the first element is 1

---
 .../functions/hydraulic/wave_transmission/goda1967_caisson.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
index a645d08..952eb1d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
@@ -51,7 +51,7 @@ def calculate_wave_transmission_Kt(
         Rc_over_Hsi = Rc / Hsi
 
         if Rc_over_Hsi <= -1 * alpha_1 - beta_1:
-            Kt = 1
+            Kt = 1.0
         elif Rc_over_Hsi <= alpha_1 - beta_1:
             Kt = 0.5 * (1 - np.sin((np.pi / 2) * ((Rc_over_Hsi + beta_1) / (alpha_1))))
         else:
-- 
2.43.0


From f8925e44f5d280b0445eb63a856ab4794402bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:04 +0000
Subject: [PATCH 17/43] fix: local wavelength dropped all but the first of an
 array of wave periods

---
 .../functions/core_physics.py                 | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_physics.py b/deltares_coastal_structures_toolbox/functions/core_physics.py
index d6e7737..f79dd56 100644
--- a/deltares_coastal_structures_toolbox/functions/core_physics.py
+++ b/deltares_coastal_structures_toolbox/functions/core_physics.py
@@ -394,17 +394,14 @@ def calculate_local_wavelength(
     """
 
     # implementation of disper handles arrays for T, but not for h, hence this implementation
-    if isinstance(h, (float, int)):
-        k = dispersion.disper(w=((2 * np.pi) / T), h=h, g=g)[0]
-    elif len(h) > 1 and isinstance(T, float):
-        k = np.array([])
-        for hsub in h:
-            k = np.append(k, dispersion.disper(w=((2 * np.pi) / T), h=hsub, g=g))
-    elif len(h) > 1 and len(h) == len(T):
-        k = np.array([])
-        for hsub, Tsub in zip(h, T):
-            k = np.append(k, dispersion.disper(w=((2 * np.pi) / Tsub), h=hsub, g=g))
-
-    L = (2 * np.pi) / k
+    T_all, h_all, g_all = np.broadcast_arrays(T, h, g)
+    k = np.array(
+        [
+            dispersion.disper(w=((2 * np.pi) / Tsub), h=hsub, g=gsub)[0]
+            for Tsub, hsub, gsub in zip(T_all.flat, h_all.flat, g_all.flat)
+        ]
+    ).reshape(T_all.shape)
+
+    L = (2 * np.pi) / k[()]
 
     return L
-- 
2.43.0


From 610e995de2a7dbc7f467decd1dc388c58388cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:15 +0000
Subject: [PATCH 18/43] fix: Etemad-Shahidi et al. (2021) toe validity check
 raised TypeError and skipped most parameters

---
 .../stability_toe_berm/etemadshahidi2021.py   | 49 +++++++++++++++++--
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index fd13f24..77e3b1f 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -62,7 +62,7 @@ def check_validity(
         )
 
     if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Tmm10)):
-        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, Tmm10=Tmm10)
+        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10)
         core_utility.check_variable_validity_range(
             "Wave steepness sm-1,0",
             "Etemad-Shahidi et al. (2021)",
@@ -98,7 +98,7 @@ def check_validity(
             23.40,
         )
 
-    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(ht)):
+    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Bt)):
         core_utility.check_variable_validity_range(
             "Relative toe width Bt/Hs",
             "Etemad-Shahidi et al. (2021)",
@@ -116,7 +116,11 @@ def check_validity(
             3.0,
         )
 
-    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Dn50)):
+    if (
+        not np.any(np.isnan(Hs))
+        and not np.any(np.isnan(Dn50))
+        and not np.any(np.isnan(rho_armour))
+    ):
         Ns = core_physics.calculate_stability_number_Ns(
             H=Hs, D=Dn50, rho_rock=rho_armour, rho_water=rho_water
         )
@@ -248,7 +252,18 @@ def calculate_damage_Nod(
         1.0 / c5,
     )
 
-    check_validity(Hs=Hs, ht=ht)
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
 
     return Nod
 
@@ -338,7 +353,18 @@ def calculate_nominal_diameter_Dn50(
         -1.0,
     )
 
-    check_validity(Hs=Hs, ht=ht)
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
 
     return Dn50
 
@@ -451,4 +477,17 @@ def calculate_significant_wave_height_Hs(
 
         smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10, g=g)
 
+    check_validity(
+        Hs=Hs,
+        Tmm10=Tmm10,
+        h=h,
+        ht=ht,
+        Bt=Bt,
+        Dn50=Dn50,
+        m=m,
+        Nod=Nod,
+        rho_armour=rho_rock,
+        rho_water=rho_water,
+    )
+
     return Hs
-- 
2.43.0


From 953267c44185e6bfa6f3ed90e15ec89e5e6761bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:23 +0000
Subject: [PATCH 19/43] fix: Etemad-Shahidi et al. (2021) toe wave height
 ignored the maximum number of iterations

---
 .../functions/structural/stability_toe_berm/etemadshahidi2021.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index 77e3b1f..960819b 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -476,6 +476,7 @@ def calculate_significant_wave_height_Hs(
         Hs_prev = Hs
 
         smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10, g=g)
+        n_iter += 1
 
     check_validity(
         Hs=Hs,
-- 
2.43.0


From 27ef08c37764e874697267847efc9000a2c2d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:31 +0000
Subject: [PATCH 20/43] fix: Van der Meer (1998) validity check mislabelled
 quantities and multiplied by Dn50 in the stability number

---
 .../structural/stability_toe_berm/vandermeer1998.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
index 57e7cf1..53e4f7c 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
@@ -42,7 +42,7 @@ def check_validity(
 
     if not np.any(np.isnan(Hs)):
         core_utility.check_variable_validity_range(
-            "Relative toe height (h)",
+            "Wave height Hs",
             "van der Meer (1998)",
             Hs,
             0.01,
@@ -51,7 +51,7 @@ def check_validity(
 
     if not np.any(np.isnan(ht)) and not np.any(np.isnan(h)):
         core_utility.check_variable_validity_range(
-            "Relative toe height (Dn50)",
+            "Relative toe height (h)",
             "van der Meer (1998)",
             ht / h,
             0.4,
@@ -76,7 +76,7 @@ def check_validity(
         core_utility.check_variable_validity_range(
             "Nod vs Ns",
             "van der Meer (1998)",
-            (Nod**-0.15) * (Hs / Delta * Dn50),
+            (Nod**-0.15) * (Hs / (Delta * Dn50)),
             2,
             np.inf,
         )
-- 
2.43.0


From 0e42d27e445b9ed9cc7c338c6d51377738eadf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:38 +0000
Subject: [PATCH 21/43] fix: Van der Meer (1998) depth above the toe raised
 ValueError for arrays

---
 .../structural/stability_toe_berm/vandermeer1998.py          | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
index 53e4f7c..bd29a60 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
@@ -272,10 +272,7 @@ def calculate_depth_above_toe_ht(
     )
 
     ht = (((Hs * Nod**-0.15) / (Delta * Dn50)) - 2) / 6.2
-    if ht > 0:
-        ht = ht ** (1 / 2.7) * h
-    else:
-        ht = np.nan
+    ht = np.where(ht > 0, ht, np.nan)[()] ** (1 / 2.7) * h
 
     check_validity(Hs=Hs, ht=ht, h=h, Dn50=Dn50, Nod=Nod, Delta=Delta)
 
-- 
2.43.0


From 15fa815ce87da432e33152595cb129f9bf3f2a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:20 +0000
Subject: [PATCH 22/43] fix: Van Gent et al. (2025) validity check compared Rc
 instead of Gc and ignored the berm without Rc

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 8ce9901..d1d6a13 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -135,12 +135,12 @@ def check_validity_range(
         core_utility.check_variable_validity_range(
             "Non-dimensional armour width in front of crest wall Gc / Hm0",
             "Van Gent et al. (2025)",
-            Rc / Hm0,
+            Gc / Hm0,
             0.6,
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B_berm)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm width B / Hm0",
             "Van Gent et al. (2025)",
@@ -149,7 +149,7 @@ def check_validity_range(
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(db)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm height db / Hm0",
             "Van Gent et al. (2025)",
-- 
2.43.0


From 9caa27add6f85105f6703b62461090c3ebb93cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:28 +0000
Subject: [PATCH 23/43] fix: Van Gent (2024) set-up validity check skipped the
 crest width when hc is not given

---
 .../functions/hydraulic/wave_transmission/vangent2024_setup.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
index 05958f8..3ed4f18 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
@@ -85,7 +85,7 @@ def check_validity_range(
                     3.0,
                 )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(hc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B)):
         match structure_type:
             case "permeable":
                 core_utility.check_variable_validity_range(
-- 
2.43.0


From 12bed30d2db6211cc14bdc89904d4aee44acb5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:52 +0000
Subject: [PATCH 24/43] fix: De Ridder et al. (2024, 2026) never checked the
 short wave steepness against the validity range

---
 .../functions/hydraulic/wave_overtopping/deridder2024.py      | 4 ++++
 .../functions/hydraulic/wave_overtopping/deridder2026.py      | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index d8a3fdc..0232024 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -198,6 +198,7 @@ def calculate_crest_freeboard_discharge_q_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
@@ -246,6 +247,7 @@ def calculate_dimensionless_crest_freeboard_discharge_q_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc_diml * Hm0,
     )
@@ -369,6 +371,7 @@ def calculate_dimensionless_overtopping_discharge_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
     )
@@ -414,6 +417,7 @@ def calculate_dimensionless_overtopping_discharge_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
index b1086c8..806b2c3 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
@@ -351,6 +351,7 @@ def calculate_dimensionless_overtopping_discharge_eq28(
     )
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         theta=theta,
@@ -420,6 +421,7 @@ def calculate_dimensionless_overtopping_discharge_eq32(
 
     check_validity_range(
         Hm0=Hm0_HF,
+        Hm0_HF=Hm0_HF,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0_HF) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
-- 
2.43.0


From b780f7758cf679408d98ed18c683e007bf36db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:00 +0000
Subject: [PATCH 25/43] fix: Van Gent et al. (2023) wave transmission never
 checked the validity range

---
 .../functions/hydraulic/wave_transmission/vangent2023.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
index c8b61b1..2b56513 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
@@ -161,4 +161,8 @@ def calculate_wave_transmission_Kt(
 
     Kt = c1 * np.tanh(-((Rc / Hm0) + c2 * np.power(B / Lmm10, c3) + c4)) + c5
 
+    check_validity_range(
+        Hm0=Hm0, Tmm10=Tmm10, Rc=Rc, B=B, structure_type=structure_type
+    )
+
     return Kt
-- 
2.43.0


From b1c729d520dae4cf1f8d2129fa9e4feb2375c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:20 +0000
Subject: [PATCH 26/43] fix: Scaravaglione et al. (2025) and modified Van der
 Meer validity checks ignored rho_water

---
 .../structural/stability_rock_armour/scaravaglione2025.py      | 3 +++
 .../stability_rock_armour/vandermeer1988_modified.py           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
index c21e5a2..dbe10f9 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
@@ -204,6 +204,7 @@ def calculate_damage_number_S(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
@@ -280,6 +281,7 @@ def calculate_nominal_rock_diameter_Dn50(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -368,5 +370,6 @@ def calculate_significant_wave_height_Hm0(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hm0
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
index cd3b905..f6c1cef 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
@@ -218,6 +218,7 @@ def calculate_damage_number_S(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
@@ -320,6 +321,7 @@ def calculate_nominal_rock_diameter_Dn50(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -443,5 +445,6 @@ def calculate_significant_wave_height_Hs(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hs
-- 
2.43.0


From 4d2c75ce5593b882ab152d4946e7b010a6d7673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:29 +0000
Subject: [PATCH 27/43] fix: validity range check raised TypeError for numpy
 integers and multi-dimensional arrays

---
 .../functions/core_utility.py                               | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_utility.py b/deltares_coastal_structures_toolbox/functions/core_utility.py
index 3d02426..82189bb 100644
--- a/deltares_coastal_structures_toolbox/functions/core_utility.py
+++ b/deltares_coastal_structures_toolbox/functions/core_utility.py
@@ -32,11 +32,7 @@ def check_variable_validity_range(
         A boolean with True if the value is within the validity range, False otherwise.
     """
 
-    if isinstance(values, np.ndarray):
-        values = values.tolist()
-
-    if isinstance(values, (int, float)):
-        values = [values]
+    values = np.ravel(values).tolist()
 
     is_valid = []
     for value in values:
-- 
2.43.0


From 74e370a61be2df3b0548c4c9e353414cae559b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:58 +0000
Subject: [PATCH 28/43] fix: Goda (1985) never checked the width of the toe
 berm against the validity range

---
 .../functions/structural/forces_caisson/goda1985.py       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
index 610a210..e8116c2 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
@@ -348,7 +348,13 @@ def calculate_forces_and_reactions(
 
     # check validity range
     is_valid = check_validity_range(
-        beta=beta, cota_seabed=cota_seabed, Tmax=Tmax, tup=tup, Bup=Bup, h_s=h_s
+        beta=beta,
+        cota_seabed=cota_seabed,
+        Tmax=Tmax,
+        tup=tup,
+        Bup=Bup,
+        h_s=h_s,
+        B1=B1,
     )
 
     if not return_dict:
-- 
2.43.0


From 0d7d4d2141089651b3c2048548db5c0415e08a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:07 +0000
Subject: [PATCH 29/43] fix: Goda (1985) caisson forces raised ValueError for
 arrays

---
 .../structural/forces_caisson/goda1985.py     | 101 +++++++-----------
 1 file changed, 38 insertions(+), 63 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
index e8116c2..1365f35 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_caisson/goda1985.py
@@ -90,7 +90,7 @@ def check_impulsive_breaking(
     Hsi: float | npt.NDArray[np.float64] = np.nan,
     d: float | npt.NDArray[np.float64] = np.nan,
     h_s: float | npt.NDArray[np.float64] = np.nan,
-) -> bool:
+) -> bool | npt.NDArray[np.bool]:
     """Check whether impulsive breaking occurs
 
     Parameters
@@ -116,58 +116,40 @@ def check_impulsive_breaking(
 
     Returns
     -------
-    bool
+    bool | npt.NDArray[np.bool]
         Boolean indicating whether impulsive breaking occurs
     """
 
-    all_is_nans = [
-        np.isnan(beta),
-        np.isnan(B1),
-        np.isnan(L),
-        np.isnan(cota_seabed),
-        np.isnan(offshore_wave_steepness),
-        np.isnan(Rc),
-        np.isnan(Hsi),
-    ]
+    # conditions with a parameter that is nan are never met
+    condition_1 = (
+        np.less(beta, 20)
+        & np.less(np.divide(B1, L), 0.02)
+        & np.less(cota_seabed, 50)
+        & np.less(offshore_wave_steepness, 0.03)
+        & np.greater(np.divide(Rc, Hsi), 0.3)
+    )
+    core_utility.check_variable_validity_range(
+        "Impulsive breaking condition 1", "Goda (2000)", condition_1, False, False
+    )
 
-    if not any(all_is_nans):
-        if (
-            beta < 20
-            and B1 / L < 0.02
-            and cota_seabed < 50
-            and offshore_wave_steepness < 0.03
-            and Rc / Hsi > 0.3
-        ):
-
-            core_utility.check_variable_validity_range(
-                "Impulsive breaking condition 1", "Goda (2000)", True, False, False
-            )
-            return True
-
-    all_is_nans = [
-        np.isnan(beta),
-        np.isnan(B1),
-        np.isnan(L),
-        np.isnan(d),
-        np.isnan(h_s),
-        np.isnan(Rc),
-        np.isnan(Hsi),
-    ]
+    condition_2 = (
+        ~condition_1
+        & np.less(beta, 20)
+        & np.less(0.02, np.divide(B1, L))
+        & np.less(np.divide(B1, L), 0.3)
+        & np.less(np.divide(d, h_s), 0.6)
+        & np.greater(np.divide(Rc, Hsi), 0.3)
+    )
+    core_utility.check_variable_validity_range(
+        "Impulsive breaking condition 2", "Goda (2000)", condition_2, False, False
+    )
+
+    impulsive_breaking = condition_1 | condition_2
 
-    if not any(all_is_nans):
-        if (
-            beta < 20
-            and 0.02 < B1 / L
-            and B1 / L < 0.3
-            and d / h_s < 0.6
-            and Rc / Hsi > 0.3
-        ):
-            core_utility.check_variable_validity_range(
-                "Impulsive breaking condition 2", "Goda (2000)", True, False, False
-            )
-            return True
+    if np.ndim(impulsive_breaking) == 0:
+        return bool(impulsive_breaking)
 
-    return False
+    return impulsive_breaking
 
 
 def calculate_forces_and_reactions(
@@ -544,10 +526,7 @@ def calculate_pressures_and_forces(
 
     # beta, if not 0 should be rotated by 15 degrees towards the normal of the breakwater according to Goda (2000)
     beta = np.abs(beta)
-    if beta >= 15:
-        beta_use = beta - 15
-    elif beta < 15:
-        beta_use = 0
+    beta_use = np.maximum(beta - 15, 0)
     cos_beta = np.cos(np.deg2rad(beta_use))
 
     h_5Hs = h_s + (Hsi * 5) / cota_seabed
@@ -572,10 +551,7 @@ def calculate_pressures_and_forces(
     p1 = 0.5 * (1 + cos_beta) * (alpha_1 + alpha_2 * cos_beta**2) * rho_water * g * HD
     p2 = p1 / (np.cosh(2 * np.pi * h_s / L))
     p3 = alpha_3 * p1
-    if etastar > Rc:
-        p4 = p1 * (1 - (Rc / etastar))
-    else:
-        p4 = 0
+    p4 = np.where(etastar > Rc, p1 * (1 - (Rc / etastar)), 0)[()]
 
     hstar_c = np.minimum(etastar, Rc)
 
@@ -592,8 +568,7 @@ def calculate_pressures_and_forces(
     FU = 0.5 * pu * Bup
     MU = (2 / 3) * FU * Bup
 
-    impulsive_breaking = False
-    if check_impulsive_breaking(
+    impulsive_breaking = check_impulsive_breaking(
         beta=beta,
         B1=B1,
         cota_seabed=cota_seabed,
@@ -603,8 +578,7 @@ def calculate_pressures_and_forces(
         L=L,
         offshore_wave_steepness=offshore_wave_steepness,
         Rc=Rc,
-    ):
-        impulsive_breaking = True
+    )
 
     if not return_dict:
         return (
@@ -813,9 +787,10 @@ def calculate_bearing_pressures(
     We = Wup - FU
     te = Me / We
 
-    if te <= 1 / 3 * Bup:
-        pe = (2 * We) / (3 * te)
-    else:
-        pe = (2 * We / Bup) * (2 - 3 * (te / Bup))
+    pe = np.where(
+        te <= 1 / 3 * Bup,
+        (2 * We) / (3 * te),
+        (2 * We / Bup) * (2 - 3 * (te / Bup)),
+    )[()]
 
     return pe, Me, We, te
-- 
2.43.0


From 390706ab53ac0e13148a017b12810c8a40fbb2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:14 +0000
Subject: [PATCH 30/43] fix: Takahashi et al. (1990) wave height failed when
 the solution is at the edge of the search interval

---
 .../stability_toe_berm/takahashi1990_caisson.py          | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index a466f3c..a20afc2 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -183,6 +183,7 @@ def calculate_significant_wave_height_Hs(
         step=Hs_start / 20,
         stop=np.maximum(Hs_start, Hs_new),
     )
+    Hs_table_in = np.append(Hs_table_in, np.maximum(Hs_start, Hs_new))
     Hs_table_out = np.array([])
 
     for Hsin in Hs_table_in:
@@ -196,12 +197,14 @@ def calculate_significant_wave_height_Hs(
 
     ind = np.argmin(np.abs(Hs_table_in - Hs_table_out))
 
+    ind_prev = np.maximum(ind - 1, 0)
+    ind_next = np.minimum(ind + 1, len(Hs_table_in) - 1)
     fromto = [
-        np.minimum(Hs_table_in[ind - 1], Hs_table_out[ind - 1]),
-        np.maximum(Hs_table_in[ind + 1], Hs_table_out[ind + 1]),
+        np.minimum(Hs_table_in[ind_prev], Hs_table_out[ind_prev]),
+        np.maximum(Hs_table_in[ind_next], Hs_table_out[ind_next]),
     ]
 
-    Hs_table_in = np.arange(start=fromto[0], stop=fromto[1], step=0.0005)
+    Hs_table_in = np.arange(start=fromto[0], stop=fromto[1] + 0.0005, step=0.0005)
     Hs_table_out = np.array([])
 
     for Hsin in Hs_table_in:
-- 
2.43.0


From cb8fef0c6a8e418d409e1e206ade215eb5a09048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:31 +0000
Subject: [PATCH 31/43] fix: Takahashi et al. (1990) depth above the toe never
 returned when the toe is stable at every depth

---
 .../stability_toe_berm/takahashi1990_caisson.py          | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index a20afc2..4930e50 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -295,7 +295,10 @@ def calculate_significant_depth_above_toe_hacc(
 
     firsteval = Ns < Ns_out
 
-    while firsteval == (Ns < Ns_out):
+    # in water deeper than the deep water wave length, Ns_out only increases with the depth
+    hacc_max = g * np.power(Tp, 2) / (2 * np.pi)
+
+    while firsteval == (Ns < Ns_out) and hacc_in <= hacc_max:
         hacc_in += dht
         Ns_out = calculate_stability_number_Ns(
             Hs=Hs, Tp=Tp, hacc=hacc_in, Bt=Bt, beta=beta, g=g
@@ -304,6 +307,10 @@ def calculate_significant_depth_above_toe_hacc(
         hacc_array = np.append(hacc_array, hacc_in)
         Ns_array = np.append(Ns_array, Ns_out)
 
+    if firsteval == (Ns < Ns_out):
+        # the toe is stable at every depth, there is no depth at the limit of stability
+        return np.nan
+
     hacc = hacc_array[-1]
 
     # make more precise if needed, precision of 1mm is deemed sufficient:
-- 
2.43.0


From d4af50b76d9f5932376a8a6681adf89871f1c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:49 +0000
Subject: [PATCH 32/43] fix: overtopping input files could not be written for
 an integer beta or for arrays with a single beta

---
 .../wave_overtopping/denbieman2021.py         | 43 +++++++++----------
 .../hydraulic/wave_overtopping/vangent2007.py | 41 +++++++++---------
 2 files changed, 41 insertions(+), 43 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
index 76d2ef1..a7e7f5c 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/denbieman2021.py
@@ -80,32 +80,31 @@ def write_input_file_XGB_Overtopping(
         Name of the input file, by default "input_XGB_Overtopping"
     """
 
-    if isinstance(beta, float):
+    input_data = {
+        "b": beta,
+        "h": h,
+        "Hm0 toe": Hm0,
+        "Tm-1,0 toe": Tmm10,
+        "ht": ht,
+        "Bt": Bt,
+        "hb": db,
+        "B": B_berm,
+        "Rc": Rc,
+        "Ac": Ac,
+        "Gc": Gc,
+        "cotad": cot_alpha_down,
+        "cotau": cot_alpha_up,
+        "gf_d": gamma_f_down,
+        "gf_u": gamma_f_up,
+        "tanaf": tan_alpha_f,
+    }
+
+    if all(np.ndim(values) == 0 for values in input_data.values()):
         index = [0]
     else:
         index = None
 
-    input_dataframe = pd.DataFrame(
-        data={
-            "b": beta,
-            "h": h,
-            "Hm0 toe": Hm0,
-            "Tm-1,0 toe": Tmm10,
-            "ht": ht,
-            "Bt": Bt,
-            "hb": db,
-            "B": B_berm,
-            "Rc": Rc,
-            "Ac": Ac,
-            "Gc": Gc,
-            "cotad": cot_alpha_down,
-            "cotau": cot_alpha_up,
-            "gf_d": gamma_f_down,
-            "gf_u": gamma_f_up,
-            "tanaf": tan_alpha_f,
-        },
-        index=index,
-    )
+    input_dataframe = pd.DataFrame(data=input_data, index=index)
     input_dataframe.to_csv(os.path.join(output_dir, f"{file_name}.csv"), sep=";")
 
     return
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
index 8409d70..c3f0c12 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2007.py
@@ -123,31 +123,30 @@ def write_input_file_NN_Overtopping(
             + "------------------------------------------------\n"
         )
 
-    if isinstance(beta, float):
+    input_data = {
+        "b": beta,
+        "h": h,
+        "Hm0 toe": Hm0,
+        "Tm-1,0 toe": Tmm10,
+        "ht": ht,
+        "Bt": Bt,
+        "gf": gamma_f,
+        "cotad": cot_alpha_down,
+        "cotau": cot_alpha_up,
+        "Rc": Rc,
+        "B": B_berm,
+        "hb": db,
+        "tanaB": tan_alpha_B,
+        "Ac": Ac,
+        "Gc": Gc,
+    }
+
+    if all(np.ndim(values) == 0 for values in input_data.values()):
         index = [0]
     else:
         index = None
 
-    input_dataframe = pd.DataFrame(
-        data={
-            "b": beta,
-            "h": h,
-            "Hm0 toe": Hm0,
-            "Tm-1,0 toe": Tmm10,
-            "ht": ht,
-            "Bt": Bt,
-            "gf": gamma_f,
-            "cotad": cot_alpha_down,
-            "cotau": cot_alpha_up,
-            "Rc": Rc,
-            "B": B_berm,
-            "hb": db,
-            "tanaB": tan_alpha_B,
-            "Ac": Ac,
-            "Gc": Gc,
-        },
-        index=index,
-    )
+    input_dataframe = pd.DataFrame(data=input_data, index=index)
     input_dataframe.to_csv(
         os.path.join(output_dir, f"{file_name}.inp"),
         sep=" ",
-- 
2.43.0


From 3be01f70de1b49c6b07e20751194e42e1239f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:19 +0000
Subject: [PATCH 33/43] fix: TAW (2002) run-up and overtopping with a berm or
 gamma_v raised ValueError for arrays

---
 .../hydraulic/wave_overtopping/taw2002.py        | 16 ++++++++--------
 .../functions/hydraulic/wave_runup/taw2002.py    | 10 +++++-----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 36fdea5..bf8c79d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -294,7 +294,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         c1 = 4.3
         c3 = 2.3
 
-    if sigma == 0:
+    if np.all(np.equal(sigma, 0)):
         cor1 = 0
         cor3 = 0
     else:
@@ -341,7 +341,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -380,8 +380,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         Hm0=Hm0, Rc=Rc, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj
     )
 
-    q_diml = np.min([q_diml_eq24, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eq24, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eq24, q_diml_max)
+    max_reached = np.minimum(q_diml_eq24, q_diml_max) == q_diml_max
 
     check_validity_range(
         Hm0=Hm0,
@@ -668,7 +668,7 @@ def calculate_dimensionless_crest_freeboard(
         c1 = 4.3
         c3 = 2.3
 
-    if sigma == 0:
+    if np.all(np.equal(sigma, 0)):
         cor1 = 0
         cor3 = 0
     else:
@@ -715,7 +715,7 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -766,8 +766,8 @@ def calculate_dimensionless_crest_freeboard(
         g=g,
     )
 
-    Rc_diml = np.min([Rc_diml_eq24, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml_eq24, Rc_diml_max], axis=0) == Rc_diml_max
+    Rc_diml = np.minimum(Rc_diml_eq24, Rc_diml_max)
+    max_reached = np.minimum(Rc_diml_eq24, Rc_diml_max) == Rc_diml_max
 
     check_validity_range(
         Hm0=Hm0,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index fa1bdf4..229d400 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -297,7 +297,7 @@ def calculate_dimensionless_wave_runup_height_z2p(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -329,8 +329,8 @@ def calculate_dimensionless_wave_runup_height_z2p(
     z2p_diml_eq3a = c1 * gamma_b * gamma_f_adj * gamma_beta * ksi_mm10
     z2p_diml_eq3b = c4 * gamma_f_adj * gamma_beta * (c2 - c3 / np.sqrt(ksi_mm10))
 
-    z2p_diml = np.min([z2p_diml_eq3a, z2p_diml_eq3b], axis=0)
-    max_reached = np.min([z2p_diml_eq3a, z2p_diml_eq3b], axis=0) == z2p_diml_eq3b
+    z2p_diml = np.minimum(z2p_diml_eq3a, z2p_diml_eq3b)
+    max_reached = np.minimum(z2p_diml_eq3a, z2p_diml_eq3b) == z2p_diml_eq3b
 
     check_validity_range(
         Hm0=Hm0,
@@ -681,7 +681,7 @@ def iteration_procedure_gamma_b(
         The influence factor for a berm gamma_b (-)
     """
 
-    if B_berm == 0.0 or L_berm == 0.0:
+    if np.all(np.equal(B_berm, 0.0) | np.equal(L_berm, 0.0)):
         gamma_b = 1.0
     else:
         z2p_i1, _ = calculate_wave_runup_height_z2p(
@@ -762,7 +762,7 @@ def calculate_influence_berm_gamma_b(
     )
     rB = B_berm / L_berm
 
-    gamma_b = np.max([np.min([1.0 - rB * (1.0 - rdh), 1.0]), 0.6])
+    gamma_b = np.maximum(np.minimum(1.0 - rB * (1.0 - rdh), 1.0), 0.6)
     return gamma_b
 
 
-- 
2.43.0


From 17668067b01fcda96617076e5496ee6db24c8f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:25 +0000
Subject: [PATCH 34/43] fix: EurOtop (2018) raised ValueError for arrays of
 gamma_f or gamma_v

---
 .../hydraulic/wave_overtopping/eurotop2018.py          |  8 ++++----
 .../functions/hydraulic/wave_runup/eurotop2018.py      | 10 ++++------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 8abc27b..597ee83 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -313,8 +313,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         c3=c3,
     )
 
-    q_diml = np.min([q_diml_eq510, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eq510, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eq510, q_diml_max)
+    max_reached = np.minimum(q_diml_eq510, q_diml_max) == q_diml_max
 
     return q_diml, max_reached
 
@@ -733,8 +733,8 @@ def calculate_dimensionless_crest_freeboard(
         g=g,
     )
 
-    Rc_diml = np.min([Rc_diml_eq510, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml_eq510, Rc_diml_max], axis=0) == Rc_diml_max
+    Rc_diml = np.minimum(Rc_diml_eq510, Rc_diml_max)
+    max_reached = np.minimum(Rc_diml_eq510, Rc_diml_max) == Rc_diml_max
 
     return Rc_diml, max_reached
 
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
index 6012533..1864007 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
@@ -275,12 +275,10 @@ def calculate_influence_oblique_waves_gamma_beta(
         The influence factor for oblique wave incidence gamma_beta (-)
     """
 
-    if gamma_f > gamma_f_crit:
-        # Structure slope is smooth
-        c_gamma_beta = c_gamma_beta_smooth
-    else:
-        # Structure slope is rough
-        c_gamma_beta = c_gamma_beta_rough
+    # Structure slope is either smooth or rough
+    c_gamma_beta = np.where(
+        gamma_f > gamma_f_crit, c_gamma_beta_smooth, c_gamma_beta_rough
+    )[()]
 
     gamma_beta = wave_runup_taw2002.calculate_influence_oblique_waves_gamma_beta(
         beta=beta,
-- 
2.43.0


From a077f0405f311936d206f48a371157faf28e6930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:31 +0000
Subject: [PATCH 35/43] fix: Van Gent (2001, 2021, 2025) raised ValueError for
 arrays

---
 .../wave_overtopping/vangent2021_caisson.py   |  8 +++----
 .../hydraulic/wave_overtopping/vangent2025.py | 22 +++++++++----------
 .../hydraulic/wave_runup/vangent2001.py       |  7 ++++--
 3 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index 48e6ebc..9c64f24 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -203,12 +203,12 @@ def calculate_dimensionless_overtopping_discharge_q(
         c_swell = 0.0
         Hm0_swell = 0.0
     else:
-        if np.isnan(Hm0_swell):
+        if np.any(np.isnan(Hm0_swell)):
             raise ValueError(
                 "Hm0_swell must be provided when calculating wave overtopping for crossing seas."
             )
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
             gamma_p=gamma_p,
@@ -403,12 +403,12 @@ def calculate_dimensionless_crest_freeboard(
         c_swell = 0.0
         Hm0_swell = 0.0
     else:
-        if np.isnan(Hm0_swell):
+        if np.any(np.isnan(Hm0_swell)):
             raise ValueError(
                 "Hm0_swell must be provided when calculating wave overtopping for crossing seas."
             )
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
             gamma_p=gamma_p,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index d1d6a13..b27f56c 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -331,14 +331,14 @@ def calculate_dimensionless_overtopping_discharge_q(
         Raise an error if gamma_f is not provided and Dn50 is not provided so it cannot be calculated.
     """
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
     ksi_mm10 = core_physics.calculate_Iribarren_number_ksi(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_b = calculate_influence_berm_gamma_b(
             Hm0=Hm0,
@@ -348,8 +348,8 @@ def calculate_dimensionless_overtopping_discharge_q(
             BL=Ac - db,
         )
 
-    if np.isnan(gamma_f):
-        if np.isnan(Dn50):
+    if np.all(np.isnan(gamma_f)):
+        if np.any(np.isnan(Dn50)):
             raise ValueError("Either gamma_f or Dn50 should be provided")
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
@@ -376,8 +376,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         gamma_beta=gamma_beta,
     )
 
-    q_diml = np.min([q_diml_eqB1, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eqB1, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eqB1, q_diml_max)
+    max_reached = np.minimum(q_diml_eqB1, q_diml_max) == q_diml_max
 
     if include_influence_wind:
         gamma_w = calculate_influence_wind_gamma_w(
@@ -852,14 +852,14 @@ def calculate_dimensionless_crest_freeboard(
         Raise an error if gamma_f is not provided and Dn50 is not provided so it cannot be calculated.
     """
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
     ksi_mm10 = core_physics.calculate_Iribarren_number_ksi(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         smm10 = core_physics.calculate_wave_steepness_s(Hm0, Tmm10)
         gamma_b = calculate_influence_berm_gamma_b(
             Hm0=Hm0,
@@ -869,8 +869,8 @@ def calculate_dimensionless_crest_freeboard(
             BL=Ac - db,
         )
 
-    if np.isnan(gamma_f):
-        if np.isnan(Dn50):
+    if np.all(np.isnan(gamma_f)):
+        if np.any(np.isnan(Dn50)):
             raise ValueError("Either gamma_f or Dn50 should be provided")
         smm10 = core_physics.calculate_wave_steepness_s(Hm0, Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
@@ -910,7 +910,7 @@ def calculate_dimensionless_crest_freeboard(
             g=g,
         )
 
-        Rc_diml = np.min([Rc_diml_eqB1, Rc_diml_max], axis=0)
+        Rc_diml = np.minimum(Rc_diml_eqB1, Rc_diml_max)
         max_reached = Rc_diml == Rc_diml_max
 
         if not include_influence_wind:
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
index bbafab7..dc0d98e 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
@@ -104,10 +104,13 @@ def calculate_wave_runup_height_z2p(
         Raise an error when both or neither Hm0 and Hs are provided.
     """
 
-    if (np.isnan(Hm0) and np.isnan(Hs)) or (not np.isnan(Hs) and not np.isnan(Hm0)):
+    Hm0_is_given = not np.all(np.isnan(Hm0))
+    Hs_is_given = not np.all(np.isnan(Hs))
+
+    if Hm0_is_given == Hs_is_given:
         raise ValueError("Either Hm0 or Hs should be provided")
 
-    if np.isnan(Hs) and not np.isnan(Hm0):
+    if Hm0_is_given:
         # Use coefficients for Hm0 instead of Hs
         c0 = 1.45
         c1 = 3.8
-- 
2.43.0


From 46fe1266fdc64619209ce13477071f0f29fdedc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:36 +0000
Subject: [PATCH 36/43] fix: Goda (1967) raised ValueError for arrays of the
 coefficients

---
 .../functions/hydraulic/wave_transmission/goda1967_caisson.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
index 952eb1d..deca113 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
@@ -44,6 +44,8 @@ def calculate_wave_transmission_Kt(
     check_is_array = [
         isinstance(Rc, np.ndarray),
         isinstance(Hsi, np.ndarray),
+        isinstance(alpha_1, np.ndarray),
+        isinstance(beta_1, np.ndarray),
     ]
 
     if not any(check_is_array):
-- 
2.43.0


From 6ba304d72e053623050a612911591ecfd144261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:41 +0000
Subject: [PATCH 37/43] fix: Xbloc and XblocPlus correction factors raised
 ValueError for arrays

---
 .../stability_concrete_armour/xbloc.py        | 44 ++++++++-----------
 .../stability_concrete_armour/xblocplus.py    | 25 +++++------
 2 files changed, 28 insertions(+), 41 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
index e064d88..ff2bdf4 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xbloc.py
@@ -210,15 +210,12 @@ def calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-    if cot_alpha <= 30 and cot_alpha > 20:
-        correction_factor = 1.1
-    elif cot_alpha <= 20 and cot_alpha > 15:
-        correction_factor = 1.25
-    elif cot_alpha <= 15 and cot_alpha > 10:
-        correction_factor = 1.5
-    elif cot_alpha <= 10:
-        correction_factor = 2.0
+    cot_alpha = np.asarray(cot_alpha)
+    correction_factor = np.select(
+        [cot_alpha <= 10, cot_alpha <= 15, cot_alpha <= 20, cot_alpha <= 30],
+        [2.0, 1.5, 1.25, 1.1],
+        default=1.0,
+    )[()]
 
     return correction_factor
 
@@ -271,12 +268,10 @@ def calculate_correctionfactor_unit_mass_M_by_relative_freeboard(
     correction_factor = float | npt.NDArray[np.float64]
         Correction factor applied on volume or mass
     """
-    correction_factor = 1.0
-
-    if rel_freeboard < 0.5:
-        correction_factor = 2.0
-    elif rel_freeboard < 1.0:
-        correction_factor = 1.5
+    rel_freeboard = np.asarray(rel_freeboard)
+    correction_factor = np.select(
+        [rel_freeboard < 0.5, rel_freeboard < 1.0], [2.0, 1.5], default=1.0
+    )[()]
 
     return correction_factor
 
@@ -297,12 +292,10 @@ def calculate_correctionfactor_unit_mass_M_by_rel_depth(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-
-    if rel_depth > 2.5:
-        correction_factor = 1.5
-    if rel_depth > 3.5:
-        correction_factor = 2.0
+    rel_depth = np.asarray(rel_depth)
+    correction_factor = np.select(
+        [rel_depth > 3.5, rel_depth > 2.5], [2.0, 1.5], default=1.0
+    )[()]
 
     return correction_factor
 
@@ -376,10 +369,9 @@ def calculate_correctionfactor_unit_mass_M_by_structure_slope(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-    if cot_alpha > 2 / 3:
-        correction_factor = 1.25
-    elif cot_alpha > 1 / 2:
-        correction_factor = 1.5
+    cot_alpha = np.asarray(cot_alpha)
+    correction_factor = np.select(
+        [cot_alpha > 2 / 3, cot_alpha > 1 / 2], [1.25, 1.5], default=1.0
+    )[()]
 
     return correction_factor
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
index c6a16aa..e9512f3 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/xblocplus.py
@@ -209,15 +209,12 @@ def calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed(
         Correction factor applied on volume or mass
     """
 
-    correction_factor = 1.0
-    if cot_alpha <= 30 and cot_alpha > 20:
-        correction_factor = 1.1
-    elif cot_alpha <= 20 and cot_alpha > 15:
-        correction_factor = 1.25
-    elif cot_alpha <= 15 and cot_alpha > 10:
-        correction_factor = 1.5
-    elif cot_alpha <= 10:
-        correction_factor = 2.0
+    cot_alpha = np.asarray(cot_alpha)
+    correction_factor = np.select(
+        [cot_alpha <= 10, cot_alpha <= 15, cot_alpha <= 20, cot_alpha <= 30],
+        [2.0, 1.5, 1.25, 1.1],
+        default=1.0,
+    )[()]
 
     return correction_factor
 
@@ -270,12 +267,10 @@ def calculate_correctionfactor_unit_mass_M_by_relative_freeboard(
     correction_factor = float | npt.NDArray[np.float64]
         Correction factor applied on volume or mass
     """
-    correction_factor = 1.0
-
-    if rel_freeboard < 0.5:
-        correction_factor = 1.5
-    elif rel_freeboard < 1.0:
-        correction_factor = 1.25
+    rel_freeboard = np.asarray(rel_freeboard)
+    correction_factor = np.select(
+        [rel_freeboard < 0.5, rel_freeboard < 1.0], [1.5, 1.25], default=1.0
+    )[()]
 
     return correction_factor
 
-- 
2.43.0


From d2effb9a64819d4daee9b5ffffee1fccd8268fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:09 +0000
Subject: [PATCH 38/43] fix: Takahashi et al. (1990) wave height and depth
 above the toe raised ValueError for arrays

---
 .../stability_toe_berm/takahashi1990_caisson.py      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index 4930e50..cb93d9f 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -164,6 +164,12 @@ def calculate_significant_wave_height_Hs(
         Incident wave height near the toe (m)
     """
 
+    inputs = (Dn50, Tp, hacc, Bt, rho_rock, rho_water, beta, g)
+    if any(np.ndim(value) > 0 for value in inputs):
+        # arrays, so vectorize this function
+        vfunc = np.vectorize(calculate_significant_wave_height_Hs, otypes=[float])
+        return vfunc(*inputs)
+
     Delta = core_physics.calculate_buoyant_density_Delta(
         rho_rock=rho_rock, rho_water=rho_water
     )
@@ -276,6 +282,12 @@ def calculate_significant_depth_above_toe_hacc(
         Water depth above the toe (m)
     """
 
+    inputs = (Dn50, Tp, Hs, Bt, rho_rock, rho_water, beta, g)
+    if any(np.ndim(value) > 0 for value in inputs):
+        # arrays, so vectorize this function
+        vfunc = np.vectorize(calculate_significant_depth_above_toe_hacc, otypes=[float])
+        return vfunc(*inputs)
+
     Delta = core_physics.calculate_buoyant_density_Delta(
         rho_rock=rho_rock, rho_water=rho_water
     )
-- 
2.43.0


From 1d590b40447eb6a254c5880ad62b60903e1d868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:23 +0000
Subject: [PATCH 39/43] fix: core-loc never checked the slope against its
 validity range

---
 .../stability_concrete_armour/core_loc_hudson1959.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
index 607e0e5..cd1d601 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
@@ -118,6 +118,8 @@ def calculate_unit_mass_M(
         alpha_Hs=alpha_Hs,
     )
 
+    check_validity_range(cot_alpha=cot_alpha)
+
     return M
 
 
@@ -178,6 +180,8 @@ def calculate_significant_wave_height_Hs(
         alpha_Hs=alpha_Hs,
     )
 
+    check_validity_range(cot_alpha=cot_alpha)
+
     return Hs
 
 
-- 
2.43.0


From e411aee6f328aab6e4f6197c4ae68c2beedda973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:29 +0000
Subject: [PATCH 40/43] fix: rear side Van Gent (2007) never checked the wave
 steepness range

---
 .../functions/structural/stability_rock_rear/vangent2007.py    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 23a6adb..996e06c 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -215,6 +215,7 @@ def calculate_damage_number_S(
     check_validity_range(
         Dn50=Dn50,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
@@ -293,6 +294,7 @@ def calculate_nominal_rock_diameter_Dn50(
     check_validity_range(
         S=S,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
@@ -399,6 +401,7 @@ def calculate_maximum_significant_wave_height_Hs(
     check_validity_range(
         S=S,
         Hs=Hs,
+        Tmm10=Tmm10,
         Rc=Rc,
         z1p=z1p,
         Rc2_front=Rc2_front,
-- 
2.43.0


From 2b427b3fbc0b80f412ae159a5176d683a95a1aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:51 +0000
Subject: [PATCH 41/43] fix: De Ridder et al. (2026) crest freeboard functions
 never checked the validity range

---
 .../wave_overtopping/deridder2026.py          | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
index 806b2c3..a0bee11 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
@@ -136,6 +136,8 @@ def calculate_crest_freeboard_discharge_q_eq28(
 
     Rc = Rc_diml * Hm0
 
+    check_validity_range(theta=theta)
+
     return Rc
 
 
@@ -183,6 +185,15 @@ def calculate_crest_freeboard_discharge_q_eq32(
         * Hm0_HF
     ) + 0.97 * Hm0_LF
 
+    check_validity_range(
+        Hm0=Hm0_HF,
+        Hm0_HF=Hm0_HF,
+        Tmm10_HF=np.sqrt((2 * np.pi * Hm0_HF) / smm10_HF / 9.81),
+        Rc=Rc,
+        Hm0_LF=Hm0_LF,
+        theta=theta,
+    )
+
     return Rc
 
 
@@ -226,6 +237,14 @@ def calculate_dimensionless_crest_freeboard_discharge_q_eq28(
         * gamma_f
         * gamma_beta
     )
+
+    check_validity_range(
+        Hm0=Hm0,
+        Hm0_HF=Hm0,
+        Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
+        Rc=Rc_diml * Hm0,
+    )
+
     return Rc_diml
 
 
-- 
2.43.0


From e296bb660b563a3268bd413711add14e1f04b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:16 +0000
Subject: [PATCH 42/43] fix: double layer cubes damage below the start of
 damage is nan, not a complex number

---
 .../cubes_double_layer_vandermeer1988.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_vandermeer1988.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_vandermeer1988.py
index 52f7572..38ab8e2 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_vandermeer1988.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/cubes_double_layer_vandermeer1988.py
@@ -275,7 +275,7 @@ def calculate_damage_Nod_vanDerMeer1988(
 
     Ns = core_physics.check_usage_stabilitynumber(Dn=Dn, Hs=Hs, Delta=Delta)[0]
 
-    Nod = ((((Ns / s0m**-0.1) - 1) / 6.7) * N_waves**0.3) ** (1 / 0.4)
+    Nod = np.power((((Ns / s0m**-0.1) - 1) / 6.7) * N_waves**0.3, 1 / 0.4)
 
     Tm = ((Hs / s0m) / (9.81 / (2 * np.pi))) ** 0.5
 
-- 
2.43.0


From fffa3c8716e2060fec5b21677e4f27adb139ccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:16 +0000
Subject: [PATCH 43/43] fix: a nan element no longer stops the iterations for
 the other elements of an array

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py       | 2 +-
 .../functions/hydraulic/wave_runup/taw2002.py                 | 2 +-
 .../structural/stability_rock_armour/etemadshahidi2020.py     | 4 ++--
 .../functions/structural/stability_rock_armour/jumelet2024.py | 2 +-
 .../stability_rock_armour/kramerburcharth2004_lowcrested.py   | 4 ++--
 .../functions/structural/stability_rock_rear/vangent2007.py   | 2 +-
 .../structural/stability_rock_rear/vangentpozueta2004.py      | 2 +-
 .../structural/stability_toe_berm/etemadshahidi2021.py        | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index b27f56c..904cb4a 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -883,7 +883,7 @@ def calculate_dimensionless_crest_freeboard(
     q_diml_no_wind = q_diml
     Rc_diff = np.inf
     n_iter = 0
-    while np.max(Rc_diff) > tolerance and n_iter < max_iter:
+    while np.any(Rc_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Rc_diml_eqB1 = (
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 229d400..f80c420 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -454,7 +454,7 @@ def iteration_procedure_z2p(
 
     while (
         n_iter <= max_iter
-        and np.max(abs(z2p_estimate_i1 - z2p_estimate_i0)) > tolerance
+        and np.any(abs(z2p_estimate_i1 - z2p_estimate_i0) > tolerance)
     ):
         z2p_estimate_i0 = z2p_estimate_i1
 
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py
index 9646c92..1d32bb6 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/etemadshahidi2020.py
@@ -376,7 +376,7 @@ def calculate_nominal_rock_diameter_Dn50(
     Dn50_s_prev = np.inf
     Cp_s = Cp_init
 
-    while np.max(Dn50_s_diff) > tolerance and n_iter_s < max_iter:
+    while np.any(Dn50_s_diff > tolerance) and n_iter_s < max_iter:
         n_iter_s += 1
 
         Dn50_s = (
@@ -399,7 +399,7 @@ def calculate_nominal_rock_diameter_Dn50(
     Dn50_pl_prev = np.inf
     Cp_pl = Cp_init
 
-    while np.max(Dn50_pl_diff) > tolerance and n_iter_pl < max_iter:
+    while np.any(Dn50_pl_diff > tolerance) and n_iter_pl < max_iter:
         n_iter_pl += 1
 
         Dn50_pl = (
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
index f748190..7f7a7c7 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/jumelet2024.py
@@ -282,7 +282,7 @@ def calculate_significant_wave_height_Hs(
     Hs_diff = np.inf
     Hs_prev = Hs_init
 
-    while np.max(Hs_diff) > tolerance and n_iter < max_iter:
+    while np.any(Hs_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Fp = calculate_fraction_plunging_waves_Fp(ksi_mm10=ksi_mm10)
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py
index 5d7f03a..3939abc 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/kramerburcharth2004_lowcrested.py
@@ -82,7 +82,7 @@ def calculate_nominal_rock_diameter_Dn50(
     Dn50_prev = np.inf
     Dn50 = Hs / (Delta * Ns_init)
 
-    while np.max(Dn50_diff) > tolerance and n_iter < max_iter:
+    while np.any(Dn50_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Dn50 = (1.0 / 1.36) * ((Hs / Delta) - Rc * (0.06 * (Rc / Dn50) - 0.23))
@@ -192,7 +192,7 @@ def calculate_crest_freeboard_Rc(
     Rc_prev = np.inf
     Rc = Rc_Dn50_init * Dn50
 
-    while np.max(Rc_diff) > tolerance and n_iter < max_iter:
+    while np.any(Rc_diff > tolerance) and n_iter < max_iter:
         n_iter += 1
 
         Rc = ((Hs / Delta) - 1.36 * Dn50) / (0.06 * (Rc / Dn50) - 0.23)
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 996e06c..6d45912 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -371,7 +371,7 @@ def calculate_maximum_significant_wave_height_Hs(
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-    while iteration < max_iterations and np.max(np.abs(Hs_i1 - Hs_i0)) > tolerance:
+    while iteration < max_iterations and np.any(np.abs(Hs_i1 - Hs_i0) > tolerance):
 
         iteration += 1
         Hs_i0 = Hs_i1
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
index bc05cb3..1e3b567 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangentpozueta2004.py
@@ -413,7 +413,7 @@ def calculate_maximum_significant_wave_height_Hs(
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-    while iteration < max_iterations and np.max(np.abs(Hs_i1 - Hs_i0)) > tolerance:
+    while iteration < max_iterations and np.any(np.abs(Hs_i1 - Hs_i0) > tolerance):
 
         iteration += 1
         Hs_i0 = Hs_i1
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index 960819b..74bc72e 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -456,7 +456,7 @@ def calculate_significant_wave_height_Hs(
     Hs_diff = np.inf
     Hs_prev = Hs_init
 
-    while np.max(Hs_diff) > 1e-3 and n_iter < max_iter:
+    while np.any(Hs_diff > 1e-3) and n_iter < max_iter:
 
         Hs = (
             Delta
-- 
2.43.0

