From 1a69267e4f50e3d60c0765fcfae6779eed12e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 01/42] fix: U_shape builds the second leg of the U

---
 ghedt/coordinates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ghedt/coordinates.py b/ghedt/coordinates.py
index 7f0b7a2..64d91f5 100644
--- a/ghedt/coordinates.py
+++ b/ghedt/coordinates.py
@@ -67,6 +67,7 @@ def U_shape(Nx, Ny, Bx, By):
             U.append((i * Bx, 0.))
         for j in range(1, Ny):
             U.append((0., j * By))
+            U.append(((Nx - 1) * Bx, j * By))
     else:
         nbh = Nx * Ny
         U = rectangle(Nx, Ny, Bx, By)
-- 
2.43.0


From 7054688c377ceab2a7ee4320bee16ff7a4d7ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 02/42] fix: transpose the first zoned rectangle like the
 others

---
 ghedt/domains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index f9018f6..4f6058b 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -212,6 +212,8 @@ def zoned_rectangle_domain(length_x, length_y, n_x, n_y, transpose=False):
     n_i2 = 1
 
     z = dt.coordinates.zoned_rectangle(n_1, n_2, b_1, b_2, n_i1, n_i2)
+    if transpose:
+        z = dt.coordinates.transpose_coordinates(z)
     zoned_rectangle_domain.append(z)
 
     while n_i1 < (n_1 - 2) or n_i2 < (n_2 - 2):
-- 
2.43.0


From 305f928f47ede51fd8b4a2d5fdd097879e1e8882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 03/42] fix: bi-zoned domain uses the sides that match its row
 counts

---
 ghedt/domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 4f6058b..2300ce0 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -290,8 +290,8 @@ def bi_rectangle_zoned_nested(length_x, length_y, B_min, B_max_x, B_max_y):
     for i in range(len(n_1_values) + len(n_2_values)-1):
         domain = []
         if l == 0:
-            b_x = length_x / (N_min_1 - 1)
-            b_y = length_y / (N_min_2 - 1)
+            b_x = length_1 / (N_min_1 - 1)
+            b_y = length_2 / (N_min_2 - 1)
 
             # go from one borehole to a line
             for l in range(1, N_min_1 + 1):
-- 
2.43.0


From a1aff1eab7251d06f95b777a6b68475f16f80f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 04/42] fix: bi_rectangular row count is not increased by
 rounding error

---
 ghedt/domains.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 2300ce0..8b728e4 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -120,7 +120,9 @@ def bi_rectangular(
     N_max = int(np.floor(n_1_max).tolist())
     for n_1 in range(N_min, N_max + 1):
 
-        n_2 = int(np.ceil((length_2 / B_max_2) + 1))
+        # round so that a spacing which divides the length exactly does not
+        # gain a row from floating point error
+        n_2 = int(np.ceil(round(length_2 / B_max_2, 8)) + 1)
         b_2 = length_2 / (n_2 - 1)
 
         b_1 = length_1 / (n_1 - 1)
-- 
2.43.0


From 63d5226a6f5a7782d7b858b8599d13e7933595f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 05/42] fix: reorder_domain keeps every field when counts are
 tied

---
 ghedt/domains.py | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 8b728e4..7458b21 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -409,21 +409,7 @@ def verify_excess(domain):
 
 def reorder_domain(domain):
     # Reorder the domain so that the number of boreholes successively grow
-    numbers = {}
-    for i in range(len(domain)):
-        numbers[i] = len(domain[i])
-
-    sorted_values = sorted(numbers.values())
-
-    reordered_domain = []
-
-    for i in sorted_values:
-        for j in numbers.keys():
-            if numbers[j] == i:
-                reordered_domain.append(domain[j])
-                break
-
-    return reordered_domain
+    return sorted(domain, key=len)
 
 
 def visualize_domain(domain, output_folder_name):
-- 
2.43.0


From 6da4ea7b90e92f06e71b3546478e2fde4a94571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 06/42] fix: remove_cutout accepts an absent boundary

---
 ghedt/feature_recognition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ghedt/feature_recognition.py b/ghedt/feature_recognition.py
index 14a41c3..8b919c7 100644
--- a/ghedt/feature_recognition.py
+++ b/ghedt/feature_recognition.py
@@ -16,8 +16,9 @@ def scale_coordinates(coordinates, scale):
 
 def remove_cutout(coordinates, boundary=None, remove_inside=True,
                   keep_contour=True):
-    if boundary is None:
-        boundary = []
+    if boundary is None or len(boundary) == 0:
+        # There is nothing to cut out
+        return list(coordinates)
 
     # cv2.pointPolygonTest only takes integers, so we scale by 10000 and then
     # scale back to keep precision
-- 
2.43.0


From 7eb9b364eea1103e90ae41d46aeec87b535b14c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 07/42] fix: fields emptied by the building are dropped from
 the domain

---
 ghedt/domains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 7458b21..70dac8b 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -380,6 +380,8 @@ def polygonal_land_constraint(property_boundary, B_min, B_max_x, B_max_y,
             new_coordinates = dt.feature_recognition.remove_cutout(
                 new_coordinates, boundary=building_description,
                 remove_inside=True, keep_contour=False)
+            if len(new_coordinates) == 0:
+                continue
             new_coordinates_domain.append(new_coordinates)
         coordinates_domain_nested_cutout.append(new_coordinates_domain)
 
-- 
2.43.0


From 69cf13c4bb49a0bdaf66b5a9fdddb7f9799e77f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 08/42] fix: combine_sts_lts handles a short time step ending
 at the long one

---
 ghedt/ground_heat_exchangers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index d0dc134..9d28b16 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -94,10 +94,8 @@ class BaseGHE:
         else:
             # find where to stop in sts
             i = 0
-            value = log_time_sts[i]
-            while value <= min_log_time_lts:
+            while log_time_sts[i] < min_log_time_lts:
                 i += 1
-                value = log_time_sts[i]
             log_time = log_time_sts[0:i] + log_time_lts
             g = g_sts[0:i] + g_lts
 
-- 
2.43.0


From 9dbf76733477571a6ef844b8b8e2841035e81bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 09/42] fix: a peak in the first hour of a day belongs to that
 day

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index b66ba95..4495c71 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -188,9 +188,12 @@ class Loads:
             # Average monthly load in kW
             self.monthly_average[i] = self.monthly_total[i] / len(month_loads)
 
-            # Day of month the peak load occurs (e.g. 1-31)
-            self.monthly_peak_day[i] = math.ceil(month_loads.index(
-                self.monthly_peak[i]) / hours_in_day)
+            # Day of month the peak load occurs (e.g. 1-31), 0 for no load
+            if self.monthly_peak[i] > 0.:
+                self.monthly_peak_day[i] = month_loads.index(
+                    self.monthly_peak[i]) // hours_in_day + 1
+            else:
+                self.monthly_peak_day[i] = 0
 
             hours_in_previous_months += hours_in_month
 
-- 
2.43.0


From caa457565b670096630239f20fa4f94030c76806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 10/42] fix: a month whose peaks are ignored keeps its whole
 energy

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 4495c71..5a76860 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -600,6 +600,8 @@ class HybridLoad:
                 # This is also used for the case where ipf[i] is False
                 # A more sophisticated default could be use, like placing the
                 # peaks on the 10th and 20th
+                mload = cl.monthly_total[mi] - hl.monthly_total[mi]
+                mrate = mload / (monthdays(mi) * 24)
                 lastavghour = lastmonthhour(i)
                 self.load = np.append(self.load, mrate)
                 self.hour = np.append(self.hour, lastavghour)
-- 
2.43.0


From 34c7b345d98567a11536d4e8c082b780627aae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 11/42] fix: peak duration of small loads no longer leaves the
 interpolation range

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 29 +++++--------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 5a76860..f034793 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -259,27 +259,12 @@ class Loads:
             # two day cooling loads (or heat rejection) in kWh
             current_two_day_load = [0.] + self.monthly_two_day_hourly_peak[i]
 
-            # This tolerance applies to the difference between the current
-            # months peak load and the maximum of the two-day load. If the
-            # absolute value of the difference between the current months
-            # peak load and the current two-day peak load is within this
-            # tolerance, then the maximum of the two-day load is equal to the
-            # maximum of the current month. If the absolute difference is
-            # greater than the tolerance, then the two-day peak load contains
-            # a load greater than the current months peak load. The tolerance
-            # could ONLY be exceeded when the first 24 hours is located in the
-            # previous month.
-            tol = 0.1
-
-            # Ensure the peak load for the two-day load profile is the same or
-            # greater than the monthly peak load. This check is done in case
-            # the previous month contains a higher load than the current month.
-            load_diff = self.monthly_peak[i] - max(current_two_day_load)
+            # The peak load for the two-day load profile is the same or greater
+            # than the monthly peak load. It is greater when the part of the
+            # two days located in a neighboring month contains a higher load
+            # than the current month.
             # monthly peak cooling load (or heat rejection) in kW
-            if abs(load_diff) < tol:
-                current_month_peak_cl = self.monthly_peak[i]
-            else:
-                current_month_peak_cl = max(current_two_day_load)
+            current_month_peak_cl = max(current_two_day_load)
 
             # monthly average cooling load (or heat rejection) in kW
             current_month_avg_cl = self.monthly_average[i]
@@ -348,7 +333,9 @@ class Loads:
 
         if dT_fluid_nm_max > 0.0:
             f = scipy.interpolate.interp1d(dT_fluid_pk, hour_time)
-            peak_duration = f(dT_fluid_nm_max).tolist()
+            # The nominal load never exceeds the peak load, so only rounding
+            # can place the nominal temperature above the peak temperatures
+            peak_duration = f(min(dT_fluid_nm_max, max(dT_fluid_pk))).tolist()
         else:
             peak_duration = 1.0e-6
 
-- 
2.43.0


From 1a0b950500b84e7ec668a0fddee2f690f884e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 12/42] fix: a month without load has no peak duration

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index f034793..669817a 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -269,7 +269,7 @@ class Loads:
             # monthly average cooling load (or heat rejection) in kW
             current_month_avg_cl = self.monthly_average[i]
 
-            if current_month_peak_cl != 0.0:
+            if self.monthly_peak[i] != 0.0:
                 peak_duration, q_peak, q_nominal = \
                     self.perform_current_month_simulation(
                         current_two_day_load, current_month_peak_cl,
-- 
2.43.0


From 2380c1ba03ffbc913d90ae1036ca54dde5d912b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 13/42] fix: hourly representation places the peak on the day
 it occurs

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 669817a..4657bde 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -640,12 +640,13 @@ class HybridLoad:
             peak_load_duration_ext: int \
                 = int(round(hl.monthly_peak_duration[i]))
             # day of the month on which peak htg load occurs (e.g. 1-31)
-            peak_day_ext: int = hl.monthly_peak_day[i]
+            # (synthetic_load_function counts the days from 0)
+            peak_day_ext: int = max(hl.monthly_peak_day[i] - 1, 0)
 
             peak_load_rej: float = cl.monthly_peak[i]
             peak_load_duration_rej: int \
                 = int(round(cl.monthly_peak_duration[i]))
-            peak_day_rej: int = cl.monthly_peak_day[i]
+            peak_day_rej: int = max(cl.monthly_peak_day[i] - 1, 0)
 
             synthetic_load_function(
                 hourly_extraction_loads, avg_hourly_load_ext, peak_load_ext,
-- 
2.43.0


From 1f50f470b697c80c2fb9df53ba144b59f4e01961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 14/42] fix: synthetic rejection average is in the requested
 units

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 4657bde..6694960 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -89,7 +89,7 @@ def create_synthetic_doubling_load_profile(units='W', year=2019) -> tuple:
         # The extraction monthly average load
         avg_hourly_load_ext: float = float(i) * scale
         # The rejection monthly average load
-        avg_hourly_load_rej: float = float(len(days_in_month) - i)
+        avg_hourly_load_rej: float = float(len(days_in_month) - i) * scale
 
         # The peak load occurs in day peak_day and for time peak_load_duration
         peak_load_ext: float = 2. * float(i) * scale  # The monthly peak load
-- 
2.43.0


From f9b60af590a4d05fdc99aafbd343f7c13cf7f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 15/42] fix: long peaks stay inside their month and do not
 overlap

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 6694960..0717533 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -539,20 +539,37 @@ class HybridLoad:
                 include_peak = False
 
             def _place_loads(order: List[Loads], sign: List[float], rate):
+                lastavghour = lastmonthhour(i)
+                # Long peaks can reach out of the month or into one another,
+                # shift those (the duration is kept) so that time goes forward
+                peaks = []
+                _hour = lastmonthhour(i - 1)
                 for k, _ in enumerate(order):
                     if (order[k].monthly_peak[mi] > 0 and include_peak):
                         _first_hour_peak, _last_hour_peak = \
                             order[k].peak_hour_range(mi, i)
+                        shift = max(_hour - _first_hour_peak, 0.)
+                        peaks.append([k, _first_hour_peak + shift,
+                                      _last_hour_peak + shift])
+                        _hour = _last_hour_peak + shift
+                _hour = lastavghour
+                for peak in reversed(peaks):
+                    shift = max(peak[2] - _hour, 0.)
+                    peak[1] -= shift
+                    peak[2] -= shift
+                    _hour = peak[1]
+                for k, _first_hour_peak, _last_hour_peak in peaks:
+                    if _first_hour_peak > self.hour[-1]:
                         self.load = np.append(self.load, rate)
                         self.hour = np.append(self.hour, _first_hour_peak)
-                        # peak
-                        self.load = np.append(
-                            self.load, sign[k] * order[k].monthly_peak[mi])
-                        self.hour = np.append(self.hour, _last_hour_peak)
+                    # peak
+                    self.load = np.append(
+                        self.load, sign[k] * order[k].monthly_peak[mi])
+                    self.hour = np.append(self.hour, _last_hour_peak)
                 # rest of month
-                lastavghour = lastmonthhour(i)
-                self.load = np.append(self.load, rate)
-                self.hour = np.append(self.hour, lastavghour)
+                if lastavghour > self.hour[-1]:
+                    self.load = np.append(self.load, rate)
+                    self.hour = np.append(self.hour, lastavghour)
 
             # There may be a more sophisticated way to do this, but I will loop
             # through the lists mduration is the number of hours over which to
-- 
2.43.0


From eda24768b6cabf9f6f8302d33496b7bae3688edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 16/42] fix: synthetic peaks longer than a day stay inside
 their month

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 0717533..ba15875 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -38,6 +38,10 @@ def synthetic_load_function(
     # set the peak_load for a duration of peak_load_duration
     peak_load_start_hour = \
         math.floor(peak_day_noon - (float(peak_load_duration) / 2.))
+    # A long peak near the ends of the month is shifted to stay inside of it
+    peak_load_start_hour = min(
+        max(peak_load_start_hour, hours_in_previous_months),
+        hours_in_previous_months + hours_in_month - peak_load_duration)
     hourly_loads[peak_load_start_hour:
                  peak_load_start_hour + peak_load_duration] = \
         [peak_load] * peak_load_duration
-- 
2.43.0


From 21a9838adec52e47dcabe437c7478dc6cb2331d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 17/42] fix: hybrid simulation time starts with the starting
 month

---
 ghedt/ground_heat_exchangers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 9d28b16..bd3f002 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -294,7 +294,8 @@ class GHE(BaseGHE):
 
         if method == 'hybrid':
             Q_dot = self.hybrid_load.load[2:] * 1000.  # convert to Watts
-            time_values = self.hybrid_load.hour[2:]  # convert to seconds
+            # time (hours) since the beginning of the starting month
+            time_values = self.hybrid_load.hour[2:] - self.hybrid_load.hour[1]
 
             HPEFT, dTb = self._simulate_detailed(Q_dot, time_values, g)
         elif method == 'hourly':
-- 
2.43.0


From 750c72e61f51ba99485e5203fa99a615b4518bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 18/42] fix: hourly simulation covers the requested months

---
 ghedt/ground_heat_exchangers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index bd3f002..bc0ac37 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -303,9 +303,13 @@ class GHE(BaseGHE):
                 self.sim_params.end_month - self.sim_params.start_month + 1
             n_hours = int(n_months / 12. * 8760.)
             Q_dot = copy.deepcopy(self.hourly_extraction_ground_loads)
+            # Begin with the first hour of the starting month
+            first_hour = plat.ground_loads.firstmonthhour(
+                (self.sim_params.start_month - 1) % 12 + 1) - 1
+            Q_dot = Q_dot[first_hour:] + Q_dot[:first_hour]
             # How many times does q need to be repeated?
             n_years = int(np.ceil(n_hours / 8760))
-            Q_dot = Q_dot * n_years
+            Q_dot = (Q_dot * n_years)[:n_hours]
             Q_dot = -1. * np.array(Q_dot)  # Convert loads to rejection
             t = np.arange(1, n_hours + 1, 1)
 
-- 
2.43.0


From 162adb0a8bda52c0bf6e0a82f3e22def4a0afb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 19/42] fix: a single g-function is only used at its own height

---
 ghedt/gfunction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 99f1e5b..b744832 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -176,12 +176,12 @@ class GFunction:
             elif num_curves == 2:
                 kind = 'linear'
             else:
-                if (H_eq-height_values[0]) / height_values[0] < 0.001:
+                if abs(H_eq-height_values[0]) / height_values[0] < 0.001:
                     g_function = self.g_lts[height_values[0]]
                     rb = self.r_b_values[height_values[0]]
                     D = self.D_values[height_values[0]]
                     return g_function, rb, D, H_eq
-                elif min(height_values) - H_eq < 0.001:
+                elif abs(min(height_values) - H_eq) < 0.001:
                     g_function = self.g_lts[height_values[0]]
                     rb = self.r_b_values[height_values[0]]
                     D = self.D_values[height_values[0]]
-- 
2.43.0


From 299144c69c85a88c1fd1b02f63414e8aeb67862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 20/42] fix: the interpolation table follows the requested
 interpolation

---
 ghedt/gfunction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index b744832..98119b8 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -205,8 +205,11 @@ class GFunction:
             if required_curves > len(height_values):
                 kind = curves_by_kind[len(height_values)]
 
-        # if the interpolation table is not yet know, build it
-        if len(self.interpolation_table) == 0:
+        # if the interpolation table is not yet know, build it (a table only
+        # serves the kind of interpolation, and the range, it was built for)
+        table_key = (kind, fill_value)
+        if self.interpolation_table.get('key') != table_key:
+            self.interpolation_table = {'key': table_key}
             # create an interpolation for the g-function which takes the height
             # (or equivilant height) as an input the g-function needs to be
             # interpolated at each point in dimensionless time
-- 
2.43.0


From a6e1c5fc95430d6db141ee3aef06380098ce5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 21/42] fix: a height just below the lowest g-function uses the
 lowest

---
 ghedt/gfunction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 98119b8..1b81704 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -160,6 +160,7 @@ class GFunction:
         if min(height_values) <= H_eq <= max(height_values):
             fill_value = ''
         elif abs(min(height_values) - H_eq) < 0.001:
+            H_eq = min(height_values)
             fill_value = ''
         else:
             fill_value = 'extrapolate'
-- 
2.43.0


From e372708967187c64d981ff337dfdb6538aa8778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 22/42] fix: updating the borehole flow rate updates the pipe
 flow rate

---
 ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 1a90f24..4cb4641 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -151,6 +151,8 @@ class SingleUTube(BasePipe, gt.pipes.SingleUTube):
         else:
             self.fluid = fluid
 
+        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+            m_flow_borehole, None)
         self.compute_resistances()
         R_fp = self.R_f + self.R_p
         self.update_thermal_resistances(R_fp)
@@ -204,8 +206,8 @@ class MultipleUTube(BasePipe, gt.pipes.MultipleUTube):
         else:
             self.fluid = fluid
 
-        self.compute_resistances()
-
+        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+            m_flow_borehole, self.config)
         self.compute_resistances()
         R_fp = self.R_f + self.R_p
         self.update_thermal_resistances(R_fp)
@@ -408,6 +410,7 @@ class CoaxialPipe(CoaxialBase, gt.pipes.Coaxial, BasePipe):
         else:
             self.fluid = fluid
 
+        self.m_flow_pipe = m_flow_borehole
         self.compute_resistances()
 
         # Compute resistances that are stored by pygfunction
-- 
2.43.0


From 8738c4088022043548b2df635b2f58a0aa4d5518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 23/42] fix: U-tube report prints the Reynolds number of the
 circular pipe

---
 ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 4cb4641..b73627d 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -49,7 +49,7 @@ class BasePipe(object):
         output += self.fluid.__repr__()
         output += '\n'
 
-        Re = compute_Reynolds_concentric(
+        Re = compute_Reynolds(
             self.m_flow_pipe, self.pipe.r_in, self.pipe.eps, self.fluid)
 
         output += justify('Reynolds number', str(round(Re, 4)))
-- 
2.43.0


From 3171a904c753b2c9ab86a9d37b4ccb1339ce73d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 24/42] fix: shallow boreholes can be reported and exported

---
 ghedt/ground_heat_exchangers.py | 1 +
 ghedt/search_routines.py        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index bc0ac37..d884f3e 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -263,6 +263,7 @@ class GHE(BaseGHE):
         number_sts_g_values = 50
         sts_step_size = int(np.floor((total_g_values - number_lts_g_values) /
                                      number_sts_g_values).tolist())
+        sts_step_size = max(sts_step_size, 1)
         lntts = []
         g_values = []
         for i in range(0, (total_g_values - number_lts_g_values),
diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index f6d259a..7a76d7a 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -398,6 +398,7 @@ def oak_ridge_export(bisection_search, file_name='ghedt_output'):
     number_sts_g_values = 30
     sts_step_size = int(np.floor((total_g_values - number_lts_g_values) /
                                  number_sts_g_values).tolist())
+    sts_step_size = max(sts_step_size, 1)
     lntts = []
     g_values = []
     for i in range(1, (total_g_values - number_lts_g_values),
-- 
2.43.0


From 343ad22a46e6819375d0c5596154271e2b5aee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 25/42] fix: size() ends at the minimum height when that height
 is enough

---
 ghedt/ground_heat_exchangers.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index d884f3e..9623531 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -338,10 +338,19 @@ class GHE(BaseGHE):
         self.bhe.b.H = \
             (self.sim_params.max_Height + self.sim_params.min_Height) / 2.
         # bhe.b.H is updated during sizing
-        plat.equivalance.solve_root(
-            self.bhe.b.H, local_objective, lower=self.sim_params.min_Height,
-            upper=self.sim_params.max_Height, xtol=1.0e-6, rtol=1.0e-6,
-            maxiter=50)
+        if local_objective(self.sim_params.min_Height) <= 0.0:
+            H = self.sim_params.min_Height
+        elif local_objective(self.sim_params.max_Height) >= 0.0:
+            H = self.sim_params.max_Height
+        else:
+            H = plat.equivalance.solve_root(
+                self.bhe.b.H, local_objective,
+                lower=self.sim_params.min_Height,
+                upper=self.sim_params.max_Height, xtol=1.0e-6, rtol=1.0e-6,
+                maxiter=50)
+        # Leave the GHE at the height found
+        if self.bhe.b.H != H:
+            local_objective(H)
         if self.bhe.b.H == self.sim_params.min_Height:
             warnings.warn('The minimum height provided to size this ground heat'
                           ' exchanger is not shallow enough. Provide a '
-- 
2.43.0


From 8218842caf0f227a8ee7e1b8f684b8ff6728b910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 26/42] fix: sign of zero is defined

---
 ghedt/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index 8433034..f262ba5 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -98,9 +98,9 @@ def sign(x: float) -> int:
     Determine the sign of a value, pronounced "sig-na"
     :param x: the input value
     :type x: float
-    :return: a 1 or a -1
+    :return: a 1 or a -1 (zero counts as -1, an excess of 0 is acceptable)
     """
-    return int(abs(x) / x)
+    return 1 if x > 0 else -1
 
 
 def check_bracket(sign_xL, sign_xR, disp=None) -> bool:
-- 
2.43.0


From 19a10a3304fb57f2176dd44f49c0dd1787b62170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 27/42] fix: solve_root accepts a root on a bound

---
 ghedt/peak_load_analysis_tool/equivalance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/equivalance.py b/ghedt/peak_load_analysis_tool/equivalance.py
index 8aab8ce..818cc0d 100644
--- a/ghedt/peak_load_analysis_tool/equivalance.py
+++ b/ghedt/peak_load_analysis_tool/equivalance.py
@@ -39,6 +39,10 @@ def solve_root(x, objective_function, lower=None, upper=None,
     minus = objective_function(lower)
     plus = objective_function(upper)
     # get signs of upper and lower thermal conductivity bounds
+    if minus == 0.:
+        return lower
+    if plus == 0.:
+        return upper
     kg_minus_sign = int(minus / abs(minus))
     kg_plus_sign = int(plus / abs(plus))
 
-- 
2.43.0


From 3a2e50014eb6ef891474cdbe5cf8aeeb8c5fbd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 28/42] fix: number_of_boreholes is exact when the spacing
 divides the length

---
 ghedt/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index f262ba5..298fb31 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -77,7 +77,8 @@ def make_rectangle_perimeter(length_x, length_y, origin=(0, 0)):
 
 
 def number_of_boreholes(length, B, func=np.ceil):
-    N = func(length / B) + 1
+    # round so that floating point error does not gain or lose a borehole
+    N = func(round(length / B, 8)) + 1
     return int(N)
 
 
-- 
2.43.0


From 310e40cef35cf651246859d8e07d799acb041c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 29/42] fix: check_inputs only applies the bi-rectangle rules
 to its routines

---
 ghedt/media.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/media.py b/ghedt/media.py
index 8345d29..77b5223 100644
--- a/ghedt/media.py
+++ b/ghedt/media.py
@@ -30,7 +30,7 @@ class GeometricConstraints:
             assert self.length is not None
             assert self.B_min is not None
             assert self.B_max_x is not None
-        elif method == 'bi-rectangle' or 'bi-zoned':
+        elif method in ('bi-rectangle', 'bi-zoned'):
             assert self.width is not None
             assert self.length is not None
             assert self.B_min is not None
-- 
2.43.0


From 1b6f18d2d792652bf702f9301da37dd80a29b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 30/42] fix: a search does not change the height of the
 borehole it is given

---
 ghedt/search_routines.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index 7a76d7a..b817c71 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -21,6 +21,10 @@ class Bisection1D:
         # initial setup
         coordinates = coordinates_domain[0]
 
+        # The height is varied during the search, leave the borehole provided
+        # (which may also be used elsewhere) as it is
+        borehole = copy.deepcopy(borehole)
+
         # Flow rate tracking
         self.V_flow = V_flow
         self.flow = flow
-- 
2.43.0


From 1f9dabf35c865b6d5cece3ed4e66fa5743609fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 31/42] fix: nested search stays in the first domain when its
 smallest field is selected

---
 ghedt/search_routines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index b817c71..4a07319 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -256,7 +256,9 @@ class Bisection2D(Bisection1D):
 
         # We tacked on one borehole to the beginning, so we need to subtract 1
         # on the index
-        inner_domain = coordinates_domain_nested[selection_key-1]
+        if selection_key > 0:
+            selection_key -= 1
+        inner_domain = coordinates_domain_nested[selection_key]
         self.coordinates_domain = inner_domain
 
         # Reset calculated temperatures
-- 
2.43.0


From 0e68a4c6b917f360f52d733e72bbaeea8f73c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 32/42] fix: an excess of exactly zero is reported like a
 negative one

---
 ghedt/search_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index 4a07319..f1b7b48 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -151,7 +151,7 @@ class Bisection1D:
             pass
         else:
             # This domain does not bracked the solution
-            if T_0_upper < 0.0 and T_m1 < 0.0:
+            if T_0_upper <= 0.0 and T_m1 <= 0.0:
                 msg = 'Based on the loads provided, the excess temperatures ' \
                       'for the minimum and maximum number of boreholes falls ' \
                       'below 0. This means that the loads are "miniscule" or ' \
-- 
2.43.0


From a0f0735ecc207fdedf70b96062e3b4e465d5d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 33/42] fix: bi-zoned search no longer fails when every field
 of a domain is enough

---
 ghedt/search_routines.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index f1b7b48..bb0cf4c 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -322,7 +322,14 @@ class BisectionZD(Bisection1D):
             try:
                 selection_key, selected_coordinates = self.search()
             except ValueError:
-                break
+                if i > self.selection_key_outer:
+                    break
+                # The largest field of this domain is known to be enough, so
+                # all of its fields are: take the smallest
+                selection_key = 0
+                selected_coordinates = self.coordinates_domain[0]
+                self.initialize_ghe(selected_coordinates,
+                                    self.sim_params.max_Height)
             self.calculated_temperatures_nested[i] = \
                 copy.deepcopy(self.calculated_temperatures)
 
-- 
2.43.0


From 72664759a00bc1a539a0d9b74746cf862b3dd8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:04 +0000
Subject: [PATCH 34/42] fix: row counts of candidate fields are not affected by
 rounding error

---
 ghedt/domains.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 70dac8b..7991433 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -44,8 +44,8 @@ def rectangular(length_x, length_y, B_min, B_max, disp=False):
     n_1_max = (length_1 / B_min) + 1
     n_1_min = (length_1 / B_max) + 1
 
-    N_min = int(np.ceil(n_1_min).tolist())
-    N_max = int(np.floor(n_1_max).tolist())
+    N_min = int(np.ceil(round(n_1_min, 8)))
+    N_max = int(np.floor(round(n_1_max, 8)))
 
     n_2_old = 1
 
@@ -57,7 +57,7 @@ def rectangular(length_x, length_y, B_min, B_max, disp=False):
     for N in range(N_min, N_max+1):
         # Check to see if we bracket
         B = length_1 / (N - 1)
-        n_2 = int(np.floor((length_2 / B) + 1))
+        n_2 = int(np.floor(round((length_2 / B) + 1, 8)))
 
         if iter == 0:
             for i in range(1, N_min):
@@ -116,8 +116,8 @@ def bi_rectangular(
     # borehole, to a line, to adding the rows
     iter = 0
 
-    N_min = int(np.ceil(n_1_min).tolist())
-    N_max = int(np.floor(n_1_max).tolist())
+    N_min = int(np.ceil(round(n_1_min, 8)))
+    N_max = int(np.floor(round(n_1_max, 8)))
     for n_1 in range(N_min, N_max + 1):
 
         # round so that a spacing which divides the length exactly does not
@@ -177,8 +177,8 @@ def bi_rectangle_nested(length_x, length_y, B_min, B_max_x, B_max_y,
     n_2_max = (length_2 / B_min) + 1
     n_2_min = (length_2 / B_max_2) + 1
 
-    N_min = int(np.ceil(n_2_min).tolist())
-    N_max = int(np.floor(n_2_max).tolist())
+    N_min = int(np.ceil(round(n_2_min, 8)))
+    N_max = int(np.floor(round(n_2_max, 8)))
 
     bi_rectangle_nested_domain = []
 
@@ -274,11 +274,11 @@ def bi_rectangle_zoned_nested(length_x, length_y, B_min, B_max_x, B_max_y):
     n_2_max = (length_2 / B_min) + 1
     n_2_min = (length_2 / B_max_2) + 1
 
-    N_min_1 = int(np.ceil(n_1_min).tolist())
-    N_max_1 = int(np.floor(n_1_max).tolist())
+    N_min_1 = int(np.ceil(round(n_1_min, 8)))
+    N_max_1 = int(np.floor(round(n_1_max, 8)))
 
-    N_min_2 = int(np.ceil(n_2_min).tolist())
-    N_max_2 = int(np.floor(n_2_max).tolist())
+    N_min_2 = int(np.ceil(round(n_2_min, 8)))
+    N_max_2 = int(np.floor(round(n_2_max, 8)))
 
     bi_rectangle_zoned_nested_domain = []
 
-- 
2.43.0


From 2eaf634c651f605987f5ea4c5103250f47bec93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 35/42] fix: a boundary between the 0.1 mm steps is rounded,
 not truncated

---
 ghedt/feature_recognition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/feature_recognition.py b/ghedt/feature_recognition.py
index 8b919c7..e60f97d 100644
--- a/ghedt/feature_recognition.py
+++ b/ghedt/feature_recognition.py
@@ -26,7 +26,8 @@ def remove_cutout(coordinates, boundary=None, remove_inside=True,
     coordinates = scale_coordinates(coordinates, scale)
     boundary = scale_coordinates(boundary, scale)
 
-    _boundary = np.array(boundary, dtype=np.uint64)
+    # Round (do not truncate) so that the boundary stays in place
+    _boundary = np.rint(boundary).astype(np.int32)
 
     # https://stackoverflow.com/a/50670359/11637415
     # Positive - point is inside the contour
-- 
2.43.0


From 2ac50f48b50ad0230f6800fceb28a380626d734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:10 +0000
Subject: [PATCH 36/42] fix: a resistance asked for at another flow rate uses
 its film coefficient

---
 .../borehole_heat_exchangers.py                | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index b73627d..b6423a4 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -91,20 +91,14 @@ class BasePipe(object):
             self, m_flow_borehole=None, fluid=None):
         # Compute the effective borehole thermal resistance
 
-        # if the mass flow rate has changed, then update it and use new value
-        if m_flow_borehole is None:
-            m_flow_borehole = self.m_flow_borehole
-        else:
-            self.m_flow_borehole = m_flow_borehole
-
-        # if the mass flow rate has changed, then update it and use new value
-        if fluid is None:
-            fluid = self.fluid
-        else:
-            self.fluid = fluid
+        # if the mass flow rate or the fluid has changed, then the resistances
+        # that depend on them have to be updated as well
+        if m_flow_borehole is not None or fluid is not None:
+            return self.update_thermal_resistance(
+                m_flow_borehole=m_flow_borehole, fluid=fluid)
 
         R_b_star = self.effective_borehole_thermal_resistance(
-            m_flow_borehole, fluid.cp)
+            self.m_flow_borehole, self.fluid.cp)
 
         return R_b_star
 
-- 
2.43.0


From 3983ce6eec6741f1047b13aff5e01736b2c48186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 37/42] fix: do not return the smallest field when only its
 minimum height is acceptable

The smallest field was returned whenever the excess temperatures at minimum and
maximum height had different signs.  With very low flow rates the excess grows
with the height, and a field that exceeds the limit at maximum height was
returned.
---
 ghedt/search_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index bb0cf4c..eb9bcb3 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -139,7 +139,7 @@ class Bisection1D:
         self.calculated_temperatures[xL_idx] = T_0_upper
         self.calculated_temperatures[xR_idx] = T_m1
 
-        if check_bracket(sign(T_0_lower), sign(T_0_upper)):
+        if sign(T_0_upper) < 0 < sign(T_0_lower):
             if self.disp:
                 print('Size between min and max of lower bound in domain.')
             self.initialize_ghe(self.coordinates_domain[0],
-- 
2.43.0


From 7cb93259da2fda8ee1ecc6284cc225e0093b204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 38/42] fix: the figure of the hourly loads draws the loads it
 is given

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index ba15875..69e6d8b 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -696,12 +696,12 @@ class HybridLoad:
         hl = self.extraction
 
         for i in range(len(hl.hourly)):
-            if self.hourly_rejection_loads[i] != 0.0:
-                rejection.append((i, -hl.hourly[i]))
             if cl.hourly[i] != 0.0:
                 # Flip the sign back negative because split_heat_and_cool made
                 # all loads positive
-                extraction.append((i, cl.hourly[i]))
+                rejection.append((i, -cl.hourly[i]))
+            if hl.hourly[i] != 0.0:
+                extraction.append((i, hl.hourly[i]))
 
         fig = gt.gfunction._initialize_figure()
         ax = fig.add_subplot(111)
-- 
2.43.0


From e2a643b13043b8e9cbaa9fcc60f0dfebe6fda4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 39/42] fix: the figure of the two day responses names the
 loads it draws

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 69e6d8b..5342ba8 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -763,17 +763,17 @@ class HybridLoad:
         # heating loads (or heat extraction)
         hl = self.extraction
 
-        if extraction:
+        if rejection:
             # plot two day (48 hour) fluid temperatures for cooling with peak
             # load
             ax.plot(two_day_hour_time,
                     cl.monthly_two_day_fluid_temps_pk[month_num],
-                    'k--', label='Peak Extraction', zorder=0)
+                    'k--', label='Peak Rejection', zorder=0)
             # plot two day (48 hour) fluid temperatures for cooling with nominal
             # load
             ax.plot(two_day_hour_time,
                     cl.monthly_two_day_fluid_temps_nm[month_num],
-                    'b-', label='Extraction', zorder=1)
+                    'b-', label='Rejection', zorder=1)
             # Draw horizontal line from max time to fluid sim
             draw_horizontal(cl.monthly_two_day_fluid_temps_nm[month_num],
                             cl.monthly_peak_duration[month_num])
@@ -781,17 +781,17 @@ class HybridLoad:
             pk_cl_duration_rounded = round(pk_cl_duration, 1)
             new_ticks.append(pk_cl_duration_rounded)
 
-        if rejection:
+        if extraction:
             # plot two day (48 hour) fluid temperatures for heating with peak
             # load
             ax.plot(two_day_hour_time,
                     hl.monthly_two_day_fluid_temps_pk[month_num],
-                    'k.', label='Peak Rejection', zorder=0)
+                    'k.', label='Peak Extraction', zorder=0)
             # plot two day (48 hour) fluid temperatures for heating with nominal
             # load
             ax.plot(two_day_hour_time,
                     hl.monthly_two_day_fluid_temps_nm[month_num],
-                    'r-.', label='Rejection', zorder=1)
+                    'r-.', label='Extraction', zorder=1)
             draw_horizontal(hl.monthly_two_day_fluid_temps_nm[month_num],
                             hl.monthly_peak_duration[month_num])
             # duration of monthly peak htg load in hours
-- 
2.43.0


From 0076f45a83e227cf6ddfbb0ff318ccc5699f269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 40/42] fix: the two day responses are kept by month when a
 month has no load

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 5342ba8..29a53eb 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -281,6 +281,10 @@ class Loads:
                         self.monthly_two_day_fluid_temps_nm)
             else:
                 peak_duration = 1.0e-6
+                # Keep one entry for each month
+                no_change = [0.] * len(current_two_day_load)
+                self.monthly_two_day_fluid_temps_pk.append(no_change[:])
+                self.monthly_two_day_fluid_temps_nm.append(no_change[:])
 
             # Set the monthly cooling load duration
             self.monthly_peak_duration[i] = peak_duration
-- 
2.43.0


From 01eb573b0424a584f3869fd356371588c92713b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 41/42] fix: zoned search: compare the first total drilling
 with nothing

The walk over the zoned domains started with a fixed 99999 m as the drilling
to improve on, so that it stopped at the first domain whenever that needed
more than 100 km of drilling, although the next ones may need less.
---
 ghedt/search_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index eb9bcb3..8a1cc52 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -313,7 +313,7 @@ class BisectionZD(Bisection1D):
 
         i = self.selection_key_outer
 
-        old_height = 99999
+        old_height = float('inf')
 
         while i < len(self.coordinates_domain_nested) and i < max_iter:
 
-- 
2.43.0


From 26b15ac08911b5dea83702bfe65636f9f7d3c99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:59 +0000
Subject: [PATCH 42/42] fix: parallel U-tubes share the flow evenly, however
 many there are

---
 .../borehole_heat_exchangers.py                        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index b6423a4..ae3e698 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -10,8 +10,8 @@ class BasePipe(object):
         # borehole mass flow rate
         self.m_flow_borehole = m_flow_borehole
         # mass flow rate to each pipe
-        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(m_flow_borehole,
-                                                            config)
+        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+            m_flow_borehole, config, pipe.n_pipes)
         # Store Thermal properties
         self.soil = soil
         self.grout = grout
@@ -78,11 +78,11 @@ class BasePipe(object):
         return
 
     @staticmethod
-    def compute_mass_flow_rate_pipe(m_flow_borehole, config):
+    def compute_mass_flow_rate_pipe(m_flow_borehole, config, n_pipes=2):
         if config == 'series' or config is None:
             m_flow_pipe = m_flow_borehole
         elif config == 'parallel':
-            m_flow_pipe = m_flow_borehole / 2.
+            m_flow_pipe = m_flow_borehole / float(n_pipes)
         else:
             raise ValueError('No such configuration exists.')
         return m_flow_pipe
@@ -201,7 +201,7 @@ class MultipleUTube(BasePipe, gt.pipes.MultipleUTube):
             self.fluid = fluid
 
         self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
-            m_flow_borehole, self.config)
+            m_flow_borehole, self.config, self.n_pipes)
         self.compute_resistances()
         R_fp = self.R_f + self.R_p
         self.update_thermal_resistances(R_fp)
-- 
2.43.0

