From 87467da01f3efba315fa894487bb3d80e197a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:17 +0000
Subject: [PATCH 01/35] fix: recalculation mode of birth-death killed particles
 it should duplicate

Events are (dup, kill) tuples. With recalculated probabilities the tuple was
built the wrong way round, so particles in over-populated regions (beta > 0)
were duplicated and those in under-populated regions killed.
---
 bdld/actions/birth_death.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 690140b..7fa222d 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -208,10 +208,10 @@ class BirthDeath(Action):
                 if rand[i] <= prob:
                     rand_other = self.random_other(num_part, i)
                     if beta[i] > 0:
-                        curr_event = (i, rand_other)
+                        curr_event = (rand_other, i)
                         self.stats.kill_count += 1
                     elif beta[i] < 0:
-                        curr_event = (rand_other, i)
+                        curr_event = (i, rand_other)
                         self.stats.dup_count += 1
                     self.perform_moves([curr_event])
                     event_list.append(curr_event)
-- 
2.43.0


From 57234f22f7995cfae942ff71bda7f8b5083b9bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:11 +0000
Subject: [PATCH 02/35] fix: new histograms contained a spurious count at the
 origin

The bins were set up by histogramming a dummy value at 0, which stayed in the
data whenever the range included 0.
---
 bdld/histogram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bdld/histogram.py b/bdld/histogram.py
index b2f86a9..8140957 100644
--- a/bdld/histogram.py
+++ b/bdld/histogram.py
@@ -46,6 +46,7 @@ class Histogram(grid.Grid):
             bins=self.n_points,
             range=self.histo_ranges,
         )
+        self.clear()  # the arbitrary value must not be counted
         self.ranges = [
             (a[0], a[-1]) for a in self.axes()
         ]  # ranges of points in underlying grid
-- 
2.43.0


From 86786b3bda13dee483456328478238e3f1727d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:12 +0000
Subject: [PATCH 03/35] fix: histogram counted trajectory data twice, not at
 all or at wrong steps

The window of new data was derived from the last write of the trajectories:
the last block was counted twice if the number of steps is a multiple of the
trajectory write stride, the remainder was dropped otherwise (if trajectories
are written to file), and without a trajectory file a histogram stride not
dividing the write stride picked the wrong time steps.
---
 bdld/actions/histogram_action.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/bdld/actions/histogram_action.py b/bdld/actions/histogram_action.py
index e616625..eb468c3 100644
--- a/bdld/actions/histogram_action.py
+++ b/bdld/actions/histogram_action.py
@@ -95,6 +95,7 @@ class HistogramAction(Action):
                 f"Saving histogram every {self.write_stride} time steps to '{filename}'"
             )
         self.update_stride = traj_action.write_stride
+        self.last_update: int = 0  # time step up to which the data was added
         print()
 
     def run(self, step: int):
@@ -124,23 +125,20 @@ class HistogramAction(Action):
             self.write()
 
     def get_traj_data(self, step: int) -> np.ndarray:
-        """Get the right data from the trajectory array
+        """Get the data from the trajectory array that was not returned before
 
         :param step: current simulation step
         """
-        # take into account that the traj might have been written this step
-        last_write = (
-            self.traj_action.last_write
-            if self.traj_action.last_write != step
-            else self.traj_action.last_write - self.traj_action.write_stride
-        )
-        return get_valid_data(
+        # the writes of the traj are independent of the updates of the histogram
+        data = get_valid_data(
             self.traj_action.positions,
             step,
             self.stride,
             1,  # assumes that traj data is stored even if not written
-            last_write,
+            self.last_update,
         )
+        self.last_update = step
+        return data
 
     def write(self, step: int = None):
         """Write histogram to file
-- 
2.43.0


From 10591e30ae9bf112e9de73ae2dcbc3f9304e9649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:14 +0000
Subject: [PATCH 04/35] fix: duplicate or uninitialized rows in delta-f and
 particle-distribution output

If no new data point was stored since the last write (but time steps passed)
and the buffer was at its beginning, the whole buffer was returned as valid.
---
 bdld/actions/action.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/actions/action.py b/bdld/actions/action.py
index 8ae81e7..3a718ea 100644
--- a/bdld/actions/action.py
+++ b/bdld/actions/action.py
@@ -63,7 +63,8 @@ def get_valid_data(
     :param update_stride: number of time steps between data points
     :param last_write: when the data was last written (needs to be less than write_stride ago)
     """
-    if step == last_write:  # manual check because already_written is 0 due to modulo
+    # manual check if there is any new data because already_written is 0 due to modulo
+    if step // update_stride == last_write // update_stride:
         return data[:0]  # empty view
 
     write_stride = data.shape[0] * update_stride  # wrapping time of data
-- 
2.43.0


From 6d8e2956e1cf8cc375e89619bba3c5a6ddf8f168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:15 +0000
Subject: [PATCH 05/35] fix: delta-f could not be used for more than one
 dimension

The flat masks never matched the shape of the FES, so setting up the action
always raised a ValueError.
---
 bdld/actions/delta_f_action.py | 2 +-
 bdld/main.py                   | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 45bb8e0..99a255e 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -158,7 +158,7 @@ def calculate_delta_f(fes: np.ndarray, kt: float, masks: List[np.ndarray]):
     :raises IndexError: if the dimensions of the FES and any of the masks do not match
     """
     probabilities = np.exp(-fes / float(kt)).reshape((-1))
-    state_probs = [np.sum(probabilities[m]) for m in masks]
+    state_probs = [np.sum(probabilities[m.reshape((-1))]) for m in masks]
     delta_f = [
         -kt * np.log(state_probs[i] / state_probs[0])
         for i in range(1, len(state_probs))
diff --git a/bdld/main.py b/bdld/main.py
index 5e4e45f..a6f0de0 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -359,7 +359,10 @@ def setup_delta_f(options: Dict, fes_action: FesAction) -> DeltaFAction:
         raise ValueError(e_msg)
 
     fes_points = fes_action.histo_action.histo.points()
-    masks = pos_inside_ranges(fes_points, state_ranges)
+    masks = [
+        mask.reshape(fes_action.fes.data.shape)
+        for mask in pos_inside_ranges(fes_points, state_ranges)
+    ]
 
     return DeltaFAction(
         fes_action,
-- 
2.43.0


From bf5c9397176b48cbefc2095c22254bc65b92f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 06/35] fix: points of 3d grids were not in row-major order

The order did not match the data array, values set or looked up via the list
of points ended up at the wrong coordinates in three dimensions.
---
 bdld/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 637f5b3..137d140 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -145,7 +145,7 @@ class Grid:
 
     def points(self) -> np.ndarray:
         """Return all grid points as a array of shape (n_points, dim) in row-major order"""
-        return np.array(np.meshgrid(*self.axes())).T.reshape(
+        return np.stack(np.meshgrid(*self.axes(), indexing="ij"), axis=-1).reshape(
             np.prod(self.n_points), self.n_dim
         )
 
-- 
2.43.0


From 7711fab729bb31fe206280ba0c4413c67ea217b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:18 +0000
Subject: [PATCH 07/35] fix: birth-death was not reproducible for seed 0

---
 bdld/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index a6f0de0..d37e10f 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -267,7 +267,7 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         options["recalculate-probabilities"],
         approx_variant,
         eq_density,
-        options["seed"] + 1000 if options["seed"] else None,
+        options["seed"] + 1000 if options["seed"] is not None else None,
         options["stats-stride"],
         options["stats-filename"],
     )
-- 
2.43.0


From 54e4a6faf8d3fc59e4f0db1b534e4a12587f0f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:19 +0000
Subject: [PATCH 08/35] fix: scaling a Mueller-Brown potential changed all
 other instances

The module-wide coefficients were scaled in place, so the factors of all
created potentials accumulated. Also respect a scaling factor of zero.
---
 bdld/potential/mueller_brown.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 774c08f..364b124 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -44,10 +44,8 @@ class MuellerBrownPotential(Potential):
 
         self.n_dim = 2
         self.ranges = [(-1.5, 1.5), (-0.5, 2.5)]
-        self.scaling_factor = scaling_factor or 1.0
-        if scaling_factor:
-            global A
-            A *= self.scaling_factor
+        self.scaling_factor = 1.0 if scaling_factor is None else scaling_factor
+        self.A = A * self.scaling_factor
 
     def __str__(self) -> str:
         """Give out coefficients"""
@@ -72,12 +70,12 @@ class MuellerBrownPotential(Potential):
                 + b[i] * (x - x0[i]) * (y - y0[i])
                 + c[i] * (y - y0[i]) ** 2
             )
-            pot += A[i] * exp_tmp1
+            pot += self.A[i] * exp_tmp1
             force[0] += (
-                -A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
             )
             force[1] += (
-                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
             )
         pot += pot_shift
         return (pot, force)
@@ -92,7 +90,7 @@ class MuellerBrownPotential(Potential):
         x = pos[0]
         y = pos[1]
         for i in range(4):
-            pot += A[i] * np.exp(
+            pot += self.A[i] * np.exp(
                 a[i] * (x - x0[i]) ** 2
                 + b[i] * (x - x0[i]) * (y - y0[i])
                 + c[i] * (y - y0[i]) ** 2
@@ -116,9 +114,9 @@ class MuellerBrownPotential(Potential):
                 + c[i] * (y - y0[i]) ** 2
             )
             force[0] += (
-                -A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
             )
             force[1] += (
-                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
             )
         return force
-- 
2.43.0


From 137bececa19323376601fb14917d702fc622d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 09/35] fix: periodic boundary left particles outside after
 moves over several periods

---
 bdld/potential/potential.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bdld/potential/potential.py b/bdld/potential/potential.py
index cd7d69a..bc36fae 100644
--- a/bdld/potential/potential.py
+++ b/bdld/potential/potential.py
@@ -173,7 +173,9 @@ class Potential:
         :param mom: momentum of particle per direction (not actually changed)
         """
         for i, x in enumerate(pos):
+            length = self.ranges[i][1] - self.ranges[i][0]
+            # particles can be more than one period outside
             if x < self.ranges[i][0]:
-                pos[i] += self.ranges[i][1] - self.ranges[i][0]
+                pos[i] += np.ceil((self.ranges[i][0] - x) / length) * length
             elif x > self.ranges[i][1]:
-                pos[i] -= self.ranges[i][1] - self.ranges[i][0]
+                pos[i] -= np.ceil((x - self.ranges[i][1]) / length) * length
-- 
2.43.0


From 4e0f893d54decb87bdfd0620c9c6a5915944cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 10/35] fix: input parser accepted more than 3 dimensions

Operator precedence made the condition equivalent to x > 0.
---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 1b41d9c..fa4e435 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -121,7 +121,7 @@ class Input:
         lambda lst: all(x > 0 for x in lst), "all values must be greater than zero"
     )
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
-    at_most_3dim = Condition(lambda x: x > 0 & x < 4, "must be between 1 and 3")
+    at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
     # @staticmethod
     # def match_dimensions(n_dim: int) -> Condition:
-- 
2.43.0


From 0d3d02ac59b6d9870b141035d0782b3061ac567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:23 +0000
Subject: [PATCH 11/35] fix: unconvertible values in list options were not
 reported as option errors

The ValueError ended the program with a traceback that did not tell which
option is wrong.
---
 bdld/inputparser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index fa4e435..1788fea 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -91,16 +91,20 @@ class InputOption:
                 val = section.getint(self.key)
             if self.keytype == bool:
                 val = section.getboolean(self.key)
+            # parsing of lists is a bit more complicated
+            if isinstance(self.keytype, list):
+                val = section.get(self.key)
+                val = [self.keytype[0](x) for x in val.split(",")]
         except ValueError as e:
+            if isinstance(self.keytype, list):
+                type_name = f"list of {self.keytype[0].__name__}"
+            else:
+                type_name = self.keytype.__name__
             raise OptionError(
-                f"could not be converted to {self.keytype.__name__}",
+                f"could not be converted to {type_name}",
                 self.key,
                 section.name,
             ) from e
-        # parsing of lists is a bit more complicated
-        if isinstance(self.keytype, list):
-            val = section.get(self.key)
-            val = [self.keytype[0](x) for x in val.split(",")]
         if self.condition:
             if not self.condition.function(val):
                 raise OptionError(self.condition.desc, self.key, section.name)
-- 
2.43.0


From 09e9b8927d07ea4533c5d2a5e36909476224a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:24 +0000
Subject: [PATCH 12/35] fix: missing sections required by fes and delta-f were
 not reported cleanly

main() only handles SectionError, not the NoSectionError of configparser.
---
 bdld/inputparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 1788fea..f58537d 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -338,7 +338,7 @@ class Input:
     def parse_fes(self, section: configparser.SectionProxy) -> None:
         """Define and parse the fes section"""
         if not self.histogram:
-            raise configparser.NoSectionError("histogram")
+            raise SectionError("histogram")
         options = [
             InputOption("kt", float, True, Input.positive),
             InputOption("stride", int, False, Input.positive),
@@ -355,7 +355,7 @@ class Input:
     def parse_delta_f(self, section: configparser.SectionProxy) -> None:
         """Define and parse if delta f should be calculated section"""
         if not self.fes:
-            raise configparser.NoSectionError("fes")
+            raise SectionError("fes")
         options = [
             InputOption("stride", int, False, Input.positive),
             InputOption("filename", str, False),
-- 
2.43.0


From 9f70ee210c3dc05e8cac9ea9b5ae6834aa99fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:26 +0000
Subject: [PATCH 13/35] fix: unknown birth-death approximation variants were
 not reported cleanly

ApproxVariant.from_str raises a TypeError, and the arguments of the OptionError
were swapped.
---
 bdld/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/main.py b/bdld/main.py
index d37e10f..69a3215 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -241,9 +241,9 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         if options[key]:
             try:
                 approx_variant = ApproxVariant.from_str(options[key])
-            except KeyError as err:
+            except TypeError as err:
                 e = "The specified {} could not be understood".format(key)
-                raise inputparser.OptionError(e, "birth-death", key) from err
+                raise inputparser.OptionError(e, key, "birth-death") from err
             return approx_variant
         return None
 
-- 
2.43.0


From a9d8374a915843427ba5b0eb55fbf88ed2cf8ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:27 +0000
Subject: [PATCH 14/35] fix: unknown boundary conditions were silently ignored

The simulation ran without any boundary condition instead.
---
 bdld/inputparser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index f58537d..0ca2356 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -241,7 +241,14 @@ class Input:
                 "type",
                 section.name,
             )
-        options.append(InputOption("boundary-condition", str, False))
+        boundary_conditions = ["periodic", "reflective"]
+        allowed_boundary_condition = Condition(
+            lambda x: x in boundary_conditions,
+            f"must be one of {boundary_conditions}",
+        )
+        options.append(
+            InputOption("boundary-condition", str, False, allowed_boundary_condition)
+        )
         self.potential = self.parse_section(section, options)
 
     def parse_particles(self, section: configparser.SectionProxy) -> None:
-- 
2.43.0


From 196983316f53804c7c237985d14a9fecc65592eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:28 +0000
Subject: [PATCH 15/35] fix: missing positions for the initial distribution
 were not reported cleanly

---
 bdld/inputparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 0ca2356..4957c39 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -277,7 +277,9 @@ class Input:
         options.append(init_dist_option)
 
         if init_dist in ["random-pos", "fractions-pos"]:
-            for i, _ in enumerate(get_all_numbered_values(section, "pos")):
+            # at least one position is required
+            n_pos = max(1, len(get_all_numbered_values(section, "pos")))
+            for i in range(n_pos):
                 options.append(InputOption(f"pos{i+1}", [float], True))
 
         if init_dist == "fractions-pos":
-- 
2.43.0


From be7b8fbad62a2faef9ab565a72077999fe44ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:30 +0000
Subject: [PATCH 16/35] fix: too few states for delta-f were not reported
 cleanly

---
 bdld/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 69a3215..765fd0b 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -356,7 +356,7 @@ def setup_delta_f(options: Dict, fes_action: FesAction) -> DeltaFAction:
     state_ranges = inputparser.min_max_to_ranges(min_list, max_list)
     if len(state_ranges) < 2:
         e_msg = "You need to specify at least 2 states for delta F calculations"
-        raise ValueError(e_msg)
+        raise inputparser.OptionError(e_msg, "state2-min / state2-max", "delta-f")
 
     fes_points = fes_action.histo_action.histo.points()
     masks = [
-- 
2.43.0


From c4a5cf8785ccf18f343c652cfdaa0d6cf3e26d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:31 +0000
Subject: [PATCH 17/35] fix: the (required) kt option of the fes section was
 ignored

The documentation states that this temperature is used to calculate the FES.
delta-f has to use the same value to be consistent with the FES.
---
 bdld/actions/delta_f_action.py | 4 ++--
 bdld/actions/fes_action.py     | 4 +++-
 bdld/main.py                   | 1 +
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 99a255e..e8fabf5 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -67,8 +67,8 @@ class DeltaFAction(Action):
         else:  # just store one data set
             self.delta_f = np.empty((len(self.masks)))
 
-        # copy temp and timestep from LD
-        self.kt = self.fes_action.histo_action.traj_action.ld.kt
+        # copy temp from FES and timestep from LD
+        self.kt = self.fes_action.kt
         self.dt = self.fes_action.histo_action.traj_action.ld.dt
 
         if ref:
diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index c3df662..2c246e8 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -41,6 +41,7 @@ class FesAction(Action):
         plot_domain: Optional[Tuple[float, float]] = None,
         plot_title: str = None,
         ref: Optional[np.ndarray] = None,
+        kt: Optional[float] = None,
     ) -> None:
         """Set up fes calculation for a Histogram
 
@@ -59,6 +60,7 @@ class FesAction(Action):
         :param plot_filename: filename for plot, optional
         :param plot_domain: specify domain for plots, optional
         :param ref: reference fes for plot, optional
+        :param kt: thermal energy used for the fes, defaults to the one of the LD
         :raise ValueError: if a write_stride but no stride is passed
         :raise ValueError: if a write_stride but no filename is passed
         :raise ValueError: if a plot_stride but no stride is passed
@@ -66,7 +68,7 @@ class FesAction(Action):
         """
         print("Setting up FES calculation for the histogram\n" + "Parameters:")
         self.histo_action = histo_action
-        self.kt = self.histo_action.traj_action.ld.kt
+        self.kt = kt or self.histo_action.traj_action.ld.kt
         print(f"  kt = {self.kt}")
         # set up grid by running analysis to have dimensions and allow checks on shape
         self.fes = calculate_fes(self.histo_action.histo, self.kt)
diff --git a/bdld/main.py b/bdld/main.py
index 765fd0b..be7c3df 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -346,6 +346,7 @@ def setup_fes(options: Dict, histo_action: HistogramAction) -> FesAction:
         options["plot-domain"],
         options["plot-title"],
         ref,
+        options["kt"],
     )
 
 
-- 
2.43.0


From 63d6bb1e29bb113ec4629b8a16becb5bca5039e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:32 +0000
Subject: [PATCH 18/35] fix: exact fractions of particles were not met due to
 floating point errors

E.g. 100 particles with fractions 71, 29 were distributed as 72, 28.
---
 bdld/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index be7c3df..2fc6be2 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -205,7 +205,10 @@ def init_particles(options: Dict, ld: LdType) -> None:
         normalized_fractions = np.array(options["fractions"]) / np.sum(
             options["fractions"]
         )
-        counts = [int(frac * options["number"]) for frac in normalized_fractions]
+        # round before truncating: exact shares might be slightly below due to floats
+        counts = [
+            int(round(frac * options["number"], 6)) for frac in normalized_fractions
+        ]
         counts[0] += options["number"] - np.sum(counts)  # rounding offset
         init_pos_choices = cast(
             List[List[float]], inputparser.get_all_numbered_values(options, "pos")
-- 
2.43.0


From a7c5d7bf1454c786a057c3c8d02fb04622d9b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:33 +0000
Subject: [PATCH 19/35] fix: inconsistent dimensions of state bounds were not
 detected

a != b != c does not check that all three are equal.
---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 4957c39..c698fcd 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -481,7 +481,7 @@ def min_max_to_ranges(
     try:
         n_dim = len(min_list[0])  # TypeError if not list
         for i, _ in enumerate(min_list):
-            if len(min_list[i]) != len(max_list[i]) != n_dim:
+            if not len(min_list[i]) == len(max_list[i]) == n_dim:
                 raise ValueError(f"Dimensions of min/max {i} are inconsistent")
     except TypeError:  # elements are not lists
         for min_max_i in min_list + max_list:
-- 
2.43.0


From b7abca264fee8faacbbfa06c4f121c21ab362254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:34 +0000
Subject: [PATCH 20/35] fix: headers of delta-f and particle-distribution files
 missed the first column

---
 bdld/actions/delta_f_action.py        | 2 +-
 bdld/actions/particle_distribution.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index e8fabf5..f822b3c 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -82,7 +82,7 @@ class DeltaFAction(Action):
             if ref:
                 for i, val in enumerate(self.ref_values):
                     constants[f"ref_{fields[i]}"] = val
-            initialize_file(self.filename, fields, constants)
+            initialize_file(self.filename, ["time"] + fields, constants)
             stride_str = (
                 f"of every {make_ordinal(self.stride)} time step "
                 if self.stride
diff --git a/bdld/actions/particle_distribution.py b/bdld/actions/particle_distribution.py
index da5bc1d..2acbfc0 100644
--- a/bdld/actions/particle_distribution.py
+++ b/bdld/actions/particle_distribution.py
@@ -67,7 +67,8 @@ class ParticleDistributionAction(Action):
         # writing
         self.filename = filename
         if self.filename:
-            fields = [f"n_particles_{i}" for i in range(len(self.states))]
+            fields = ["timestep"]
+            fields += [f"n_particles_{i}" for i in range(len(self.states))]
             constants = OrderedDict()  # add state ranges to file header
             for i, state in enumerate(self.states):
                 constants[f"state_{i}"] = str(state)
-- 
2.43.0


From 61197b77335fa4d523f32e3c6ed382bff9d4ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:36 +0000
Subject: [PATCH 21/35] fix: periodic plots of the FES could not be saved

The step was appended after the file extension, which matplotlib refuses to
save, and the program then waited for interactive input.
---
 bdld/actions/fes_action.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index 2c246e8..1d8052a 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -5,6 +5,7 @@ Also holds functions for calculating and plotting the FES
 
 from collections import OrderedDict
 import logging
+import os
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -170,7 +171,9 @@ class FesAction(Action):
         """
         if self.plot_filename:
             if step:
-                plot_filename = f"{self.plot_filename}_{step}"
+                # keep extension at the end as it determines the file format
+                root, extension = os.path.splitext(self.plot_filename)
+                plot_filename = f"{root}_{step}{extension}"
                 plot_title = f"{self.plot_title}_{step}"
             else:
                 plot_filename = self.plot_filename
-- 
2.43.0


From 4fce8dc89a9a4d8ca34508d7f09c00c094f0b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:37 +0000
Subject: [PATCH 22/35] fix: 2d FES plots had the axes swapped

---
 bdld/actions/fes_action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index 1d8052a..a5ddae2 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -256,7 +256,7 @@ def plot_fes(
             vmin = None
             vmax = None
         img = ax.imshow(
-            fes,
+            fes.T,  # first index is the vertical axis for imshow
             origin="lower",
             extent=(axes[0][0], axes[0][-1], axes[-1][0], axes[-1][-1]),
             vmin=vmin,
-- 
2.43.0


From 1f08479c8e270c337a0e4897b312ee54012d6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:39 +0000
Subject: [PATCH 23/35] fix: coefficient files with a single row could not be
 read

---
 bdld/potential/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/potential/polynomial.py b/bdld/potential/polynomial.py
index dc5279e..5683ee1 100644
--- a/bdld/potential/polynomial.py
+++ b/bdld/potential/polynomial.py
@@ -96,7 +96,7 @@ def coefficients_from_file(filename: str, n_dim: int) -> np.ndarray:
     :param filename: path to file holding the coefficients
     :param n_dim: dimensions of potential
     """
-    file_data = np.genfromtxt(filename)
+    file_data = np.atleast_2d(np.genfromtxt(filename))  # might be a single row
 
     # highest polynomial order per dimension
     shape = [int(max(file_data[:, i])) + 1 for i in range(n_dim)]
-- 
2.43.0


From 9ae75dca77f605b4af302fd858d8196b7b8fcd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:41 +0000
Subject: [PATCH 24/35] fix: coefficient files could not be used in one
 dimension

The documentation allows coeffs-file as alternative to coeffs in 1d, but it
was ignored. Giving none of both is now reported as missing option.
---
 bdld/inputparser.py | 3 ++-
 bdld/main.py        | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index c698fcd..580c908 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -217,7 +217,8 @@ class Input:
                 options = [
                     type_option,
                     n_dim_option,
-                    InputOption("coeffs", [float], False),
+                    InputOption("coeffs", [float], "coeffs-file" not in section),
+                    InputOption("coeffs-file", str, False),
                     InputOption("min", float, True),
                     InputOption("max", float, True),
                 ]
diff --git a/bdld/main.py b/bdld/main.py
index 2fc6be2..cebf502 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -128,9 +128,12 @@ def setup_potential(options: Dict) -> Potential:
     if options["type"] == "polynomial":
         if options["n_dim"] == 1:
             ranges = [(options["min"], options["max"])]
-            pot: Potential = potential.polynomial.PolynomialPotential(
-                options["coeffs"], ranges
-            )
+            coeffs = options["coeffs"]
+            if coeffs is None:
+                coeffs = potential.polynomial.coefficients_from_file(
+                    options["coeffs-file"], options["n_dim"]
+                )
+            pot: Potential = potential.polynomial.PolynomialPotential(coeffs, ranges)
         else:
             ranges = list(zip(options["min"], options["max"]))
             coeffs = potential.polynomial.coefficients_from_file(
-- 
2.43.0


From 0d9dc8a967c36351cce6a104938f058892d50587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:42 +0000
Subject: [PATCH 25/35] fix: crash of birth-death for a single particle with
 additive approximation

---
 bdld/actions/birth_death.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 7fa222d..ce277f1 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -161,6 +161,8 @@ class BirthDeath(Action):
         :return event_list: List with Tuples (dup_i, kill_i) of the accepted events
         """
         num_part = len(self.particles)
+        if num_part < 2:  # there is no other particle to duplicate or kill
+            return []
 
         beta = self.calc_betas()  # initial calculation of betas
         rand = self.rng.random(num_part)  # rng for all at once
-- 
2.43.0


From f9ce87fc014ec39dc3c9b879c3e06242d0dea750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:43 +0000
Subject: [PATCH 26/35] fix: grids from exactly fitting stepsizes were shrunk
 or extended

With shrink=True the last point was always dropped, and otherwise floating
point errors could add one interval.
---
 bdld/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 137d140..5c7359b 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -310,7 +310,9 @@ def from_stepsizes(
             stepsizes = [stepsizes] * grid.n_dim
     grid.stepsizes = copy.deepcopy(stepsizes)
     for i, r in enumerate(ranges):
-        n_points_tmp = int(np.ceil((r[1] - r[0]) / stepsizes[i])) + 1 - int(shrink)
+        # round to avoid an additional interval due to floating point errors
+        n_intervals = round((r[1] - r[0]) / stepsizes[i], 9)
+        n_points_tmp = int(np.floor(n_intervals) if shrink else np.ceil(n_intervals)) + 1
         grid.ranges.append((float(r[0]), r[0] + stepsizes[i] * (n_points_tmp - 1)))
         grid.n_points.append(n_points_tmp)
     return grid
-- 
2.43.0


From b6893b299edd2bb61653c8ad682bc0c6db61cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:45 +0000
Subject: [PATCH 27/35] fix: 3d grids were silently not written to file

---
 bdld/grid.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bdld/grid.py b/bdld/grid.py
index 5c7359b..0484b7b 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -210,6 +210,16 @@ class Grid:
                 fmt,
                 header,
             )
+        else:
+            np.savetxt(
+                filename,
+                np.c_[self.points(), self.data.reshape(-1)],
+                fmt=fmt,
+                header=header,
+                delimiter=" ",
+                newline="\n",
+                comments="",
+            )
 
 
 def convolve(g1: Grid, g2: Grid, mode: str = "valid", method: str = "auto") -> Grid:
-- 
2.43.0


From 7aca812acdf58b4b00ed684508771216a9115303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:43 +0000
Subject: [PATCH 28/35] fix: periodic boundary could leave particles outside by
 rounding errors

---
 bdld/potential/potential.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bdld/potential/potential.py b/bdld/potential/potential.py
index bc36fae..d51f164 100644
--- a/bdld/potential/potential.py
+++ b/bdld/potential/potential.py
@@ -179,3 +179,5 @@ class Potential:
                 pos[i] += np.ceil((self.ranges[i][0] - x) / length) * length
             elif x > self.ranges[i][1]:
                 pos[i] -= np.ceil((x - self.ranges[i][1]) / length) * length
+            # rounding errors must not leave the particle outside
+            pos[i] = min(max(pos[i], self.ranges[i][0]), self.ranges[i][1])
-- 
2.43.0


From dc3379afa45d2bae872b2a9c150a66c297a23146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:09 +0000
Subject: [PATCH 29/35] fix: probability density was not a number for energies
 large compared to kt

---
 bdld/potential/potential.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/potential/potential.py b/bdld/potential/potential.py
index d51f164..d8683fb 100644
--- a/bdld/potential/potential.py
+++ b/bdld/potential/potential.py
@@ -92,7 +92,8 @@ class Potential:
             raise ValueError("Dimension of grid_points do not match potential")
         fes = grid.from_npoints(ranges, grid_points)
         fes.set_from_func(self.energy)
-        prob = np.exp(-fes / kt)
+        # shift by minimum to not exceed floating point range for low kt
+        prob = np.exp(-(fes - np.min(fes.data)) / kt)
         # normalize with volume element from stepsizes
         prob /= np.sum(prob.data) * np.prod(prob.stepsizes)
         return prob
-- 
2.43.0


From 38caa03a1e211fa0c4d8992b886f32d100cbf30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:23 +0000
Subject: [PATCH 30/35] fix: smoothing shifted the density if the bandwidth did
 not match the grid spacing

---
 bdld/actions/birth_death.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index ce277f1..00563ae 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -504,7 +504,9 @@ def dens_kernel_convolution(
                       If 'same' it will use exactly the ranges of the original grid.
     :return conv: grid holding the convolution values
     """
-    kernel_ranges = [(-x, x) for x in 5 * bw]  # cutoff at 5 sigma
+    # cutoff at 5 sigma, whole number of steps to have the kernel centered on the grid
+    n_steps = np.floor(np.round(5 * bw / eq_density.stepsizes, 9))
+    kernel_ranges = [(-x, x) for x in n_steps * eq_density.stepsizes]
     kernel = grid.from_stepsizes(kernel_ranges, eq_density.stepsizes)
     kernel.data = calc_kernel(kernel.points(), bw)
     # direct method is needed to avoid getting negative values instead of really small ones
-- 
2.43.0


From 5fcb73c6d33cedee55912aa91fc0efc934ffdf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:01 +0000
Subject: [PATCH 31/35] fix: plots of the FES overwrote existing files

All other output files are backed up if they exist already, do the
same for the plots.
---
 bdld/actions/fes_action.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index a5ddae2..ed8b914 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -178,6 +178,7 @@ class FesAction(Action):
             else:
                 plot_filename = self.plot_filename
                 plot_title = self.plot_title
+            backup_if_exists(plot_filename)
             plot_fes(
                 self.fes.data,
                 self.fes.axes(),
-- 
2.43.0


From de537b36d8607fd3654989b5135f5d8ff9d52cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:09 +0000
Subject: [PATCH 32/35] fix: DeltaFAction could not be given a reference
 surface

The truth value of a numpy array is ambiguous, so passing ref always raised
a ValueError.
---
 bdld/actions/delta_f_action.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index f822b3c..46029ef 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -71,7 +71,7 @@ class DeltaFAction(Action):
         self.kt = self.fes_action.kt
         self.dt = self.fes_action.histo_action.traj_action.ld.dt
 
-        if ref:
+        if ref is not None:
             self.ref_values = calculate_delta_f(ref, self.kt, self.masks)
 
         # writing
@@ -79,7 +79,7 @@ class DeltaFAction(Action):
         if self.filename:
             fields = [f"delta_f.1-{i}" for i in range(2, len(self.masks) + 1)]
             constants = OrderedDict([("kt", self.kt)])
-            if ref:
+            if ref is not None:
                 for i, val in enumerate(self.ref_values):
                     constants[f"ref_{fields[i]}"] = val
             initialize_file(self.filename, ["time"] + fields, constants)
-- 
2.43.0


From 09232bef6401054543480995c008d85ce20c0dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:53 +0000
Subject: [PATCH 33/35] fix: refuse potential ranges that do not match the
 dimensions

Missing values left dimensions without range (failing during the run with
boundary conditions), additional values were silently ignored.
---
 bdld/main.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bdld/main.py b/bdld/main.py
index cebf502..fffbcd4 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -135,6 +135,13 @@ def setup_potential(options: Dict) -> Potential:
                 )
             pot: Potential = potential.polynomial.PolynomialPotential(coeffs, ranges)
         else:
+            for key in ["min", "max"]:
+                if len(options[key]) != options["n_dim"]:
+                    raise inputparser.OptionError(
+                        f"does not match dimensions (should be {options['n_dim']} values)",
+                        key,
+                        "potential",
+                    )
             ranges = list(zip(options["min"], options["max"]))
             coeffs = potential.polynomial.coefficients_from_file(
                 options["coeffs-file"], options["n_dim"]
-- 
2.43.0


From 0c6c647c98118825194e82bd6fb75755c268964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:53 +0000
Subject: [PATCH 34/35] fix: refuse states that do not match the dimensions of
 the system

Too few values raised an IndexError when the particles were first counted,
i.e. possibly after the whole simulation. Too many were silently ignored.
---
 bdld/main.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bdld/main.py b/bdld/main.py
index fffbcd4..c61e5df 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -371,6 +371,11 @@ def setup_delta_f(options: Dict, fes_action: FesAction) -> DeltaFAction:
     if len(state_ranges) < 2:
         e_msg = "You need to specify at least 2 states for delta F calculations"
         raise inputparser.OptionError(e_msg, "state2-min / state2-max", "delta-f")
+    if len(state_ranges[0]) != fes_action.fes.n_dim:
+        e_msg = "The dimensions of the states do not match the potential"
+        raise inputparser.OptionError(
+            e_msg, "statex-min / statex-max", "delta-f"
+        )
 
     fes_points = fes_action.histo_action.histo.points()
     masks = [
@@ -395,6 +400,11 @@ def setup_particle_distribution(
     min_list = inputparser.get_all_numbered_values(options, "state", "-min")
     max_list = inputparser.get_all_numbered_values(options, "state", "-max")
     state_ranges = inputparser.min_max_to_ranges(min_list, max_list)
+    if len(state_ranges[0]) != ld.pot.n_dim:
+        e_msg = "The dimensions of the states do not match the potential"
+        raise inputparser.OptionError(
+            e_msg, "statex-min / statex-max", "particle-distribution"
+        )
 
     return ParticleDistributionAction(
         ld.particles,  # type: ignore
-- 
2.43.0


From b2a5df2f45985e91bbe55c8a19a1afe322a118b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:17 +0000
Subject: [PATCH 35/35] fix: refuse histogram ranges with different number of
 minimum and maximum values

The additional values were silently ignored.
---
 bdld/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bdld/main.py b/bdld/main.py
index c61e5df..f75a442 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -328,6 +328,10 @@ def setup_histogram(options: Dict, traj_action: TrajectoryAction) -> HistogramAc
         ranges = [(options["min"], options["max"])]
         n_bins = [options["bins"]]
     else:
+        if len(options["min"]) != len(options["max"]):
+            raise inputparser.OptionError(
+                "Dimensions of minimum and maximum do not match", "min / max", "histogram"
+            )
         ranges = list(zip(options["min"], options["max"]))
         n_bins = options["bins"]
     return HistogramAction(
-- 
2.43.0

