From 5cc48bf274f3ce163cbfbe6e30b56dd81d5fe5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 01/11] fix: honour the configured step size

Phase::reset restores the step size from base_stepsize, which was never set
from the configuration, so every simulation ran with the default of 1 s.
---
 sim/src/phase.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 964e3c5..2de045f 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -274,6 +274,7 @@ impl Phase {
         }
         if let Some(config) = config.stepsize {
             phase.stepsize = config;
+            phase.base_stepsize = config;
         }
         if let Some(config) = config.end_criterion {
             phase.end_criterion = config;
-- 
2.43.0


From 5698c3af1f79d8806c87b858f87af00559f8ec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 02/11] fix: honour the initial altitude

The altitude of the init configuration was parsed but never used.
---
 sim/src/phase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 2de045f..01b78b9 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -325,7 +325,7 @@ impl Phase {
         let distance_to_surface =
             self.planet.equatorial_radius / f64::sqrt(1. + (k - 1.) * geocentric_lat.sin().powi(2));
 
-        self.state.position = distance_to_surface
+        self.state.position = (distance_to_surface + config.altitude)
             * vector![
                 geocentric_lat.cos() * long.cos(),
                 geocentric_lat.cos() * long.sin(),
-- 
2.43.0


From 4e81fea969e87a3cd5285650bc2bd2066ab2f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 03/11] fix: geodetic to geocentric latitude conversion

k is the squared ratio of equatorial to polar radius, so that
tan(geocentric) = tan(geodetic) / k. The launch site was moved towards the
pole instead of the equator on oblate planets.
---
 sim/src/phase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 01b78b9..6b88cb5 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -318,7 +318,7 @@ impl Phase {
 
         let k = (self.planet.equatorial_radius / self.planet.polar_radius).powi(2);
 
-        let geocentric_lat = f64::atan(k.powi(2) * lat.tan());
+        let geocentric_lat = f64::atan(lat.tan() / k);
 
         self.launch = [geocentric_lat, long, az];
 
-- 
2.43.0


From fffb51e5a76d6fee980884020150cac6c1241180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 04/11] fix: do not treat a value moving away from its target
 as an overshoot

event_is_active only looked at the side of the target the new value is on, so
a criterion which moves away from its target (or stays constant above it) was
taken for an overshoot: the simulation then stepped backwards in time, or by
an infinite step size.
---
 sim/src/phase.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 6b88cb5..9bca574 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -135,7 +135,8 @@ impl Phase {
         let y_t_1 = self.end_criterion.0.get_value(new_state) - self.end_criterion.1;
         let dt = self.stepsize;
 
-        -y_t * dt / (y_t_1 - y_t)
+        // Never step back in time, e.g. if the target was just passed in the last phase
+        (-y_t * dt / (y_t_1 - y_t)).max(0.)
     }
 
     /// Checks whether the target value was overshot
@@ -144,12 +145,15 @@ impl Phase {
     /// time step and then checks whether the current value is above or below
     /// the target value.
     fn event_is_active(&self, old_state: &State, new_state: &State) -> bool {
-        if self.end_criterion.0.get_value(new_state) < self.end_criterion.0.get_value(old_state) {
-            // Function is going down, so check if function < target
-            self.end_criterion.0.get_value(new_state) < self.end_criterion.1
+        let old = self.end_criterion.0.get_value(old_state) - self.end_criterion.1;
+        let new = self.end_criterion.0.get_value(new_state) - self.end_criterion.1;
+
+        if new < old {
+            // Function is going down, so check if it was above and is now below the target
+            old > -1e-3 && new < 0.
         } else {
-            // Function is going up, check if function > target
-            self.end_criterion.0.get_value(new_state) > self.end_criterion.1
+            // Function is going up, check if it was below and is now above the target
+            old < 1e-3 && new > 0.
         }
     }
 
-- 
2.43.0


From 0129afa8f58884ed1e27b80791554fcda9220bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 05/11] fix: sign of the angle of attack without forward
 velocity

The angle of attack was 90 deg for flow from below, but 0 instead of -90 deg
for flow from above.
---
 sim/src/vehicle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index f3339b0..4fbb04e 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -102,7 +102,7 @@ impl Vehicle {
     /// respect to the atmosphere in body frame.
     pub fn alpha(velocity: Vector3<f64>) -> f64 {
         if velocity.x < NEARLY_ZERO {
-            if velocity.z < NEARLY_ZERO {
+            if velocity.z.abs() < NEARLY_ZERO {
                 return 0.;
             }
             return velocity.z.signum() * PI / 2.;
-- 
2.43.0


From 1cc8c8404969706860ae97a1d1860440adb080bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 06/11] fix: do not drop drag or lift if the other table is
 missing

A missing table yields NaN, which spread from one coefficient to both axial and
normal force before NaNs were replaced by zero. A vehicle with a drag table only
had no drag.
---
 sim/src/vehicle.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index 4fbb04e..2d4bb90 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -178,9 +178,15 @@ impl Vehicle {
     /// coefficients are calculated with tables, which can take any state
     /// variable as input.
     pub fn aero_force(&self, state: &State) -> Vector3<f64> {
-        let cd = self.drag_coeff.at_state(state);
-        let cl = self.lift_coeff.at_state(state);
-        let cy = self.side_force_coeff.at_state(state);
+        // An empty table has no effect
+        let coeff = |table: &Table| match table.at_state(state) {
+            coeff if coeff.is_nan() => 0.,
+            coeff => coeff,
+        };
+
+        let cd = coeff(&self.drag_coeff);
+        let cl = coeff(&self.lift_coeff);
+        let cy = coeff(&self.side_force_coeff);
 
         let ca = state.alpha.cos() * cd - state.alpha.sin() * cl;
         let cn = state.alpha.sin() * cd + state.alpha.cos() * cl;
-- 
2.43.0


From e5100301ef4cde988afcc0145ddfd2ece0bc0b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 07/11] fix: base altitude of the atmosphere layer at 386,406
 ft

The base temperatures and gradients of this layer and its neighbours only
fit together with 386,406.39 ft (117.777 km); with 396,406.39 ft the
temperature jumped by 57 degrees Rankine at this altitude.
---
 sim/src/atmosphere/standard_atmosphere_1962.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/atmosphere/standard_atmosphere_1962.rs b/sim/src/atmosphere/standard_atmosphere_1962.rs
index f772d72..4e53e48 100644
--- a/sim/src/atmosphere/standard_atmosphere_1962.rs
+++ b/sim/src/atmosphere/standard_atmosphere_1962.rs
@@ -143,7 +143,7 @@ const STD_ATMOS_TABLE: [(f64, f64, f64, f64); 22] = [
         0.56867005e-2 * KELVIN_PER_RANKIN / METER_PER_FOOT,
     ),
     (
-        396_406.39 * METER_PER_FOOT,
+        386_406.39 * METER_PER_FOOT,
         0.52676024e-4 * PASCAL_PER_PSF,
         649.17 * KELVIN_PER_RANKIN,
         0.11443751e-1 * KELVIN_PER_RANKIN / METER_PER_FOOT,
-- 
2.43.0


From afd1eca5979a0a6db4089e52d5f18135610c29ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 08/11] fix: base pressure of the atmosphere layer at 480,781
 ft

The hydrostatic equation gives 0.1058611e-4 psf from the layer below (and
from it the base pressure of the layer above), not 0.1056611e-4 psf.
---
 sim/src/atmosphere/standard_atmosphere_1962.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/atmosphere/standard_atmosphere_1962.rs b/sim/src/atmosphere/standard_atmosphere_1962.rs
index 4e53e48..6ab0719 100644
--- a/sim/src/atmosphere/standard_atmosphere_1962.rs
+++ b/sim/src/atmosphere/standard_atmosphere_1962.rs
@@ -150,7 +150,7 @@ const STD_ATMOS_TABLE: [(f64, f64, f64, f64); 22] = [
     ),
     (
         480_781.04 * METER_PER_FOOT,
-        0.10566108e-4 * PASCAL_PER_PSF,
+        0.10586108e-4 * PASCAL_PER_PSF,
         1_729.17 * KELVIN_PER_RANKIN,
         0.86358208e-2 * KELVIN_PER_RANKIN / METER_PER_FOOT,
     ),
-- 
2.43.0


From 6aa0c9f17ea9d5461716379a77d4cd3468661d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 09/11] fix: accept the documented name of the Fisher planet
 model

The manual calls it "fisher_1960", which was refused: serde's snake case
of the variant is "fisher1960" (still accepted).
---
 sim/src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/config.rs b/sim/src/config.rs
index b94f219..3d2d48a 100644
--- a/sim/src/config.rs
+++ b/sim/src/config.rs
@@ -25,6 +25,7 @@ pub enum PlanetConfig {
     Spherical,
     /// 1960 Fisher earth model (includes up to J2)
     /// See [`crate::planet`] for more information.
+    #[serde(rename = "fisher_1960", alias = "fisher1960")]
     Fisher1960,
     /// Smithsonian earth model (includes up to J4)
     /// See [`crate::planet`] for more information.
-- 
2.43.0


From 6f1e9ca17e887e4b72b2273f17198b4e53493bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 10/11] fix: check the argument values of table dimensions
 without data

---
 sim/src/utils/tables/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sim/src/utils/tables/mod.rs b/sim/src/utils/tables/mod.rs
index 58b9b9e..21912f5 100644
--- a/sim/src/utils/tables/mod.rs
+++ b/sim/src/utils/tables/mod.rs
@@ -229,6 +229,12 @@ mod init {
         }
     }
 
+    /// Helper function to check whether a state variable array is sorted, even
+    /// if there is no data to validate it with.
+    fn validate_sorted(idx_arr: &[f64]) -> Result<(), TableInitError> {
+        validate(idx_arr, idx_arr)
+    }
+
     impl Table1D {
         /// Tries to create a 1D table from unchecked data. Checks wether the
         /// array in `"x"` is sorted, and its length matches the one in the
@@ -259,6 +265,7 @@ mod init {
             interpolator: Interpolator,
         ) -> Result<Self, TableInitError> {
             validate(x.1, data)?;
+            validate_sorted(y.1)?;
 
             for y_data in data.iter() {
                 validate(y.1, y_data)?;
@@ -285,6 +292,8 @@ mod init {
             interpolator: Interpolator,
         ) -> Result<Self, TableInitError> {
             validate(x.1, data)?;
+            validate_sorted(y.1)?;
+            validate_sorted(z.1)?;
 
             for y_data in data.iter() {
                 validate(y.1, y_data)?;
-- 
2.43.0


From ccffa14cfe678aa0f2aadf5ff569ce86264a1786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 11/11] fix: take rotation matrices as they are instead of
 refitting them iteratively

The iterative refit starts from the identity and returns a wrong rotation
for half turns.
---
 sim/src/transformations.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sim/src/transformations.rs b/sim/src/transformations.rs
index a0c438d..8cff43d 100644
--- a/sim/src/transformations.rs
+++ b/sim/src/transformations.rs
@@ -11,7 +11,7 @@ use nalgebra::{matrix, Rotation3};
 ///
 /// Uses the geocentric latitude, longitude and azimuth in rad.
 pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
                                        lat.cos()*long.cos(),                                lat.cos()*long.sin(),           lat.sin();
         lat.sin()*long.cos()*az.sin() - az.cos()*long.sin(), az.cos()*long.cos() + az.sin()*lat.sin()*long.sin(), -az.sin()*lat.cos();
        -az.sin()*long.sin() - az.cos()*lat.sin()*long.cos(), az.sin()*long.cos() - az.cos()*lat.sin()*long.sin(),  az.cos()*lat.cos()
@@ -22,7 +22,7 @@ pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {
 ///
 /// Uses the roll, yaw and pitch angles in rad.
 pub fn launch_to_body(roll: f64, yaw: f64, pitch: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
         yaw.cos()*pitch.cos(), roll.cos()*yaw.sin()*pitch.cos() + roll.sin()*pitch.sin(), roll.sin()*yaw.sin()*pitch.cos() - roll.cos()*pitch.sin();
                    -yaw.sin(),                                      roll.cos()*yaw.cos(),                                      roll.sin()*yaw.cos();
         yaw.cos()*pitch.sin(), roll.cos()*yaw.sin()*pitch.sin() - roll.sin()*pitch.cos(), roll.sin()*yaw.sin()*pitch.sin() + roll.cos()*pitch.cos()
@@ -46,7 +46,7 @@ pub fn inertial_to_body(launch: [f64; 3], euler_angles: [f64; 3]) -> Rotation3<f
 /// Uses the current simulation time in sec and the planet's rotation rate in
 /// rad/sec.
 pub fn inertial_to_planet(time: f64, rotation_rate: f64) -> Rotation3<f64> {
-    Rotation3::from_matrix(&matrix![
+    Rotation3::from_matrix_unchecked(matrix![
         (rotation_rate*time).cos(), (rotation_rate*time).sin(), 0.;
        -(rotation_rate*time).sin(), (rotation_rate*time).cos(), 0.;
                                 0.,                         0., 1.
-- 
2.43.0

