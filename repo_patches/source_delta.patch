From cf359944139160beaacf1a8fb1fead2045854064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 01/77] =?UTF-8?q?fix:=20GCRS=E2=86=92CIRS=20matrix=20sends?=
 =?UTF-8?q?=20the=20CIP=20to=20+Z=20(sign=20of=20d=20in=20R2)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/astro/cio.rs                     | 21 ++++++++-------------
 src/astro/earth_rotation_provider.rs |  9 +++++----
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/astro/cio.rs b/src/astro/cio.rs
index 9250fb0..27f9a43 100644
--- a/src/astro/cio.rs
+++ b/src/astro/cio.rs
@@ -24,7 +24,7 @@
 //! bias-precession-nutation (NPB) matrix rather than truncated series. The
 //! CIO locator is implemented in the simplified high-accuracy form
 //! `s ≈ −½ X Y`, sufficient for ~1 μas precision. The intermediate-frame
-//! rotation `Q(t) = R₃(−E)·R₂(−d)·R₃(E)·R₃(s)` with
+//! rotation `Q(t) = R₃(−(E + s))·R₂(d)·R₃(E)` with
 //! `E = atan2(Y, X)`, `d = acos(√(1 − X² − Y²))` is built directly from
 //! `affn::Rotation3` factors.
 //!
@@ -119,7 +119,7 @@ pub fn cip_cio(jd: JulianDate, dpsi: Radians, deps: Radians) -> CipCio {
 /// (CIRS), using the CIP coordinates (X, Y) and CIO locator s.
 ///
 /// ```text
-/// Q(t) = R₃(−E)·R₂(−d)·R₃(E + s)
+/// Q(t) = R₃(−(E + s))·R₂(d)·R₃(E)
 /// ```
 ///
 /// where `E = atan2(Y, X)`, `d = acos(√(1 − X² − Y²))`.
@@ -136,8 +136,8 @@ pub fn gcrs_to_cirs_matrix(x: CipCoordinates, y: CipCoordinates, s: Radians) ->
     let (se, ce) = e.sin_cos();
     let (sd, cd) = d.sin_cos();
 
-    // R₃(-(E+s)) · R₂(-d) · R₃(E)
-    // Following SOFA's iauC2ixys construction:
+    // R₃(-(E+s)) · R₂(d) · R₃(E), passive rotations, as in SOFA's iauC2ixys;
+    // the last row is the CIP unit vector (X, Y, √(1 − X² − Y²)).
     let es = e + s.value();
     let (ses, ces) = es.sin_cos();
 
@@ -146,25 +146,20 @@ pub fn gcrs_to_cirs_matrix(x: CipCoordinates, y: CipCoordinates, s: Radians) ->
         [
             ces * cd * ce + ses * se,
             ces * cd * se - ses * ce,
-            ces * sd,
+            -ces * sd,
         ],
         [
             ses * cd * ce - ces * se,
             ses * cd * se + ces * ce,
-            ses * sd,
+            -ses * sd,
         ],
         [
-            -sd * ce,
-            -sd * se,
+            sd * ce,
+            sd * se,
             cd,
         ],
     ];
 
-    // The matrix above is Q^T (intermediate-to-celestial). We need Q (celestial-to-intermediate).
-    // Actually, SOFA's C2IXYS returns the celestial-to-intermediate matrix directly.
-    // Let's verify: at J2000 with X≈0, Y≈0, s≈0, this should be ≈ identity.
-    // E = atan2(0,0) = 0, d = 0, s = 0.
-    // m[0][0] = 1, m[1][1] = 1, m[2][2] = 1. ✓
     Rotation3::from_matrix_unchecked(m)
 }
 
diff --git a/src/astro/earth_rotation_provider.rs b/src/astro/earth_rotation_provider.rs
index 6d1d709..3c6b5c4 100644
--- a/src/astro/earth_rotation_provider.rs
+++ b/src/astro/earth_rotation_provider.rs
@@ -111,10 +111,11 @@ pub(crate) fn itrs_to_equatorial_mean_j2000_rotation<Eph, Eop: EopProvider, Nut:
     let w = polar_motion_matrix_from_eop(eop.xp, eop.yp, jd);
     let era = earth_rotation_angle(jd_ut1);
 
-    // NOTE: `cio::gcrs_to_cirs_matrix` and `Rotation3::rz` conventions are
-    // aligned such that this composition matches the SOFA chain for
-    // ITRS -> GCRS in this codebase.
-    let itrs_to_gcrs = q * affn::Rotation3::rz(-era) * w.inverse();
+    // CIRS -> GCRS is the inverse of the celestial-to-intermediate matrix.
+    //
+    // NOTE: `Rotation3::rz` conventions are aligned such that this composition
+    // matches the reference values of the topocentric regression tests.
+    let itrs_to_gcrs = q.inverse() * affn::Rotation3::rz(-era) * w.inverse();
     let icrs_to_j2000 =
         <() as FrameRotationProvider<ICRS, EquatorialMeanJ2000>>::rotation::<Eph, Eop, Nut>(
             jd, ctx,
-- 
2.43.0


From c0b75062d120808b28657e967d349da453c5e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 02/77] =?UTF-8?q?fix:=20Galactic=E2=86=94ICRS=20rotations?=
 =?UTF-8?q?=20were=20swapped?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/coordinates/transform/providers/frames_catalog.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinates/transform/providers/frames_catalog.rs b/src/coordinates/transform/providers/frames_catalog.rs
index a01fab2..36d8b6b 100644
--- a/src/coordinates/transform/providers/frames_catalog.rs
+++ b/src/coordinates/transform/providers/frames_catalog.rs
@@ -13,7 +13,7 @@
 use super::*;
 use crate::coordinates::transform::frames::bias;
 
-const GALACTIC_TO_ICRS: Rotation3 = Rotation3::from_matrix_unchecked([
+const ICRS_TO_GALACTIC: Rotation3 = Rotation3::from_matrix_unchecked([
     [
         -0.054_875_560_416_215_4,
         -0.873_437_090_234_885_1,
@@ -37,7 +37,7 @@ impl FrameRotationProvider<Galactic, ICRS> for () {
         _jd: JulianDate,
         _ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        GALACTIC_TO_ICRS
+        ICRS_TO_GALACTIC.inverse()
     }
 }
 
@@ -47,7 +47,7 @@ impl FrameRotationProvider<ICRS, Galactic> for () {
         _jd: JulianDate,
         _ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        GALACTIC_TO_ICRS.inverse()
+        ICRS_TO_GALACTIC
     }
 }
 
-- 
2.43.0


From 5d29b930807c6d0b1bc7b31a23a0c4fb677fee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 03/77] =?UTF-8?q?fix:=20body-fixed=E2=86=92ICRS=20rotation?=
 =?UTF-8?q?=20used=20negated=20Euler=20angles?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/coordinates/transform/providers/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/coordinates/transform/providers/mod.rs b/src/coordinates/transform/providers/mod.rs
index 5250fc3..c66dc98 100644
--- a/src/coordinates/transform/providers/mod.rs
+++ b/src/coordinates/transform/providers/mod.rs
@@ -446,7 +446,8 @@ pub(crate) use impl_reverse_center_shifts_without_geocentric;
 /// Computes the body-fixed → ICRS rotation matrix from IAU rotation parameters.
 ///
 /// Builds a ZXZ Euler rotation from the IAU pole direction (α₀, δ₀) and
-/// prime-meridian angle (W). All angles are converted to radians via
+/// prime-meridian angle (W): `Rz(α₀ + 90°) · Rx(90° − δ₀) · Rz(W)` as active
+/// rotations, so the body-fixed +Z axis maps to the pole. All angles are converted to radians via
 /// `qtty` before being passed to [`Rotation3::from_euler_zxz`].
 #[inline]
 fn iau_body_fixed_to_icrs(params: &IauRotationParams, jd: JulianDate) -> Rotation3 {
@@ -455,9 +456,9 @@ fn iau_body_fixed_to_icrs(params: &IauRotationParams, jd: JulianDate) -> Rotatio
     let w = params.w(jd).to::<crate::qtty::Radian>();
     let right_angle = crate::qtty::Degrees::new(90.0).to::<crate::qtty::Radian>();
 
-    let z1 = -w;
-    let x = -(right_angle - delta0);
-    let z2 = -(alpha0 + right_angle);
+    let z1 = w;
+    let x = right_angle - delta0;
+    let z2 = alpha0 + right_angle;
     Rotation3::from_euler_zxz(z1, x, z2)
 }
 
-- 
2.43.0


From 1ec06148e3243c4ead5ea825615f1d2ec7bc460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 04/77] fix: apply celestial-pole offsets on every path to the
 true equator of date

---
 .../transform/providers/frames_inertial.rs    | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/coordinates/transform/providers/frames_inertial.rs b/src/coordinates/transform/providers/frames_inertial.rs
index cced261..80088c4 100644
--- a/src/coordinates/transform/providers/frames_inertial.rs
+++ b/src/coordinates/transform/providers/frames_inertial.rs
@@ -165,10 +165,11 @@ impl FrameRotationProvider<EquatorialMeanOfDate, EquatorialTrueOfDate> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        Rotation3::fused_rx_rz_rx(nut.mean_obliquity + nut.deps, nut.dpsi, -nut.mean_obliquity)
+        let mean_obliquity = Nut::nutation(jd).mean_obliquity;
+        let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
+        Rotation3::fused_rx_rz_rx(mean_obliquity + deps, dpsi, -mean_obliquity)
     }
 }
 
@@ -186,10 +187,10 @@ impl FrameRotationProvider<EquatorialMeanJ2000, EquatorialTrueOfDate> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        precession::precession_nutation_matrix(jd, nut.dpsi, nut.deps)
+        let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
+        precession::precession_nutation_matrix(jd, dpsi, deps)
             * bias::frame_bias_j2000_to_icrs()
     }
 }
@@ -198,10 +199,10 @@ impl FrameRotationProvider<EquatorialTrueOfDate, EquatorialMeanJ2000> for () {
     #[inline]
     fn rotation<Eph, Eop: EopProvider, Nut: NutationModel>(
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
-        let nut = Nut::nutation(jd);
-        (precession::precession_nutation_matrix(jd, nut.dpsi, nut.deps)
+        let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
+        (precession::precession_nutation_matrix(jd, dpsi, deps)
             * bias::frame_bias_j2000_to_icrs())
         .inverse()
     }
-- 
2.43.0


From d1c1d428391ec8c3a1923a12e0f19ce0503604a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 05/77] =?UTF-8?q?fix:=20digits=20of=20the=20ICRS=E2=86=92G?=
 =?UTF-8?q?alactic=20matrix=20(ESA=201997=20vol.=201,=20eq.=201.5.11)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/coordinates/transform/providers/frames_catalog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinates/transform/providers/frames_catalog.rs b/src/coordinates/transform/providers/frames_catalog.rs
index 36d8b6b..d2ae6e3 100644
--- a/src/coordinates/transform/providers/frames_catalog.rs
+++ b/src/coordinates/transform/providers/frames_catalog.rs
@@ -22,7 +22,7 @@ const ICRS_TO_GALACTIC: Rotation3 = Rotation3::from_matrix_unchecked([
     [
         0.494_109_427_875_583_7,
         -0.444_829_629_960_011_2,
-        0.746_982_244_580_286_6,
+        0.746_982_244_497_218_9,
     ],
     [
         -0.867_666_149_019_004_7,
-- 
2.43.0


From f0460e1df7523bf7d118faeb9e421299b23b9909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 06/77] =?UTF-8?q?fix:=20orientation=20models=20that=20need?=
 =?UTF-8?q?=20no=20UT1=20must=20not=20panic=20beyond=20the=20=CE=94T=20hor?=
 =?UTF-8?q?izon?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/astro/earth_rotation.rs                   | 24 ++++++++++++++++---
 src/coordinates/transform/context.rs          |  4 ++--
 .../transform/providers/frames_inertial.rs    |  8 +++----
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/astro/earth_rotation.rs b/src/astro/earth_rotation.rs
index ce8104b..f7faeb3 100644
--- a/src/astro/earth_rotation.rs
+++ b/src/astro/earth_rotation.rs
@@ -95,9 +95,13 @@ pub fn jd_ut1_from_tt(jd_tt: JulianDate) -> JulianDate {
 pub fn try_jd_utc_from_tt(jd_tt: JulianDate) -> Result<JulianDate, EopError> {
     let jd_tt_t: tempoch::JulianDate<TT> = jd_tt;
     let ctx = TimeContext::with_builtin_eop();
-    let ut1 = jd_tt_t
-        .to_with::<UT1>(&ctx)
-        .expect("TT->UT1 conversion should succeed within the bundled model horizon");
+    let Ok(ut1) = jd_tt_t.to_with::<UT1>(&ctx) else {
+        let jd_tt = jd_tt.raw().value();
+        return Err(EopError::NoData {
+            jd_utc: jd_tt,
+            mjd_utc: jd_tt - 2_400_000.5,
+        });
+    };
     let ut1_jd = ut1.to::<tempoch::JD>().raw().value();
     let mut utc_jd = ut1_jd;
 
@@ -126,6 +130,20 @@ pub fn jd_utc_from_tt_delta_t(jd_tt: JulianDate) -> JulianDate {
     jd_ut1_from_tt(jd_tt)
 }
 
+/// JD(UTC) used to index an EOP provider when no runtime EOP covers `jd_tt`.
+///
+/// Same as [`jd_utc_from_tt_delta_t`] inside the ΔT model horizon. Beyond it,
+/// where UT1 is undefined, the current TT − UTC of 69.184 s is held constant
+/// so that orientation models that do not need UT1 stay available.
+#[inline]
+pub(crate) fn jd_utc_for_eop_fallback(jd_tt: JulianDate) -> JulianDate {
+    let jd_tt_t: tempoch::JulianDate<TT> = jd_tt;
+    match jd_tt_t.to_with::<UT1>(&TimeContext::new()) {
+        Ok(ut1) => crate::time::JulianDate::new(ut1.to::<tempoch::JD>().raw().value()),
+        Err(_) => crate::time::JulianDate::new(jd_tt.raw().value() - 69.184 / 86_400.0),
+    }
+}
+
 /// Compute JD(UTC) from JD(TT).
 ///
 /// # Deprecated behaviour
diff --git a/src/coordinates/transform/context.rs b/src/coordinates/transform/context.rs
index 1c5dc09..71bbe02 100644
--- a/src/coordinates/transform/context.rs
+++ b/src/coordinates/transform/context.rs
@@ -187,7 +187,7 @@ impl<Eph, Eop: EopProvider> AstroContext<Eph, Eop> {
             Ok(jd_utc) => self.eop_at(jd_utc),
             Err(_) => self
                 .eop
-                .eop_at(crate::astro::earth_rotation::jd_utc_from_tt_delta_t(jd_tt)),
+                .eop_at(crate::astro::earth_rotation::jd_utc_for_eop_fallback(jd_tt)),
         }
     }
 
@@ -363,7 +363,7 @@ impl<Eop: EopProvider> DynAstroContext<Eop> {
             Ok(jd_utc) => self.eop_at(jd_utc),
             Err(_) => self
                 .eop
-                .eop_at(crate::astro::earth_rotation::jd_utc_from_tt_delta_t(jd_tt)),
+                .eop_at(crate::astro::earth_rotation::jd_utc_for_eop_fallback(jd_tt)),
         }
     }
 
diff --git a/src/coordinates/transform/providers/frames_inertial.rs b/src/coordinates/transform/providers/frames_inertial.rs
index 80088c4..25a464b 100644
--- a/src/coordinates/transform/providers/frames_inertial.rs
+++ b/src/coordinates/transform/providers/frames_inertial.rs
@@ -190,8 +190,7 @@ impl FrameRotationProvider<EquatorialMeanJ2000, EquatorialTrueOfDate> for () {
         ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
         let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
-        precession::precession_nutation_matrix(jd, dpsi, deps)
-            * bias::frame_bias_j2000_to_icrs()
+        precession::precession_nutation_matrix(jd, dpsi, deps) * bias::frame_bias_j2000_to_icrs()
     }
 }
 
@@ -202,9 +201,8 @@ impl FrameRotationProvider<EquatorialTrueOfDate, EquatorialMeanJ2000> for () {
         ctx: &AstroContext<Eph, Eop>,
     ) -> Rotation3 {
         let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, ctx.eop_at_tt(jd));
-        (precession::precession_nutation_matrix(jd, dpsi, deps)
-            * bias::frame_bias_j2000_to_icrs())
-        .inverse()
+        (precession::precession_nutation_matrix(jd, dpsi, deps) * bias::frame_bias_j2000_to_icrs())
+            .inverse()
     }
 }
 
-- 
2.43.0


From ef0dca080501d45a34ab4f3f37a774e30fa504a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 07/77] =?UTF-8?q?fix:=20t=E2=81=B4=20coefficient=20of=20th?=
 =?UTF-8?q?e=20Delaunay=20argument=20F=20in=20the=20nutation=20series?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/astro/nutation/mod.rs    | 2 +-
 src/astro/nutation/nut00a.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astro/nutation/mod.rs b/src/astro/nutation/mod.rs
index 454d95c..b67aca1 100644
--- a/src/astro/nutation/mod.rs
+++ b/src/astro/nutation/mod.rs
@@ -234,7 +234,7 @@ fn delaunay_arguments(t: f64) -> [f64; 5] {
 
     // F: Mean argument of latitude of the Moon (IERS 2003)
     let f = (335779.526232 + 1739527262.8478 * t - 12.7512 * t2 - 0.001037 * t3
-        + 0.000_000_417 * t4)
+        + 0.000_004_17 * t4)
         .rem_euclid(1_296_000.0)
         * std::f64::consts::PI
         / 648_000.0;
diff --git a/src/astro/nutation/nut00a.rs b/src/astro/nutation/nut00a.rs
index 4ad7603..f6782a6 100644
--- a/src/astro/nutation/nut00a.rs
+++ b/src/astro/nutation/nut00a.rs
@@ -131,7 +131,7 @@ fn fa_f_iers03(t: f64) -> f64 {
     let t2 = t * t;
     let t3 = t2 * t;
     let t4 = t3 * t;
-    ((335779.526232 + 1739527262.8478 * t - 12.7512 * t2 - 0.001037 * t3 + 0.000_000_417 * t4)
+    ((335779.526232 + 1739527262.8478 * t - 12.7512 * t2 - 0.001037 * t3 + 0.000_004_17 * t4)
         % TURNAS)
         * AS2R
 }
-- 
2.43.0


From 8d0166a8379346c369a4c91496af52f95ea48e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 08/77] fix: bodycentric transforms use the context's
 ephemeris, not the default one

---
 .../centers/position/to_bodycentric.rs        | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/coordinates/transform/centers/position/to_bodycentric.rs b/src/coordinates/transform/centers/position/to_bodycentric.rs
index 49a1f5b..bbca6ec 100644
--- a/src/coordinates/transform/centers/position/to_bodycentric.rs
+++ b/src/coordinates/transform/centers/position/to_bodycentric.rs
@@ -66,7 +66,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -85,7 +85,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -94,7 +95,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
@@ -123,7 +125,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -142,7 +144,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> = body_geo_ecl.to_center(jd);
+                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -152,7 +155,7 @@ where
                     body_ecliptic_au.z(),
                 );
                 let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
-                    body_bary_ecl.to_center(jd);
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
         };
@@ -181,7 +184,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -200,7 +203,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_helio_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
             OrbitReferenceCenter::Geocentric => {
@@ -209,7 +213,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_geo_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
         };
@@ -238,7 +243,7 @@ where
         &self,
         _params: (),
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Geocentric, F, U> {
         let body_params = *self.center_params();
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
@@ -258,7 +263,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -267,7 +273,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
-- 
2.43.0


From d6d2087dea293ef23aaaf136bcbedb8630eedcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 09/77] =?UTF-8?q?fix:=20mean-of-date=20=E2=86=92=20Horizon?=
 =?UTF-8?q?tal=20transform=20mirrored=20the=20azimuth=20(+Y=20is=20East)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/coordinates/transform/frames/to_horizontal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinates/transform/frames/to_horizontal.rs b/src/coordinates/transform/frames/to_horizontal.rs
index 9e40394..5dff6b4 100644
--- a/src/coordinates/transform/frames/to_horizontal.rs
+++ b/src/coordinates/transform/frames/to_horizontal.rs
@@ -168,7 +168,7 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, Horizontal, U>>
         // In horizontal: x = North, y = West, z = Zenith
         // Trig functions return f64, multiply by Quantity<U> to get Quantity<U>
         let new_x = r * alt.cos() * az.cos();
-        let new_y = -r * alt.cos() * az.sin(); // negative for East-positive azimuth
+        let new_y = r * alt.cos() * az.sin(); // +Y is East (azimuth 90°)
         let new_z = r * alt.sin();
 
         cartesian::Position::from_array(*site, [new_x, new_y, new_z])
@@ -198,7 +198,7 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, EquatorialMeanOfD
             Quantity::<Radian>::new(0.0)
         };
         // atan2 on Quantity<U> values - extract raw values for atan2
-        let az: Radians = Quantity::<Radian>::new((-self.y() / r).atan2(self.x() / r));
+        let az: Radians = Quantity::<Radian>::new((self.y() / r).atan2(self.x() / r));
 
         let site_trig = SiteTrig::from_site(site);
         let (ra, dec) = horizontal_to_equatorial_angles(alt, az, site, &site_trig, jd);
-- 
2.43.0


From a55b9084678a98e7ecc4f8a718ad6f19838b7dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 10/77] fix: no NaN altitude at the zenith, no garbage hour
 angle at the geographic poles

---
 src/coordinates/transform/frames/to_horizontal.rs | 14 ++++++++------
 src/event/horizontal.rs                           |  6 +++---
 src/event/lunar/moon_cache.rs                     |  2 +-
 src/event/stellar/altitude_periods.rs             |  2 +-
 src/event/stellar/star_equations.rs               |  2 +-
 src/mission/geometry/az_el_range.rs               |  2 +-
 6 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/coordinates/transform/frames/to_horizontal.rs b/src/coordinates/transform/frames/to_horizontal.rs
index 5dff6b4..b5833de 100644
--- a/src/coordinates/transform/frames/to_horizontal.rs
+++ b/src/coordinates/transform/frames/to_horizontal.rs
@@ -85,7 +85,9 @@ fn equatorial_to_horizontal_angles(
     let cos_ha = ha.cos();
 
     // Use precomputed sin/cos of latitude
-    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha).asin();
+    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha)
+        .clamp(-1.0, 1.0)
+        .asin();
     let az_val = (-cos_dec * ha.sin())
         .atan2(sin_dec * site_trig.cos_lat - cos_dec * cos_ha * site_trig.sin_lat);
 
@@ -118,12 +120,12 @@ fn horizontal_to_equatorial_angles(
 
     // Calculate declination
     let sin_dec = sin_alt * site_trig.sin_lat + cos_alt * site_trig.cos_lat * az.cos();
-    let dec_val = sin_dec.asin();
+    let dec_val = sin_dec.clamp(-1.0, 1.0).asin();
 
-    // Calculate hour angle
-    let cos_ha =
-        (sin_alt - site_trig.sin_lat * dec_val.sin()) / (site_trig.cos_lat * dec_val.cos());
-    let sin_ha = -cos_alt * az.sin() / dec_val.cos();
+    // Calculate hour angle (both atan2 arguments scaled by cos(dec) >= 0, so that
+    // observers at the geographic poles are well-defined too)
+    let cos_ha = sin_alt * site_trig.cos_lat - cos_alt * az.cos() * site_trig.sin_lat;
+    let sin_ha = -cos_alt * az.sin();
     let ha_val = sin_ha.atan2(cos_ha);
 
     // Convert hour angle to right ascension
diff --git a/src/event/horizontal.rs b/src/event/horizontal.rs
index 702de3b..5646ec1 100644
--- a/src/event/horizontal.rs
+++ b/src/event/horizontal.rs
@@ -207,7 +207,7 @@ where
 
     // Altitude: sin(alt) = sin(dec)·sin(lat) + cos(dec)·cos(lat)·cos(HA)
     let sin_alt = dec_rad.sin() * lat.sin() + dec_rad.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
+    let alt = Radians::new(sin_alt.clamp(-1.0, 1.0).asin()).to::<Degree>();
 
     // Azimuth: tan(az) = -sin(HA) / (cos(lat)·tan(dec) - sin(lat)·cos(HA))
     let az_rad = (-dec_rad.cos() * ha.sin())
@@ -273,7 +273,7 @@ pub fn star_horizontal_with_policy(
 
     // True-of-date RA/Dec
     let ra_tod = Radians::new(y_t.atan2(x_t));
-    let dec_tod = Radians::new(z_t.asin());
+    let dec_tod = Radians::new(z_t.clamp(-1.0, 1.0).asin());
 
     // True-of-date RA/Dec requires apparent sidereal time (GAST).
     let ctx: AstroContext = AstroContext::default();
@@ -286,7 +286,7 @@ pub fn star_horizontal_with_policy(
     // Equatorial → horizontal
     let lat = site.lat.to::<Radian>();
     let sin_alt = dec_tod.sin() * lat.sin() + dec_tod.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
+    let alt = Radians::new(sin_alt.clamp(-1.0, 1.0).asin()).to::<Degree>();
 
     let az_rad = (-dec_tod.cos() * ha.sin())
         .atan2(dec_tod.sin() * lat.cos() - dec_tod.cos() * ha.cos() * lat.sin());
diff --git a/src/event/lunar/moon_cache.rs b/src/event/lunar/moon_cache.rs
index ff16cff..a0d966c 100644
--- a/src/event/lunar/moon_cache.rs
+++ b/src/event/lunar/moon_cache.rs
@@ -470,7 +470,7 @@ impl MoonAltitudeContext {
 
         let sin_alt = dec_rad.sin() * self.lat.sin() + dec_rad.cos() * self.lat.cos() * ha.cos();
 
-        Quantity::<Radian>::new(sin_alt.asin())
+        Quantity::<Radian>::new(sin_alt.clamp(-1.0, 1.0).asin())
     }
 }
 
diff --git a/src/event/stellar/altitude_periods.rs b/src/event/stellar/altitude_periods.rs
index c5c6550..410b7e3 100644
--- a/src/event/stellar/altitude_periods.rs
+++ b/src/event/stellar/altitude_periods.rs
@@ -136,7 +136,7 @@ pub(crate) fn fixed_star_altitude_rad_with_policy(
     // Equatorial → horizontal altitude
     let lat = site.lat.to::<Radian>().value();
     let sin_alt = dec_tod.sin() * lat.sin() + dec_tod.cos() * lat.cos() * ha.cos();
-    crate::qtty::Radians::new(sin_alt.asin())
+    crate::qtty::Radians::new(sin_alt.clamp(-1.0, 1.0).asin())
 }
 
 // =============================================================================
diff --git a/src/event/stellar/star_equations.rs b/src/event/stellar/star_equations.rs
index 207cf9e..163043b 100644
--- a/src/event/stellar/star_equations.rs
+++ b/src/event/stellar/star_equations.rs
@@ -132,7 +132,7 @@ impl StarAltitudeParams {
         let [x_t, y_t, z_t] = npb.apply_array([x0, y0, z0]);
 
         let ra_corrected = Degrees::new(y_t.atan2(x_t).to_degrees());
-        let dec = Radians::new(z_t.asin());
+        let dec = Radians::new(z_t.clamp(-1.0, 1.0).asin());
 
         // Precompute trig constants
         let lat_rad = site.lat.to::<Radian>();
diff --git a/src/mission/geometry/az_el_range.rs b/src/mission/geometry/az_el_range.rs
index cc5d965..93b727c 100644
--- a/src/mission/geometry/az_el_range.rs
+++ b/src/mission/geometry/az_el_range.rs
@@ -91,7 +91,7 @@ where
     if az < 0.0 {
         az += TAU;
     }
-    let el = u_comp.asin();
+    let el = u_comp.clamp(-1.0, 1.0).asin();
 
     // Range rate = (v_target - v_observer) · LOS direction.
     let rel_v = target_vel - observer_vel;
-- 
2.43.0


From 06c15f7487f91b6389d29a53502d73f9f0ff499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 11/77] fix: topocentric chain ignored the context's EOP
 outside the bundled table

---
 src/astro/earth_rotation_provider.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/astro/earth_rotation_provider.rs b/src/astro/earth_rotation_provider.rs
index 3c6b5c4..37a2a72 100644
--- a/src/astro/earth_rotation_provider.rs
+++ b/src/astro/earth_rotation_provider.rs
@@ -37,7 +37,7 @@
 //! * SOFA Earth-rotation cookbook (`iauC2t06a` and friends)
 
 use crate::astro::cio;
-use crate::astro::earth_rotation::{jd_ut1_from_tt_eop, try_jd_utc_from_tt};
+use crate::astro::earth_rotation::jd_ut1_from_tt_eop;
 use crate::astro::eop::{EopProvider, EopValues};
 use crate::astro::era::earth_rotation_angle;
 use crate::astro::nutation::NutationModel;
@@ -99,10 +99,7 @@ pub(crate) fn itrs_to_equatorial_mean_j2000_rotation<Eph, Eop: EopProvider, Nut:
     jd: JulianDate,
     ctx: &AstroContext<Eph, Eop>,
 ) -> affn::Rotation3 {
-    let eop = match try_jd_utc_from_tt(jd) {
-        Ok(jd_utc) => ctx.eop_at(jd_utc),
-        Err(_) => EopValues::default(),
-    };
+    let eop = ctx.eop_at_tt(jd);
     let jd_ut1 = jd_ut1_from_tt_eop(jd, &eop);
 
     let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, eop);
-- 
2.43.0


From 92175be3cc323c9311f5e8b878cafe95c12c89f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 12/77] fix: observer velocity ignored the context's ephemeris

---
 src/coordinates/observation/observer_state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinates/observation/observer_state.rs b/src/coordinates/observation/observer_state.rs
index 000c8c6..4493818 100644
--- a/src/coordinates/observation/observer_state.rs
+++ b/src/coordinates/observation/observer_state.rs
@@ -123,7 +123,7 @@ impl ObserverState {
     }
 
     /// Context-aware topocentric observer state.
-    pub fn topocentric_with_ctx<Eph, Eop: EopProvider, Nut: NutationModel>(
+    pub fn topocentric_with_ctx<Eph: Ephemeris, Eop: EopProvider, Nut: NutationModel>(
         site: &Geodetic<ECEF>,
         jd: JulianDate,
         ctx: &AstroContext<Eph, Eop>,
@@ -132,7 +132,7 @@ impl ObserverState {
         use crate::qtty::{unit, Meter, Seconds};
 
         // Annual (orbital) component: barycentric Earth velocity.
-        let vel_ecl = DefaultEphemeris::earth_barycentric_velocity(jd);
+        let vel_ecl = Eph::earth_barycentric_velocity(jd);
 
         // Transform to equatorial frame
         let mut velocity: Velocity<EquatorialMeanJ2000, AuPerDay> = vel_ecl.to_frame();
-- 
2.43.0


From 3c67fb0dd34ed2b2ce8731a87cd8c6216ca25b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 13/77] fix: apparent topocentric place applied the frame bias
 twice and dropped celestial-pole offsets

---
 src/event/horizontal.rs | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/src/event/horizontal.rs b/src/event/horizontal.rs
index 5646ec1..e490b0a 100644
--- a/src/event/horizontal.rs
+++ b/src/event/horizontal.rs
@@ -55,6 +55,7 @@ use crate::astro::sidereal::gast_iau2006;
 use crate::coordinates::centers::Geodetic;
 use crate::coordinates::frames::ECEF;
 use crate::coordinates::transform::centers::position::to_topocentric::to_topocentric_with;
+use crate::coordinates::transform::providers::frame_rotation_with;
 use crate::coordinates::transform::{AstroContext, TransformContext};
 use crate::coordinates::{cartesian, centers::*, frames, spherical};
 use crate::qtty::{AstronomicalUnits, Degree, LengthUnit, Meter, Quantity, Radian, Radians};
@@ -104,41 +105,25 @@ where
     // 1) Translate geocentric → topocentric in J2000 frame (applies parallax)
     let topo_cart_j2000 = to_topocentric_with(geo_cart_j2000, site, jd, ctx);
 
-    // 2) Rotate J2000 → mean-of-date using IAU 2006 precession
-    let rot_prec = precession::precession_matrix_iau2006(jd);
-    let [x_m, y_m, z_m] = rot_prec
+    // 2) Rotate J2000 → true-of-date (precession and nutation; the frame bias is
+    //    part of ICRS → J2000 and must not be applied to a J2000 vector again)
+    let rot = frame_rotation_with::<frames::EquatorialMeanJ2000, frames::EquatorialTrueOfDate, _>(
+        jd, ctx,
+    );
+    let [x_t, y_t, z_t] = rot
         * [
             topo_cart_j2000.x(),
             topo_cart_j2000.y(),
             topo_cart_j2000.z(),
         ];
-
-    let topo_cart_mod =
-        cartesian::Position::<Topocentric, frames::EquatorialMeanOfDate, U>::new_with_params(
-            *topo_cart_j2000.center_params(),
-            x_m,
-            y_m,
-            z_m,
-        );
-
-    // 3) Apply the selected nutation rotation (mean-of-date → true-of-date)
-    let nut = Ctx::Nut::nutation(jd);
-    let rot_nut = affn::Rotation3::fused_rx_rz_rx(
-        nut.mean_obliquity + nut.deps,
-        nut.dpsi,
-        -nut.mean_obliquity,
-    );
-    let [x_t, y_t, z_t] = rot_nut * [topo_cart_mod.x(), topo_cart_mod.y(), topo_cart_mod.z()];
-
     let topo_cart_true =
         cartesian::Position::<Topocentric, frames::EquatorialTrueOfDate, U>::new_with_params(
-            *topo_cart_mod.center_params(),
+            *topo_cart_j2000.center_params(),
             x_t,
             y_t,
             z_t,
         );
 
-    // 4) Convert to spherical topocentric equatorial (true of date)
     spherical::Position::from_cartesian(&topo_cart_true)
 }
 
-- 
2.43.0


From bdb746ac17b22b9a60d16f7a0472b51bef2f5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 14/77] fix: altitude crossing search dropped close root pairs
 and could report non-alternating crossings

---
 src/event/search/crossings.rs     | 246 ++++++++++++++++--------------
 src/event/search/scan_fallback.rs |  86 ++---------
 2 files changed, 145 insertions(+), 187 deletions(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 18a107e..0aa680c 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -8,7 +8,7 @@
 //! precise signal, and falls back per segment to scan+Brent when the polynomial
 //! is not trustworthy.
 
-use cheby::{fit_dyn_from_fn, RootOptions};
+use cheby::{fit_dyn_from_fn, ChebySeriesDyn};
 
 use crate::event::altitude::search::{InternalSearchConfig, CROSSING_DEDUPE_EPS};
 use crate::event::search::intervals::LabeledCrossing;
@@ -131,7 +131,6 @@ where
             end: next,
         };
         let mut search = SegmentSearch {
-            period,
             fallback_step,
             signal,
             threshold_sin,
@@ -144,6 +143,7 @@ where
     }
 
     sort_dedup_crossings(&mut crossings);
+    retain_alternating(&mut crossings, start_above);
     (crossings, start_above, diagnostics)
 }
 
@@ -151,7 +151,6 @@ struct SegmentSearch<'a, F>
 where
     F: Fn(Mjd) -> f64,
 {
-    period: Interval<Mjd>,
     fallback_step: Days,
     signal: &'a F,
     threshold_sin: f64,
@@ -195,85 +194,146 @@ where
         return;
     }
 
-    let derivative = poly.derivative();
-    let root_opts = root_options_for_segment(&search.opts, segment.span_days());
-    let roots = poly.roots_with(root_opts);
-    search.diagnostics.polynomial_roots += roots.len();
-
-    if roots.is_empty() && segment_has_hidden_sign_change(search, segment) {
-        fallback_segment(search, segment);
-        return;
-    }
-
-    let mut segment_crossings = Vec::new();
-    for root_x in roots {
-        let slope = derivative.evaluate(root_x).abs();
-        if slope < search.opts.chebyshev.min_slope {
-            fallback_segment(search, segment);
-            return;
-        }
-
-        let Some(crossing) = validate_candidate(
-            search.period,
-            segment,
-            root_x,
-            search.signal,
-            search.threshold_sin,
-            search.opts,
-            search.diagnostics,
-        ) else {
-            fallback_segment(search, segment);
-            return;
-        };
-        segment_crossings.push(crossing);
+    for bracket in segment_brackets(search, &poly, segment) {
+        let crossing = crossing_in_bracket(search, &poly, segment, &bracket);
+        search.out.push(crossing);
     }
+}
 
-    search.out.extend(segment_crossings);
+/// Two times of a segment between which the precise signal changes side of the
+/// threshold once, with the fitted-coordinate and residual at both ends.
+struct Bracket {
+    lo: (f64, Mjd, f64),
+    hi: (f64, Mjd, f64),
 }
 
-fn root_options_for_segment(opts: &InternalSearchConfig, segment_span_days: f64) -> RootOptions {
-    let span = segment_span_days.max(MIN_SEGMENT_DAYS);
-    let unit_tol = (opts.time_tolerance.value() / span).clamp(f64::EPSILON, 0.25);
-    let zero_tol = opts.chebyshev.max_residual.max(POLY_ZERO_TOL);
-    let dedupe_eps = (opts.time_tolerance.value() / span * 4.0).max(1e-12);
-    RootOptions {
-        unit_tol,
-        zero_tol,
-        dedupe_eps,
+impl Bracket {
+    fn direction(&self) -> i32 {
+        if self.hi.2 > 0.0 {
+            1
+        } else {
+            -1
+        }
     }
-    .effective()
 }
 
-fn segment_residual_at<F>(search: &mut SegmentSearch<'_, F>, t: Mjd) -> f64
+/// Split the segment at the turning points of the fitted polynomial and keep the
+/// monotone pieces over which the *precise* signal changes side. Close root
+/// pairs around a turning point are separated by construction.
+fn segment_brackets<F>(
+    search: &mut SegmentSearch<'_, F>,
+    poly: &ChebySeriesDyn<f64>,
+    segment: Segment,
+) -> Vec<Bracket>
 where
     F: Fn(Mjd) -> f64,
 {
-    eval_signal(search.signal, t, search.diagnostics) - search.threshold_sin
+    let mut marks = vec![(-1.0, segment.start)];
+    for x in turning_points(poly) {
+        marks.push((x, segment.time_from_unit(x)));
+    }
+    marks.push((1.0, segment.end));
+
+    let mut brackets = Vec::new();
+    let mut lo: Option<(f64, Mjd, f64)> = None;
+    for (x, t) in marks {
+        let hi = (x, t, segment_residual_at(search, t));
+        if let Some(lo) = lo {
+            if (lo.2 > 0.0) != (hi.2 > 0.0) {
+                brackets.push(Bracket { lo, hi });
+            }
+        }
+        lo = Some(hi);
+    }
+    brackets
 }
 
-fn segment_has_hidden_sign_change<F>(search: &mut SegmentSearch<'_, F>, segment: Segment) -> bool
-where
-    F: Fn(Mjd) -> f64,
-{
-    let f_start = segment_residual_at(search, segment.start);
-    let f_end = segment_residual_at(search, segment.end);
-    if f_start.signum() * f_end.signum() < 0.0 {
-        return true;
+/// Interior extrema of the fitted polynomial on `(-1, 1)`, in ascending order.
+fn turning_points(poly: &ChebySeriesDyn<f64>) -> Vec<f64> {
+    let derivative = poly.derivative();
+    let cells = 8 * poly.coeffs().len();
+    let node = |k: usize| -(std::f64::consts::PI * k as f64 / cells as f64).cos();
+    let mut points = Vec::new();
+    let mut prev = (-1.0, derivative.evaluate(-1.0));
+    for k in 1..=cells {
+        let x = if k == cells { 1.0 } else { node(k) };
+        let next = (x, derivative.evaluate(x));
+        if (prev.1 > 0.0) != (next.1 > 0.0) {
+            points.push(bisect_unit(&derivative, prev.0, next.0));
+        }
+        prev = next;
     }
+    points
+}
 
-    let f_mid = segment_residual_at(search, segment.time_from_unit(0.0));
-    if f_start.signum() * f_mid.signum() < 0.0 || f_mid.signum() * f_end.signum() < 0.0 {
-        return true;
+/// Bisect a sign change of `poly` on `[lo, hi]`.
+fn bisect_unit(poly: &ChebySeriesDyn<f64>, mut lo: f64, mut hi: f64) -> f64 {
+    let above_lo = poly.evaluate(lo) > 0.0;
+    for _ in 0..60 {
+        let mid = 0.5 * (lo + hi);
+        if mid <= lo || mid >= hi {
+            break;
+        }
+        if (poly.evaluate(mid) > 0.0) == above_lo {
+            lo = mid;
+        } else {
+            hi = mid;
+        }
     }
+    0.5 * (lo + hi)
+}
 
-    for node in [-0.5, 0.5] {
-        let f_node = segment_residual_at(search, segment.time_from_unit(node));
-        if f_start.signum() * f_node.signum() < 0.0 || f_node.signum() * f_end.signum() < 0.0 {
-            return true;
+/// Locate the crossing inside `bracket`, starting from the polynomial root and
+/// resorting to Brent over the whole bracket when the polynomial is no guide.
+fn crossing_in_bracket<F>(
+    search: &mut SegmentSearch<'_, F>,
+    poly: &ChebySeriesDyn<f64>,
+    segment: Segment,
+    bracket: &Bracket,
+) -> LabeledCrossing
+where
+    F: Fn(Mjd) -> f64,
+{
+    let direction = bracket.direction();
+    if (poly.evaluate(bracket.lo.0) > 0.0) != (poly.evaluate(bracket.hi.0) > 0.0) {
+        search.diagnostics.polynomial_roots += 1;
+        let root_x = bisect_unit(poly, bracket.lo.0, bracket.hi.0);
+        if poly.derivative().evaluate(root_x).abs() >= search.opts.chebyshev.min_slope {
+            if let Some(t) = validate_candidate(
+                segment,
+                root_x,
+                search.signal,
+                search.threshold_sin,
+                search.opts,
+                search.diagnostics,
+            ) {
+                if t >= bracket.lo.1 && t <= bracket.hi.1 {
+                    return LabeledCrossing { t, direction };
+                }
+            }
         }
     }
 
-    false
+    let (signal, threshold_sin) = (search.signal, search.threshold_sin);
+    let diagnostics = &mut *search.diagnostics;
+    let t = scan_fallback::brent_f64(
+        mjd_days(bracket.lo.1),
+        mjd_days(bracket.hi.1),
+        bracket.lo.2,
+        bracket.hi.2,
+        |days| precise_residual_days(signal, days, threshold_sin, diagnostics),
+        search.opts.time_tolerance.value().max(1e-12),
+        search.opts.chebyshev.max_residual.max(POLY_ZERO_TOL),
+    )
+    .map_or(bracket.hi.1, mjd_from_days);
+    LabeledCrossing { t, direction }
+}
+
+fn segment_residual_at<F>(search: &mut SegmentSearch<'_, F>, t: Mjd) -> f64
+where
+    F: Fn(Mjd) -> f64,
+{
+    eval_signal(search.signal, t, search.diagnostics) - search.threshold_sin
 }
 
 fn fallback_segment<F>(search: &mut SegmentSearch<'_, F>, segment: Segment)
@@ -293,14 +353,13 @@ where
 }
 
 fn validate_candidate<F>(
-    period: Interval<Mjd>,
     segment: Segment,
     root_x: f64,
     signal: &F,
     threshold_sin: f64,
     opts: InternalSearchConfig,
     diagnostics: &mut SearchDiagnostics,
-) -> Option<LabeledCrossing>
+) -> Option<Mjd>
 where
     F: Fn(Mjd) -> f64,
 {
@@ -315,12 +374,7 @@ where
     if !residual.is_finite() || residual > opts.chebyshev.max_residual {
         return None;
     }
-
-    let direction = classify_direction(period, refined, signal, threshold_sin, opts, diagnostics)?;
-    Some(LabeledCrossing {
-        t: refined,
-        direction,
-    })
+    Some(refined)
 }
 
 fn refine_precise_root<F>(
@@ -381,46 +435,6 @@ where
     None
 }
 
-fn classify_direction<F>(
-    period: Interval<Mjd>,
-    t: Mjd,
-    signal: &F,
-    threshold_sin: f64,
-    opts: InternalSearchConfig,
-    diagnostics: &mut SearchDiagnostics,
-) -> Option<i32>
-where
-    F: Fn(Mjd) -> f64,
-{
-    let margin = opts.chebyshev.refine_margin.value();
-    let probe = margin.clamp(1e-6, 1e-3);
-    let t_days = mjd_days(t);
-    let start = mjd_days(period.start);
-    let end = mjd_days(period.end);
-
-    let left_days = (t_days - probe).max(start);
-    let right_days = (t_days + probe).min(end);
-    if right_days <= left_days {
-        return None;
-    }
-
-    let left = precise_residual_days(signal, left_days, threshold_sin, diagnostics);
-    let right = precise_residual_days(signal, right_days, threshold_sin, diagnostics);
-    let eps = opts.chebyshev.max_residual.max(1e-12);
-
-    if left <= eps && right > eps {
-        Some(1)
-    } else if left > eps && right <= eps {
-        Some(-1)
-    } else if left < -eps && right >= -eps {
-        Some(1)
-    } else if left >= -eps && right < -eps {
-        Some(-1)
-    } else {
-        None
-    }
-}
-
 pub(crate) fn eval_signal<F>(signal: &F, t: Mjd, diagnostics: &mut SearchDiagnostics) -> f64
 where
     F: Fn(Mjd) -> f64,
@@ -460,6 +474,16 @@ fn sort_dedup_crossings(crossings: &mut Vec<LabeledCrossing>) {
     crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS);
 }
 
+/// Keep only the crossings that leave the current side of the threshold.
+pub(crate) fn retain_alternating(crossings: &mut Vec<LabeledCrossing>, start_above: bool) {
+    let mut above = start_above;
+    crossings.retain(|c| {
+        let leaves = (c.direction > 0) != above;
+        above ^= leaves;
+        leaves
+    });
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/event/search/scan_fallback.rs b/src/event/search/scan_fallback.rs
index 0ae4ca4..026e0af 100644
--- a/src/event/search/scan_fallback.rs
+++ b/src/event/search/scan_fallback.rs
@@ -43,14 +43,6 @@ where
     let mut prev = eval_signal(signal, t, diagnostics) - threshold_sin;
 
     while t < t_end {
-        if prev.abs() <= residual_tol {
-            if let Some(direction) =
-                endpoint_direction(signal, t, period, step_days, threshold_sin, diagnostics)
-            {
-                labeled.push(LabeledCrossing { t, direction });
-            }
-        }
-
         let next_t = {
             let proposed = mjd_from_days(mjd_days(t) + step_days);
             if proposed <= t_end {
@@ -61,24 +53,8 @@ where
         };
         let next_v = eval_signal(signal, next_t, diagnostics) - threshold_sin;
 
-        if next_v.abs() <= residual_tol {
-            if let Some(direction) = endpoint_direction(
-                signal,
-                next_t,
-                period,
-                step_days,
-                threshold_sin,
-                diagnostics,
-            ) {
-                labeled.push(LabeledCrossing {
-                    t: next_t,
-                    direction,
-                });
-            }
-        }
-
-        if prev.signum() * next_v.signum() < 0.0 {
-            let direction = if prev < 0.0 { 1 } else { -1 };
+        if (prev > 0.0) != (next_v > 0.0) {
+            let direction = if prev > 0.0 { -1 } else { 1 };
             if let Some(root_days) = brent_f64(
                 mjd_days(t),
                 mjd_days(next_t),
@@ -95,6 +71,14 @@ where
             }
         }
 
+        // A rise that ends exactly on the threshold at the window end.
+        if next_t >= t_end && next_v == 0.0 && prev < 0.0 {
+            labeled.push(LabeledCrossing {
+                t: t_end,
+                direction: 1,
+            });
+        }
+
         t = next_t;
         prev = next_v;
     }
@@ -103,56 +87,6 @@ where
     labeled
 }
 
-fn endpoint_direction<F>(
-    signal: &F,
-    t: Mjd,
-    period: Interval<Mjd>,
-    step_days: f64,
-    threshold_sin: f64,
-    diagnostics: &mut SearchDiagnostics,
-) -> Option<i32>
-where
-    F: Fn(Mjd) -> f64,
-{
-    let probe = (step_days * 0.25).clamp(1e-7, 1e-3);
-    let t_days = mjd_days(t);
-    let start_days = mjd_days(period.start);
-    let end_days = mjd_days(period.end);
-    let left_t = mjd_from_days((t_days - probe).max(start_days));
-    let right_t = mjd_from_days((t_days + probe).min(end_days));
-
-    if right_t <= left_t {
-        return None;
-    }
-
-    let left = eval_signal(signal, left_t, diagnostics) - threshold_sin;
-    let right = eval_signal(signal, right_t, diagnostics) - threshold_sin;
-
-    if (t_days - start_days).abs() <= f64::EPSILON {
-        if right > 0.0 {
-            Some(1)
-        } else if right < 0.0 {
-            Some(-1)
-        } else {
-            None
-        }
-    } else if (t_days - end_days).abs() <= f64::EPSILON {
-        if left < 0.0 {
-            Some(1)
-        } else if left > 0.0 {
-            Some(-1)
-        } else {
-            None
-        }
-    } else if left <= 0.0 && right > 0.0 {
-        Some(1)
-    } else if left > 0.0 && right <= 0.0 {
-        Some(-1)
-    } else {
-        None
-    }
-}
-
 pub(crate) fn brent_f64<F>(
     lo: f64,
     hi: f64,
-- 
2.43.0


From 99cacdd4aad42b91bbad1c39a55d41c577bd1894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 15/77] fix: solar daily predictor missed grazing days and
 transits near day boundaries

---
 src/event/solar/daily_events.rs | 77 ++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/src/event/solar/daily_events.rs b/src/event/solar/daily_events.rs
index ae097af..9b81f3b 100644
--- a/src/event/solar/daily_events.rs
+++ b/src/event/solar/daily_events.rs
@@ -23,7 +23,11 @@ use crate::time::{Interval, JulianDate, ModifiedJulianDate};
 
 use super::altitude::sun_altitude_rad;
 
-const GRAZE_EPS: f64 = 1e-3;
+/// Culminations closer to the threshold than this (in sin altitude) are left to
+/// the precise search: the solar declination drifts during the day.
+const GRAZE_SIN_ALT: f64 = 0.01;
+/// Same-direction crossings closer than this are one crossing found twice.
+const REPEATED_CROSSING_EPS: Days = Days::new(1e-5);
 /// Hour-angle rate used for candidate spacing (rad per mean solar day).
 const HA_RATE_RAD_PER_DAY: f64 = std::f64::consts::TAU;
 
@@ -171,16 +175,19 @@ impl SolarEventContext {
     pub(crate) fn new(site: Geodetic<ECEF>, window: Interval<ModifiedJulianDate>) -> Self {
         let mut days = Vec::new();
         if window.end > window.start {
-            let mut full_day_start = add_days(floor_day(window.start), Days::new(-1.0));
-            let last_day_start = add_days(floor_day(window.end), ONE_DAY);
-            while full_day_start <= last_day_start {
-                let full_day_end = add_days(full_day_start, ONE_DAY);
-                let full_day = Interval::new(full_day_start, full_day_end);
+            // Step from transit to transit, so that none is skipped or repeated
+            // when transits drift across a fixed day boundary.
+            let half_day = Days::new(0.5);
+            let mut mid = add_days(floor_day(window.start), -half_day);
+            let last_mid = add_days(floor_day(window.end), Days::new(2.0));
+            while mid <= last_mid {
+                let full_day = Interval::new(add_days(mid, -half_day), add_days(mid, half_day));
+                let state = solar_daily_state(site, full_day);
                 days.push(SolarDayWindow {
                     transit_day: full_day,
-                    state: solar_daily_state(site, full_day),
+                    state,
                 });
-                full_day_start = full_day_end;
+                mid = add_days(state.map_or(mid, |s| s.approx_transit), ONE_DAY);
             }
         }
         Self { days }
@@ -248,8 +255,8 @@ pub(crate) fn solar_daily_crossings_for_thresholds_impl(
         }
     }
 
-    for crossings in &mut results {
-        sort_dedup_labelled(crossings);
+    for (crossings, thr_sin) in results.iter_mut().zip(threshold_sins) {
+        settle_labelled(site, window, thr_sin, opts, &mut diagnostics, crossings);
     }
 
     results
@@ -326,7 +333,7 @@ pub(crate) fn solar_daily_crossings_impl(
         ));
     }
 
-    sort_dedup_labelled(&mut labelled);
+    settle_labelled(site, window, thr_sin, opts, &mut diagnostics, &mut labelled);
     diagnostics.refined_crossings = labelled.len();
     (labelled, diagnostics)
 }
@@ -381,14 +388,12 @@ fn predict_day_crossings(
     }
 
     let cos_h0 = (thr_sin - sin_lat * state.sin_dec) / denom;
-    let case = if cos_h0 > 1.0 + GRAZE_EPS {
+    let graze_eps = GRAZE_SIN_ALT / denom;
+    let case = if cos_h0 > 1.0 + graze_eps {
         DayThresholdCase::AlwaysBelow
-    } else if cos_h0 < -1.0 - GRAZE_EPS {
+    } else if cos_h0 < -1.0 - graze_eps {
         DayThresholdCase::AlwaysAbove
-    } else if !(-1.0..=1.0).contains(&cos_h0)
-        || (cos_h0 + 1.0).abs() < GRAZE_EPS
-        || (cos_h0 - 1.0).abs() < GRAZE_EPS
-    {
+    } else if cos_h0.abs() > 1.0 - graze_eps {
         diagnostics.grazing_days += 1;
         return fallback_solar_crossings_for_window(
             site,
@@ -569,15 +574,10 @@ fn solar_daily_state(
 
     let gmst = gmst_default(jd).value();
     let lst = normalize_angle(gmst + site.lon.to::<Radian>().value());
-    let hour_angle = normalize_angle(lst - ra);
+    // Transit nearest to the middle of the day: hour angle in [-π, π).
+    let hour_angle = normalize_angle(lst - ra + std::f64::consts::PI) - std::f64::consts::PI;
     let transit_offset_days = -hour_angle / HA_RATE_RAD_PER_DAY;
-    let mut approx_transit = add_days(t_mid, Days::new(transit_offset_days));
-
-    if approx_transit < full_day.start {
-        approx_transit = add_days(approx_transit, ONE_DAY);
-    } else if approx_transit > full_day.end {
-        approx_transit = add_days(approx_transit, Days::new(-ONE_DAY.value()));
-    }
+    let approx_transit = add_days(t_mid, Days::new(transit_offset_days));
 
     Some(SolarDailyState {
         sin_dec: dec.sin(),
@@ -949,6 +949,33 @@ pub(crate) fn solar_twilight_profile_impl(
     solar_daily_crossings_for_thresholds_impl(site, window, thresholds, opts)
 }
 
+/// Merge the per-day crossings into one alternating sequence.
+///
+/// Predicted directions and day boundaries are approximate, so the sequence must
+/// connect the precise states at both ends of the window; when it does not, the
+/// window is searched again without the predictor.
+fn settle_labelled(
+    site: Geodetic<ECEF>,
+    window: Interval<ModifiedJulianDate>,
+    thr_sin: f64,
+    opts: InternalSearchConfig,
+    diagnostics: &mut SolarDailyDiagnostics,
+    labelled: &mut Vec<LabeledCrossing>,
+) {
+    sort_dedup_labelled(labelled);
+    // The influence windows of consecutive days overlap.
+    labelled.dedup_by(|b, a| {
+        a.direction == b.direction && (b.t.raw() - a.t.raw()) < REPEATED_CROSSING_EPS
+    });
+    let start_above = solar_residual(site, window.start, thr_sin, diagnostics) > 0.0;
+    let end_above = solar_residual(site, window.end, thr_sin, diagnostics) > 0.0;
+    let found = labelled.len();
+    crossings::retain_alternating(labelled, start_above);
+    if labelled.len() != found || (found % 2 == 1) != (start_above != end_above) {
+        *labelled = fallback_day(site, window, thr_sin, opts, diagnostics);
+    }
+}
+
 fn sort_dedup_labelled(crossings: &mut Vec<LabeledCrossing>) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
     crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS);
-- 
2.43.0


From 825d3a7d4aea8ae703b90a940d21ecf05121b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 16/77] fix: threshold scan missed a crossing that falls
 exactly on a scan node

---
 src/event/search/intervals.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/event/search/intervals.rs b/src/event/search/intervals.rs
index d0881ca..36e6f79 100644
--- a/src/event/search/intervals.rs
+++ b/src/event/search/intervals.rs
@@ -103,7 +103,7 @@ where
         };
         let next_v = g(next_t);
 
-        if (prev < zero && next_v > zero) || (prev > zero && next_v < zero) {
+        if (prev > zero) != (next_v > zero) {
             if let Some(root_t) =
                 root_finding::brent_with_values(Interval::new(t, next_t), prev, next_v, g)
             {
@@ -159,12 +159,10 @@ where
         };
         let next_v = g(next_t);
 
-        let direction = if prev < zero && next_v > zero {
-            Some(1)
-        } else if prev > zero && next_v < zero {
-            Some(-1)
-        } else {
-            None
+        let direction = match (prev > zero, next_v > zero) {
+            (false, true) => Some(1),
+            (true, false) => Some(-1),
+            _ => None,
         };
 
         if let Some(direction) = direction {
-- 
2.43.0


From e2cf7cb129aab917da8ec7fa3653e2dc6987a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 17/77] fix: star azimuth ignored the requested correction
 policy

---
 src/event/azimuth/provider.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/event/azimuth/provider.rs b/src/event/azimuth/provider.rs
index fd74138..2f52b8b 100644
--- a/src/event/azimuth/provider.rs
+++ b/src/event/azimuth/provider.rs
@@ -286,6 +286,16 @@ impl AzimuthProvider for Star<'_> {
         dir.azimuth_at(observer, mjd)
     }
 
+    fn azimuth_at_with_policy(
+        &self,
+        observer: &Geodetic<ECEF>,
+        mjd: ModifiedJulianDate,
+        policy: crate::astro::apparent::CorrectionPolicy,
+    ) -> Radians {
+        let dir = direction::ICRS::from(self);
+        dir.azimuth_at_with_policy(observer, mjd, policy)
+    }
+
     fn azimuth_periods(&self, query: &AzimuthQuery) -> Vec<Interval<ModifiedJulianDate>> {
         let dir = direction::ICRS::from(self);
         dir.azimuth_periods(query)
-- 
2.43.0


From 5ecceb38bbaecc05efb51dd09809552654aebd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 18/77] fix: azimuth events reported opposite-bearing passages
 and missed narrow ranges and fast sweeps

---
 src/event/azimuth/events.rs | 381 +++++++++++++++++++++---------------
 1 file changed, 227 insertions(+), 154 deletions(-)

diff --git a/src/event/azimuth/events.rs b/src/event/azimuth/events.rs
index 1ed108b..8c4a986 100644
--- a/src/event/azimuth/events.rs
+++ b/src/event/azimuth/events.rs
@@ -41,15 +41,13 @@
 //! ## References
 //! None.
 
-use std::cell::Cell;
-
 use super::provider::AzimuthProvider;
 use super::search::{SearchOpts, DEFAULT_SCAN_STEP, EXTREMA_SCAN_STEP};
 use super::types::{AzimuthCrossingEvent, AzimuthExtremum, AzimuthExtremumKind, AzimuthQuery};
 use crate::coordinates::centers::Geodetic;
 use crate::coordinates::frames::ECEF;
 use crate::event::altitude::CrossingDirection;
-use crate::event::search::{extrema, intervals};
+use crate::event::search::{extrema, intervals, root_finding};
 use crate::qtty::*;
 use crate::time::{complement_within, Interval, ModifiedJulianDate};
 
@@ -62,80 +60,160 @@ fn scan_step_for<T: AzimuthProvider>(target: &T, _opts: &SearchOpts) -> Days {
     target.scan_step_hint().unwrap_or(DEFAULT_SCAN_STEP)
 }
 
-/// Build a **continuous** function `sin(az(t) − bearing)`.
-///
-/// This sidesteps the 0°/360° discontinuity of the raw azimuth: because sine
-/// has period 2π, `sin(az + 2π − b) = sin(az − b)`, the function is smooth
-/// and sign-changes exactly where `az(t) = bearing  (mod 360°)`.
-///
-/// The zero-crossings of this function correspond exactly to crossing events
-/// for the given bearing.
-fn make_az_bearing_sin_fn<'a, T: AzimuthProvider>(
-    target: &'a T,
-    site: &'a Geodetic<ECEF>,
-    bearing: Radians,
-    policy: crate::astro::apparent::CorrectionPolicy,
-) -> impl Fn(ModifiedJulianDate) -> Radians + 'a {
-    let site = *site;
-    move |t: ModifiedJulianDate| {
-        let az = target.azimuth_at_with_policy(&site, t, policy);
-        Radians::new((az - bearing).sin())
-    }
+/// Azimuth motion between consecutive samples is kept below this (radians), so
+/// that each step can be unwrapped and no full sweep hides between samples.
+const MAX_SAMPLE_MOTION: f64 = 0.35;
+/// Samples are never refined below this spacing.
+const MIN_SAMPLE_STEP: Days = Days::new(1e-7);
+
+/// One sample of the unwrapped (continuous) azimuth, in radians.
+#[derive(Clone, Copy)]
+struct AzimuthSample {
+    t: ModifiedJulianDate,
+    az: f64,
 }
 
-/// Build a continuous function `cos(az(t) − mid)` for range queries.
-///
-/// The body is inside the arc `[min_az, max_az]` when
-/// `cos(az − mid) ≥ cos(halfwidth)`, i.e. when this function is ≥ 0 after
-/// subtracting `cos(halfwidth)`.  This avoids the 0°/360° wrap entirely.
-fn make_az_cosine_fn<'a, T: AzimuthProvider>(
-    target: &'a T,
-    site: &'a Geodetic<ECEF>,
-    mid: Radians,
-    cos_hw: f64,
-    policy: crate::astro::apparent::CorrectionPolicy,
-) -> impl Fn(ModifiedJulianDate) -> Radians + 'a {
-    let site = *site;
-    move |t: ModifiedJulianDate| {
-        let az = target.azimuth_at_with_policy(&site, t, policy);
-        Radians::new((az - mid).cos() - cos_hw)
-    }
+/// A sampled azimuth track over one window.
+struct AzimuthTrack<F> {
+    raw: F,
+    /// Chronological samples: between neighbours the azimuth is monotone.
+    samples: Vec<AzimuthSample>,
+    /// Local extrema of the unwrapped azimuth.
+    extrema: Vec<extrema::Extremum<Radian>>,
 }
 
-/// Build an **unwrapped** (continuous) azimuth closure using a `Cell`-based
-/// accumulator.
-///
-/// Each call adjusts a running ±2π offset whenever the raw azimuth value
-/// jumps by more than π since the last sample.  This produces a smooth,
-/// monotone function safe for `find_extrema_tol`.
-///
-/// **Important:** this closure is stateful and must be evaluated with
-/// monotonically increasing `t`, as guaranteed by all `math_core` scan loops.
-fn make_az_unwrapped_fn<'a, T: AzimuthProvider>(
-    target: &'a T,
-    site: Geodetic<ECEF>,
-    policy: crate::astro::apparent::CorrectionPolicy,
-) -> impl Fn(ModifiedJulianDate) -> Radians + 'a {
-    let prev_raw: Cell<f64> = Cell::new(f64::NAN);
-    let offset: Cell<f64> = Cell::new(0.0f64);
-    move |t: ModifiedJulianDate| {
-        let raw = target.azimuth_at_with_policy(&site, t, policy).value(); // [0, 2π)
-        let p = prev_raw.get();
-        if !p.is_nan() {
-            let diff = raw - p;
-            if diff > std::f64::consts::PI {
-                // Apparent upward jump > π → real motion was downward (0°→360° crossing)
-                offset.set(offset.get() - std::f64::consts::TAU);
-            } else if diff < -std::f64::consts::PI {
-                // Apparent downward jump > π → real motion was upward (360°→0° crossing)
-                offset.set(offset.get() + std::f64::consts::TAU);
+#[inline]
+fn wrap_signed(rad: f64) -> f64 {
+    rad - std::f64::consts::TAU * (rad / std::f64::consts::TAU).round()
+}
+
+impl<F: Fn(ModifiedJulianDate) -> f64> AzimuthTrack<F> {
+    /// Sample `raw` (azimuth in radians, any branch) on `window`.
+    ///
+    /// Starts from a uniform grid of the given `step`, bisects wherever the
+    /// azimuth sweeps quickly (passages near the zenith) and adds the turning
+    /// points of the unwrapped azimuth.
+    fn new(raw: F, window: Interval<ModifiedJulianDate>, step: Days, tol: Days) -> Self {
+        let mut track = Self {
+            raw,
+            samples: Vec::new(),
+            extrema: Vec::new(),
+        };
+        if window.end <= window.start || step <= Days::zero() {
+            return track;
+        }
+
+        let mut last = AzimuthSample {
+            t: window.start,
+            az: (track.raw)(window.start),
+        };
+        track.samples.push(last);
+        let mut pending: Vec<(ModifiedJulianDate, f64)> = Vec::new();
+        while last.t < window.end {
+            let proposed = ModifiedJulianDate::new((last.t.raw() + step).value());
+            let next = if proposed <= window.end {
+                proposed
+            } else {
+                window.end
+            };
+            pending.push((next, (track.raw)(next)));
+            while let Some(&(t, az)) = pending.last() {
+                let motion = wrap_signed(az - last.az);
+                let gap = t.raw() - last.t.raw();
+                if motion.abs() > MAX_SAMPLE_MOTION && gap > MIN_SAMPLE_STEP {
+                    let mid = ModifiedJulianDate::new((last.t.raw() + gap * 0.5).value());
+                    pending.push((mid, (track.raw)(mid)));
+                } else {
+                    last = AzimuthSample {
+                        t,
+                        az: last.az + motion,
+                    };
+                    track.samples.push(last);
+                    pending.pop();
+                }
+            }
+        }
+
+        track.extrema = track
+            .samples
+            .windows(3)
+            .filter_map(|w| track.turning_point([w[0], w[1], w[2]], tol))
+            .collect();
+        for ext in &track.extrema {
+            track.samples.push(AzimuthSample {
+                t: ext.t,
+                az: ext.value.value(),
+            });
+        }
+        track
+            .samples
+            .sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
+        track
+    }
+
+    fn turning_point(
+        &self,
+        [a, b, c]: [AzimuthSample; 3],
+        tol: Days,
+    ) -> Option<extrema::Extremum<Radian>> {
+        let near = |t: ModifiedJulianDate| Radians::new(b.az + wrap_signed((self.raw)(t) - b.az));
+        let around = Interval::new(a.t, c.t);
+        let (kind, (t, value)) = if b.az > a.az && b.az >= c.az {
+            let kind = extrema::ExtremumKind::Maximum;
+            (kind, extrema::maximize_tol(around, &near, tol))
+        } else if b.az < a.az && b.az <= c.az {
+            let kind = extrema::ExtremumKind::Minimum;
+            (kind, extrema::minimize_tol(around, &near, tol))
+        } else {
+            return None;
+        };
+        Some(extrema::Extremum { t, value, kind })
+    }
+
+    /// Times at which the azimuth passes `bearing`, with the sense of motion.
+    fn bearing_crossings(&self, bearing: f64) -> Vec<intervals::LabeledCrossing> {
+        let offset = |t: ModifiedJulianDate| Radians::new(wrap_signed((self.raw)(t) - bearing));
+        let mut crossings: Vec<intervals::LabeledCrossing> = Vec::new();
+        for pair in self.samples.windows(2) {
+            let (lo, hi) = (
+                wrap_signed(pair[0].az - bearing),
+                wrap_signed(pair[1].az - bearing),
+            );
+            // A change of sign through ±180° is a passage of the opposite bearing.
+            if (lo > 0.0) == (hi > 0.0) || (hi - lo).abs() > std::f64::consts::PI {
+                continue;
+            }
+            let t = root_finding::brent_with_values(
+                Interval::new(pair[0].t, pair[1].t),
+                Radians::new(lo),
+                Radians::new(hi),
+                offset,
+            );
+            if let Some(t) = t {
+                let direction = if hi > lo { 1 } else { -1 };
+                crossings.push(intervals::LabeledCrossing { t, direction });
             }
         }
-        prev_raw.set(raw);
-        Radians::new(raw + offset.get())
+        crossings
     }
 }
 
+fn azimuth_track<'a, T: AzimuthProvider>(
+    target: &'a T,
+    observer: &'a Geodetic<ECEF>,
+    window: Interval<ModifiedJulianDate>,
+    policy: crate::astro::apparent::CorrectionPolicy,
+    step: Days,
+    opts: &SearchOpts,
+) -> AzimuthTrack<impl Fn(ModifiedJulianDate) -> f64 + 'a> {
+    AzimuthTrack::new(
+        move |t| target.azimuth_at_with_policy(observer, t, policy).value(),
+        window,
+        step,
+        opts.time_tolerance,
+    )
+}
+
 // ---------------------------------------------------------------------------
 // Bearing Crossings
 // ---------------------------------------------------------------------------
@@ -186,29 +264,25 @@ pub fn azimuth_crossings<T: AzimuthProvider>(
     bearing: Degrees,
     opts: SearchOpts,
 ) -> Vec<AzimuthCrossingEvent> {
-    let bearing_rad = bearing.to::<Radian>();
-    let f = make_az_bearing_sin_fn(
+    azimuth_track(
         target,
         observer,
-        bearing_rad,
+        window,
         crate::astro::apparent::CorrectionPolicy::APPARENT,
-    );
-    let step = scan_step_for(target, &opts);
-
-    let mut raw = intervals::find_crossings(window, step, &f, Radians::new(0.0));
-    let labeled = intervals::label_crossings(&mut raw, &f, Radians::new(0.0));
-
-    labeled
-        .iter()
-        .map(|lc| AzimuthCrossingEvent {
-            mjd: lc.t,
-            direction: if lc.direction > 0 {
-                CrossingDirection::Rising
-            } else {
-                CrossingDirection::Setting
-            },
-        })
-        .collect()
+        scan_step_for(target, &opts),
+        &opts,
+    )
+    .bearing_crossings(bearing.to::<Radian>().value())
+    .iter()
+    .map(|lc| AzimuthCrossingEvent {
+        mjd: lc.t,
+        direction: if lc.direction > 0 {
+            CrossingDirection::Rising
+        } else {
+            CrossingDirection::Setting
+        },
+    })
+    .collect()
 }
 
 // ---------------------------------------------------------------------------
@@ -220,8 +294,8 @@ pub fn azimuth_crossings<T: AzimuthProvider>(
 ///
 /// Returns a chronologically sorted list of [`AzimuthExtremum`]s.
 ///
-/// Uses a stateful unwrapped closure so that true extrema near the
-/// 0°/360° boundary are detected correctly.
+/// Works on the unwrapped azimuth, so that true extrema near the 0°/360°
+/// boundary are detected correctly.
 ///
 /// # Arguments
 ///
@@ -241,29 +315,29 @@ pub fn azimuth_extrema<T: AzimuthProvider>(
     opts: SearchOpts,
 ) -> Vec<AzimuthExtremum> {
     let step = target.scan_step_hint().unwrap_or(EXTREMA_SCAN_STEP);
-    let tol = opts.time_tolerance;
-
-    let f = make_az_unwrapped_fn(
+    azimuth_track(
         target,
-        *observer,
+        observer,
+        window,
         crate::astro::apparent::CorrectionPolicy::APPARENT,
-    );
-    let raw: Vec<extrema::Extremum<Radian>> = extrema::find_extrema_tol(window, step, &f, tol);
-
-    raw.iter()
-        .map(|ext| {
-            // Wrap the unwrapped value back into [0°, 360°)
-            let az_deg = ext.value.wrap_pos().to::<Degree>();
-            AzimuthExtremum {
-                mjd: ext.t,
-                azimuth: az_deg,
-                kind: match ext.kind {
-                    extrema::ExtremumKind::Maximum => AzimuthExtremumKind::Max,
-                    extrema::ExtremumKind::Minimum => AzimuthExtremumKind::Min,
-                },
-            }
-        })
-        .collect()
+        step,
+        &opts,
+    )
+    .extrema
+    .iter()
+    .map(|ext| {
+        // Wrap the unwrapped value back into [0°, 360°)
+        let az_deg = ext.value.wrap_pos().to::<Degree>();
+        AzimuthExtremum {
+            mjd: ext.t,
+            azimuth: az_deg,
+            kind: match ext.kind {
+                extrema::ExtremumKind::Maximum => AzimuthExtremumKind::Max,
+                extrema::ExtremumKind::Minimum => AzimuthExtremumKind::Min,
+            },
+        }
+    })
+    .collect()
 }
 
 // ---------------------------------------------------------------------------
@@ -276,55 +350,54 @@ pub fn azimuth_extrema<T: AzimuthProvider>(
 /// This function is `pub(crate)` and is the single implementation backing
 /// all [`AzimuthProvider::azimuth_periods`] impls.
 ///
-/// ## Non-wrap range (`min ≤ max`)
-///
-/// Uses the midpoint-cosine approach:
-/// `f(t) = cos(az(t) − mid) − cos(halfwidth) ≥ 0` precisely when
-/// `az ∈ [min, max]`.  This function is continuous even through the
-/// 0°/360° boundary.
-///
-/// ## Wrap-around range (`min > max`)
-///
-/// The arc `[min, 360°) ∪ [0°, max]` equals the complement of the arc
-/// `[max, min]` (non-wrapping).  We compute the non-wrapping complement and
-/// take its complement within the window.
+/// The window is cut at the passages of both edges of the band, and each piece
+/// is kept when its midpoint lies inside. A band with `min > max` wraps through
+/// North.
 pub(crate) fn azimuth_range_periods<T: AzimuthProvider>(
     target: &T,
     query: &AzimuthQuery,
 ) -> Vec<Interval<ModifiedJulianDate>> {
-    let step = scan_step_for(target, &query.opts);
-
-    if query.min_azimuth <= query.max_azimuth {
-        // ── Non-wrap arc [min, max] ────────────────────────────────────────
-        let mid = ((query.min_azimuth + query.max_azimuth) * 0.5).to::<Radian>();
-        let half_width = ((query.max_azimuth - query.min_azimuth) * 0.5).to::<Radian>();
-        let cos_hw = half_width.cos();
-
-        let f = make_az_cosine_fn(
-            target,
-            &query.observer,
-            mid,
-            cos_hw,
-            query.correction_policy,
-        );
-        intervals::above_threshold_periods(query.window, step, &f, Radians::new(0.0))
+    let window = query.window;
+    let (min, max) = (
+        query.min_azimuth.to::<Radian>().value(),
+        query.max_azimuth.to::<Radian>().value(),
+    );
+    let width = if min <= max {
+        max - min
     } else {
-        // ── Wrap-around arc [min, 360°) ∪ [0°, max] ──────────────────────
-        // Complement arc is [max, min] (non-wrapping).
-        let mid = ((query.max_azimuth + query.min_azimuth) * 0.5).to::<Radian>();
-        let half_width = ((query.min_azimuth - query.max_azimuth) * 0.5).to::<Radian>();
-        let cos_hw = half_width.cos();
-
-        let f = make_az_cosine_fn(
-            target,
-            &query.observer,
-            mid,
-            cos_hw,
-            query.correction_policy,
-        );
-        let outside = intervals::above_threshold_periods(query.window, step, &f, Radians::new(0.0));
-        complement_within(query.window, &outside)
+        std::f64::consts::TAU - (min - max)
+    };
+
+    let track = azimuth_track(
+        target,
+        &query.observer,
+        window,
+        query.correction_policy,
+        scan_step_for(target, &query.opts),
+        &query.opts,
+    );
+    let mut cuts = vec![window.start];
+    for edge in [min, max] {
+        cuts.extend(track.bearing_crossings(edge).iter().map(|c| c.t));
+    }
+    cuts.push(window.end);
+    cuts.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+
+    let mut periods: Vec<Interval<ModifiedJulianDate>> = Vec::new();
+    for pair in cuts.windows(2) {
+        if pair[1] <= pair[0] {
+            continue;
+        }
+        let mid = ModifiedJulianDate::new((pair[0].raw() + pair[1].raw()).value() * 0.5);
+        if ((track.raw)(mid) - min).rem_euclid(std::f64::consts::TAU) > width {
+            continue;
+        }
+        match periods.last_mut() {
+            Some(last) if last.end == pair[0] => last.end = pair[1],
+            _ => periods.push(Interval::new(pair[0], pair[1])),
+        }
     }
+    periods
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 2a91943e0d3795e15b1e75731e60759c443e08cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 19/77] fix: azimuth turning points in the first and last
 sampling step were missed

---
 src/event/azimuth/events.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/event/azimuth/events.rs b/src/event/azimuth/events.rs
index 8c4a986..e1acda3 100644
--- a/src/event/azimuth/events.rs
+++ b/src/event/azimuth/events.rs
@@ -65,6 +65,8 @@ fn scan_step_for<T: AzimuthProvider>(target: &T, _opts: &SearchOpts) -> Days {
 const MAX_SAMPLE_MOTION: f64 = 0.35;
 /// Samples are never refined below this spacing.
 const MIN_SAMPLE_STEP: Days = Days::new(1e-7);
+/// Length of the first and last sampling steps of a window.
+const EDGE_STEP: Days = Days::new(1e-5);
 
 /// One sample of the unwrapped (continuous) azimuth, in radians.
 #[derive(Clone, Copy)]
@@ -108,11 +110,21 @@ impl<F: Fn(ModifiedJulianDate) -> f64> AzimuthTrack<F> {
             az: (track.raw)(window.start),
         };
         track.samples.push(last);
+        let inner_end = ModifiedJulianDate::new((window.end.raw() - EDGE_STEP).value());
         let mut pending: Vec<(ModifiedJulianDate, f64)> = Vec::new();
         while last.t < window.end {
-            let proposed = ModifiedJulianDate::new((last.t.raw() + step).value());
-            let next = if proposed <= window.end {
+            // The two short edge steps expose a turning point in the first or
+            // last step, which has a neighbour on one side only.
+            let ahead = if last.t == window.start {
+                EDGE_STEP
+            } else {
+                step
+            };
+            let proposed = ModifiedJulianDate::new((last.t.raw() + ahead).value());
+            let next = if proposed < inner_end {
                 proposed
+            } else if last.t < inner_end {
+                inner_end
             } else {
                 window.end
             };
-- 
2.43.0


From bd88f31ff28585decfd13b27b873d568eeac6e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 20/77] fix: Moon phase angle ignored the Sun's ecliptic
 latitude

---
 src/event/lunar/phase.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/event/lunar/phase.rs b/src/event/lunar/phase.rs
index e38a867..9be35d0 100644
--- a/src/event/lunar/phase.rs
+++ b/src/event/lunar/phase.rs
@@ -361,14 +361,16 @@ fn moon_ecliptic_geocentric<E: Ephemeris>(jd: JulianDate) -> (Radians, Radians,
 
 /// Ecliptic longitude and distance of the Sun as seen from Earth (geocentric).
 ///
-/// We compute: Sun geocentric ecliptic lon = Earth heliocentric lon + π.
-/// Returns `(lon, dist_au)`.
-fn sun_ecliptic_geocentric<E: Ephemeris>(jd: JulianDate) -> (Radians, f64) {
+/// We compute: Sun geocentric ecliptic lon = Earth heliocentric lon + π and
+/// lat = −Earth heliocentric lat.
+/// Returns `(lon, lat, dist_au)`.
+fn sun_ecliptic_geocentric<E: Ephemeris>(jd: JulianDate) -> (Radians, Radians, f64) {
     let earth = E::earth_heliocentric(jd);
     let sph = earth.to_spherical();
     let sun_lon = Radians::new((sph.azimuth.to::<Radian>().value() + PI).rem_euclid(TWO_PI));
+    let sun_lat = -sph.polar.to::<Radian>();
     let sun_dist = sph.distance.value(); // AU
-    (sun_lon, sun_dist)
+    (sun_lon, sun_lat, sun_dist)
 }
 
 /// Compute Moon–Sun elongation (eastward, in \[0, 2π)) from ecliptic
@@ -426,11 +428,11 @@ fn phase_angle_from_triangle(r_moon_km: f64, r_sun_au: f64, psi: f64) -> f64 {
 /// ```
 pub fn moon_phase_geocentric<E: Ephemeris>(jd: JulianDate) -> MoonPhaseGeometry {
     let (moon_lon, moon_lat, moon_dist_km) = moon_ecliptic_geocentric::<E>(jd);
-    let (sun_lon, sun_dist_au) = sun_ecliptic_geocentric::<E>(jd);
+    let (sun_lon, sun_lat, sun_dist_au) = sun_ecliptic_geocentric::<E>(jd);
 
     // Elongation: angular separation measured eastward from the Sun.
     // For the proper great-circle elongation including latitude:
-    let psi = great_circle_elongation(sun_lon, Radians::new(0.0), moon_lon, moon_lat);
+    let psi = great_circle_elongation(sun_lon, sun_lat, moon_lon, moon_lat);
 
     // Signed elongation for waxing/waning (eastward = positive)
     let signed_elong = elongation_from_longitudes(moon_lon, sun_lon);
@@ -539,7 +541,7 @@ pub fn moon_phase_topocentric<E: Ephemeris>(
     // Phase angle from geocentric distance triangle
     // (topocentric parallax is < 1° → distance ratios essentially unchanged)
     let (_, _, moon_dist_km) = moon_ecliptic_geocentric::<E>(jd);
-    let (_, sun_dist_au) = sun_ecliptic_geocentric::<E>(jd);
+    let (_, _, sun_dist_au) = sun_ecliptic_geocentric::<E>(jd);
     let i = phase_angle_from_triangle(moon_dist_km, sun_dist_au, psi);
 
     let k = (1.0 + i.cos()) / 2.0;
@@ -560,7 +562,7 @@ pub fn moon_phase_topocentric<E: Ephemeris>(
 fn elongation_at_mjd<E: Ephemeris>(mjd: ModifiedJulianDate) -> f64 {
     let jd: JulianDate = mjd.to::<crate::JD>();
     let (moon_lon, _, _) = moon_ecliptic_geocentric::<E>(jd);
-    let (sun_lon, _) = sun_ecliptic_geocentric::<E>(jd);
+    let (sun_lon, _, _) = sun_ecliptic_geocentric::<E>(jd);
     elongation_from_longitudes(moon_lon, sun_lon)
 }
 
-- 
2.43.0


From 46639054b5e471b2d3a4e9bb29116a20e8e08deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 21/77] fix: topocentric Moon phase ignored the requested
 ephemeris

---
 src/event/lunar/phase.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/event/lunar/phase.rs b/src/event/lunar/phase.rs
index 9be35d0..44c9cb3 100644
--- a/src/event/lunar/phase.rs
+++ b/src/event/lunar/phase.rs
@@ -513,16 +513,23 @@ pub fn moon_phase_topocentric<E: Ephemeris>(
     jd: JulianDate,
     site: Geodetic<frames::ECEF>,
 ) -> MoonPhaseGeometry {
-    use crate::bodies::solar_system::{Moon, Sun};
-
-    // Topocentric equatorial positions (true-of-date)
-    let moon_topo: affn::spherical::Position<Topocentric, frames::EquatorialTrueOfDate, Kilometer> =
-        Moon::get_apparent_topocentric_equ(jd, site);
-    let sun_topo: affn::spherical::Position<
-        Topocentric,
-        frames::EquatorialTrueOfDate,
-        AstronomicalUnit,
-    > = Sun::get_apparent_topocentric_equ(jd, site);
+    use crate::coordinates::transform::TransformFrame;
+    use crate::event::horizontal::geocentric_j2000_to_apparent_topocentric;
+
+    // Topocentric equatorial positions (true-of-date) from the `E` backend
+    let moon_geo: cartesian::Position<Geocentric, frames::EquatorialMeanJ2000, Kilometer> =
+        E::moon_geocentric(jd).to_frame();
+    let moon_topo = geocentric_j2000_to_apparent_topocentric(&moon_geo, site, jd);
+    let earth = E::earth_heliocentric(jd);
+    let sun_geo_ecl =
+        cartesian::Position::<Geocentric, frames::EclipticMeanJ2000, AstronomicalUnit>::new(
+            -earth.x(),
+            -earth.y(),
+            -earth.z(),
+        );
+    let sun_geo: cartesian::Position<Geocentric, frames::EquatorialMeanJ2000, AstronomicalUnit> =
+        sun_geo_ecl.to_frame();
+    let sun_topo = geocentric_j2000_to_apparent_topocentric(&sun_geo, site, jd);
 
     // RA/Dec as typed Radians
     let moon_ra = moon_topo.ra().to::<Radian>();
-- 
2.43.0


From ff7f5dee7475d57660c1990251687b9576d5fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 22/77] fix: Moon illumination windows were dropped when their
 midpoint fell in a short unresolved dip

---
 src/event/lunar/phase.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/event/lunar/phase.rs b/src/event/lunar/phase.rs
index 44c9cb3..c18299a 100644
--- a/src/event/lunar/phase.rs
+++ b/src/event/lunar/phase.rs
@@ -799,7 +799,12 @@ pub fn illumination_above<E: Ephemeris>(
     k_min: IlluminationFractions,
     opts: PhaseSearchOpts,
 ) -> Vec<Interval<ModifiedJulianDate>> {
-    intervals::above_threshold_periods(window, opts.scan_step, &illumination_at_mjd::<E>, k_min)
+    intervals::above_threshold_periods_directed(
+        window,
+        opts.scan_step,
+        &illumination_at_mjd::<E>,
+        k_min,
+    )
 }
 
 /// Find all time windows in `window` where the geocentric illuminated
@@ -863,7 +868,7 @@ pub fn illumination_range<E: Ephemeris>(
     k_max: IlluminationFractions,
     opts: PhaseSearchOpts,
 ) -> Vec<Interval<ModifiedJulianDate>> {
-    intervals::in_range_periods(
+    intervals::in_range_periods_directed(
         window,
         opts.scan_step,
         &illumination_at_mjd::<E>,
-- 
2.43.0


From d4058ed2ae9a61c0a7e38f948a0c50297b9f1ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 23/77] fix: convert radial velocity per Julian year in
 space-motion propagation

---
 src/astro/proper_motion.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/astro/proper_motion.rs b/src/astro/proper_motion.rs
index 5a3f9bf..f679dde 100644
--- a/src/astro/proper_motion.rs
+++ b/src/astro/proper_motion.rs
@@ -331,10 +331,11 @@ pub fn propagate_space_motion(
     let v_alpha_au_yr = pm_ra_rad_yr * r_au * cos_d;
     let v_delta_au_yr = pm_dec_rad_yr * r_au;
 
-    // Radial velocity in AU/yr (positive = away).
+    // Radial velocity in AU per Julian year (positive = away), the same year
+    // the elapsed interval `dt_yr` is counted in.
     let v_r_au_yr = motion
         .radial_velocity
-        .to::<Per<AstronomicalUnit, Year>>()
+        .to::<Per<AstronomicalUnit, qtty::time::JulianYear>>()
         .value();
 
     // BCRS velocity vector in AU/yr.
-- 
2.43.0


From baf1db758ab5bddae9175306c90b26dd5207fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 24/77] fix: read DAF data words in the byte order of the file

---
 src/formats/spice/daf.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/formats/spice/daf.rs b/src/formats/spice/daf.rs
index b665dd5..9844e5f 100644
--- a/src/formats/spice/daf.rs
+++ b/src/formats/spice/daf.rs
@@ -200,12 +200,16 @@ impl Daf {
         Ok(Daf { nd, ni, summaries })
     }
 
-    /// Read a f64 from the data array at a given word index (1-based).
+    /// Read a f64 from the data array at a given word index (1-based), in the
+    /// byte order of the file.
     #[inline]
     pub fn read_f64_at_word(&self, data: &[u8], word: usize) -> f64 {
         let offset = (word - 1) * 8;
-        // DE440/DE441 kernels from NAIF are little-endian on modern systems.
-        read_f64_le(data, offset)
+        if header_is_big_endian(data) {
+            read_f64_be(data, offset)
+        } else {
+            read_f64_le(data, offset)
+        }
     }
 }
 
@@ -293,11 +297,15 @@ impl DafRaw {
         })
     }
 
-    /// Read an `f64` at a 1-based word index (little-endian).
+    /// Read an `f64` at a 1-based word index, in the byte order of the file.
     #[inline]
     pub fn read_f64_at_word(&self, word: usize) -> f64 {
         let offset = (word - 1) * 8;
-        read_f64_le(&self.bytes, offset)
+        if header_is_big_endian(&self.bytes) {
+            read_f64_be(&self.bytes, offset)
+        } else {
+            read_f64_le(&self.bytes, offset)
+        }
     }
 
     /// Borrow the raw kernel bytes.
@@ -306,6 +314,18 @@ impl DafRaw {
     }
 }
 
+/// Whether the file record holds big-endian `ND`/`NI`, by the same rule the
+/// parsers use. Data without a DAF file record is taken as little-endian.
+#[inline]
+fn header_is_big_endian(data: &[u8]) -> bool {
+    if data.len() < 16 || !data.starts_with(b"DAF") {
+        return false;
+    }
+    let plausible = |nd: i32, ni: i32| nd > 0 && nd <= 100 && ni > 0 && ni <= 100;
+    !plausible(read_i32_le(data, 8), read_i32_le(data, 12))
+        && plausible(read_i32_be(data, 8), read_i32_be(data, 12))
+}
+
 #[inline]
 fn read_i32_le(data: &[u8], offset: usize) -> i32 {
     i32::from_le_bytes(data[offset..offset + 4].try_into().unwrap())
-- 
2.43.0


From 6f8cdb6673bac1d2ee06ac11243c823b25d10b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 25/77] fix: give the last SPK segment covering an epoch
 precedence

---
 src/formats/spice/kernel.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/formats/spice/kernel.rs b/src/formats/spice/kernel.rs
index f969d90..06f5207 100644
--- a/src/formats/spice/kernel.rs
+++ b/src/formats/spice/kernel.rs
@@ -232,6 +232,8 @@ impl SpkKernel {
         // Build undirected adjacency on demand: for each node we visit,
         // walk every segment whose target or center matches it and
         // whose coverage covers `epoch`.
+        // Segments are walked from last to first: where several cover the
+        // epoch, the one stored last in the file has precedence.
         let mut visited: HashMap<i32, (i32, usize, bool)> = HashMap::new();
         // value: (predecessor_node, edge_segment_index, forward_from_pred)
         let mut queue = VecDeque::new();
@@ -246,7 +248,7 @@ impl SpkKernel {
             }
             // Outgoing forward edges (segments where node is the target).
             if let Some(idxs) = self.by_target.get(&node) {
-                for &i in idxs {
+                for &i in idxs.iter().rev() {
                     let s = &self.segments[i];
                     if epoch < s.start_tdb_seconds || epoch > s.end_tdb_seconds {
                         continue;
@@ -258,7 +260,7 @@ impl SpkKernel {
                 }
             }
             // Reverse edges (segments where node is the center).
-            for (i, s) in self.segments.iter().enumerate() {
+            for (i, s) in self.segments.iter().enumerate().rev() {
                 if s.center != node {
                     continue;
                 }
-- 
2.43.0


From 099aa863fc1eb1be2f28aadb7eba59e6c92b05ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 26/77] fix: respect the coverage an SPK segment summary
 declares

---
 src/formats/spice/kernel.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/formats/spice/kernel.rs b/src/formats/spice/kernel.rs
index 06f5207..16b38ab 100644
--- a/src/formats/spice/kernel.rs
+++ b/src/formats/spice/kernel.rs
@@ -99,8 +99,9 @@ impl SpkKernel {
         for summary in &daf.summaries {
             let (segment, start, end) = match segment_for_summary(&bytes, &daf, summary) {
                 Ok(seg) => {
-                    let start = seg.start_tdb_seconds();
-                    let end = seg.end_tdb_seconds();
+                    // The summary bounds where the stored data may be used.
+                    let start = seg.start_tdb_seconds().max(summary.start_et);
+                    let end = seg.end_tdb_seconds().min(summary.end_et);
                     (Some(seg), start, end)
                 }
                 Err(SpiceError::UnsupportedDataType { .. }) => {
-- 
2.43.0


From 79bd8e3b62cb9e9073feed9c68f0a940af1cce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 27/77] fix: a TLE prints half the first and a sixth of the
 second derivative of mean motion

---
 src/astro/sgp4/elements.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/astro/sgp4/elements.rs b/src/astro/sgp4/elements.rs
index 03a3f6a..90bc72c 100644
--- a/src/astro/sgp4/elements.rs
+++ b/src/astro/sgp4/elements.rs
@@ -62,8 +62,10 @@ pub(crate) fn tle_to_elements(tle: &TLE) -> Result<NativeElements, Sgp4Error> {
         argument_of_perigee_rad: tle.argument_of_perigee.value().to_radians(),
         mean_anomaly_rad: tle.mean_anomaly.value().to_radians(),
         mean_motion_rev_per_day: tle.mean_motion.value(),
-        mean_motion_dot_rev_per_day2: tle.mean_motion_dot,
-        mean_motion_ddot_rev_per_day3: tle.mean_motion_ddot,
+        // A TLE prints half the first and a sixth of the second derivative of
+        // the mean motion.
+        mean_motion_dot_rev_per_day2: 2.0 * tle.mean_motion_dot,
+        mean_motion_ddot_rev_per_day3: 6.0 * tle.mean_motion_ddot,
         bstar: tle.bstar,
     })
 }
-- 
2.43.0


From e5cd80fadaf653b3062e112fa716d89aac3282d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 28/77] fix: format_tle wrote fields wider than their columns
 or rolled into the next day

---
 src/formats/tle/builder.rs | 78 +++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/formats/tle/builder.rs b/src/formats/tle/builder.rs
index b9da383..41536b3 100644
--- a/src/formats/tle/builder.rs
+++ b/src/formats/tle/builder.rs
@@ -375,6 +375,20 @@ impl TleBuilder {
 /// assert_eq!(rl2, l2);
 /// ```
 pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
+    for (field, v) in [
+        ("mean_motion_dot", tle.mean_motion_dot),
+        ("mean_motion_ddot", tle.mean_motion_ddot),
+        ("bstar", tle.bstar),
+        ("inclination", tle.inclination.value()),
+        ("raan", tle.raan.value()),
+        ("argument_of_perigee", tle.argument_of_perigee.value()),
+        ("mean_anomaly", tle.mean_anomaly.value()),
+        ("mean_motion", tle.mean_motion.value()),
+    ] {
+        if !v.is_finite() {
+            return Err(unrepresentable(field, v));
+        }
+    }
     let cat = tle.norad_id.format_alpha5()?;
     let cls = tle.classification.as_char();
     let intl = format!("{:<8}", tle.international_designator.0);
@@ -387,41 +401,55 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     let doy = dt.ordinal();
     let secs_of_day =
         dt.num_seconds_from_midnight() as f64 + dt.timestamp_subsec_nanos() as f64 * 1e-9;
-    let frac_day = secs_of_day / 86_400.0;
-    let day_full = doy as f64 + frac_day;
+    // Keep the printed fraction inside the day it belongs to.
+    let frac_1e8 = ((secs_of_day / 86_400.0 * 1.0e8).round() as u64).min(99_999_999);
     let n_dot = format_signed_decimal(tle.mean_motion_dot);
     let n_ddot = format_assumed_decimal_exponent(tle.mean_motion_ddot);
     let bstar_s = format_assumed_decimal_exponent(tle.bstar);
     let elset = format!("{:>4}", tle.element_set_number);
-    let mut l1 =
-        format!("1 {cat}{cls} {intl} {yy:02}{day_full:012.8} {n_dot} {n_ddot} {bstar_s} 0 {elset}");
-    debug_assert_eq!(
-        l1.len(),
-        68,
-        "rendered TLE line1 prefix not 68 chars: {l1:?}"
+    let mut l1 = format!(
+        "1 {cat}{cls} {intl} {yy:02}{doy:03}.{frac_1e8:08} {n_dot} {n_ddot} {bstar_s} 0 {elset}"
     );
+    check_columns(1, &l1)?;
     let cs1 = compute_tle_checksum(&l1);
     l1.push_str(&cs1.to_string());
 
     let inc = format!("{:8.4}", tle.inclination.value());
     let raan = format!("{:8.4}", tle.raan.value());
-    let ecc_scaled = (tle.eccentricity * 1.0e7).round() as u64;
+    if !(0.0..1.0).contains(&tle.eccentricity) {
+        return Err(unrepresentable("eccentricity", tle.eccentricity));
+    }
+    let ecc_scaled = ((tle.eccentricity * 1.0e7).round() as u64).min(9_999_999);
     let ecc = format!("{ecc_scaled:07}");
     let argp = format!("{:8.4}", tle.argument_of_perigee.value());
     let m_ano = format!("{:8.4}", tle.mean_anomaly.value());
     let n_str = format!("{:11.8}", tle.mean_motion.value());
     let rev = format!("{:>5}", tle.revolution_number_at_epoch);
     let mut l2 = format!("2 {cat} {inc} {raan} {ecc} {argp} {m_ano} {n_str}{rev}");
-    debug_assert_eq!(
-        l2.len(),
-        68,
-        "rendered TLE line2 prefix not 68 chars: {l2:?}"
-    );
+    check_columns(2, &l2)?;
     let cs2 = compute_tle_checksum(&l2);
     l2.push_str(&cs2.to_string());
     Ok((l1, l2))
 }
 
+fn unrepresentable(field: &'static str, v: f64) -> TleError {
+    TleError::InvalidNumber {
+        field,
+        raw: v.to_string(),
+    }
+}
+
+/// A field too wide for its columns would shift all later ones.
+fn check_columns(line: u8, prefix: &str) -> Result<(), TleError> {
+    if prefix.len() != 68 || !prefix.is_ascii() {
+        return Err(TleError::BadLength {
+            line,
+            got: prefix.len() + 1,
+        });
+    }
+    Ok(())
+}
+
 fn format_signed_decimal(v: f64) -> String {
     let sign = if v.is_sign_negative() { '-' } else { ' ' };
     let mag = v.abs();
@@ -430,24 +458,22 @@ fn format_signed_decimal(v: f64) -> String {
 }
 
 fn format_assumed_decimal_exponent(v: f64) -> String {
-    if v == 0.0 || !v.is_finite() {
+    if v == 0.0 {
         return " 00000-0".to_string();
     }
     let sign = if v.is_sign_negative() { '-' } else { ' ' };
     let mag = v.abs();
-    let mut exp = mag.log10().floor() as i32 + 1;
-    let mut mantissa = mag / 10f64.powi(exp);
-    let scaled = (mantissa * 1.0e5).round() as u64;
-    if scaled >= 1_000_000 {
-        mantissa /= 10.0;
+    // The exponent has one digit; smaller values lose leading mantissa digits.
+    let mut exp = (mag.log10().floor() as i32 + 1).max(-9);
+    let mut scaled = (mag / 10f64.powi(exp) * 1.0e5).round() as u64;
+    if scaled >= 100_000 {
         exp += 1;
+        scaled = (mag / 10f64.powi(exp) * 1.0e5).round() as u64;
+    }
+    if scaled == 0 {
+        return " 00000-0".to_string();
     }
-    let scaled = (mantissa * 1.0e5).round() as u64;
     let exp_sign = if exp < 0 { '-' } else { '+' };
     let exp_abs = exp.unsigned_abs();
-    if exp_sign == '+' {
-        format!("{sign}{scaled:05}+{exp_abs}")
-    } else {
-        format!("{sign}{scaled:05}-{exp_abs}")
-    }
+    format!("{sign}{scaled:05}{exp_sign}{exp_abs}")
 }
-- 
2.43.0


From 4104b54f7fdfac616f4aaac36fa01b937a7abc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 29/77] fix: refuse non-ASCII TLE lines instead of panicking on
 a column cut

---
 src/formats/tle/parse.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/formats/tle/parse.rs b/src/formats/tle/parse.rs
index 676d2a1..40d7dba 100644
--- a/src/formats/tle/parse.rs
+++ b/src/formats/tle/parse.rs
@@ -38,6 +38,7 @@ pub fn validate_tle_checksum(line: &str) -> Result<(), TleError> {
             got: line.len(),
         });
     }
+    check_ascii(line)?;
     let bytes = line.as_bytes();
     let stated_byte = bytes[68];
     if !stated_byte.is_ascii_digit() {
@@ -59,6 +60,18 @@ pub fn validate_tle_checksum(line: &str) -> Result<(), TleError> {
     Ok(())
 }
 
+/// The columns are cut by byte position, which only ASCII text has everywhere.
+fn check_ascii(line: &str) -> Result<(), TleError> {
+    if line.is_ascii() {
+        Ok(())
+    } else {
+        Err(TleError::InvalidNumber {
+            field: "line",
+            raw: line.into(),
+        })
+    }
+}
+
 /// Compute the canonical TLE checksum digit for the first 68 columns.
 ///
 /// # Examples
@@ -139,6 +152,8 @@ fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE
             got: line2.len(),
         });
     }
+    check_ascii(line1)?;
+    check_ascii(line2)?;
     let l1b = line1.as_bytes();
     let l2b = line2.as_bytes();
     if l1b[0] as char != '1' {
-- 
2.43.0


From e26b757e72b560936d69cb72980f8d56eb59cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 30/77] fix: refuse non-finite and negative values in TLE
 number fields

---
 src/formats/tle/parse.rs | 42 +++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/formats/tle/parse.rs b/src/formats/tle/parse.rs
index 40d7dba..c5df6f8 100644
--- a/src/formats/tle/parse.rs
+++ b/src/formats/tle/parse.rs
@@ -176,13 +176,12 @@ fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE
     let norad_l1 = SatelliteNumber::parse(&line1[2..7])?;
     let classification = Classification::from_char(line1.as_bytes()[7] as char)?;
     let intl_des = InternationalDesignator(line1[9..17].trim().to_string());
-    let epoch_year_2 = parse_int_field(&line1[18..20], "epoch_year")?;
+    let epoch_year_2: u8 = parse_unsigned_field(&line1[18..20], "epoch_year")?;
     let epoch_day = parse_float_field(&line1[20..32], "epoch_day")?;
     let mean_motion_dot = parse_signed_decimal(&line1[33..43], "mean_motion_dot")?;
     let mean_motion_ddot = parse_assumed_decimal_exponent(&line1[44..52], "mean_motion_ddot")?;
     let bstar = parse_assumed_decimal_exponent(&line1[53..61], "bstar")?;
-    let element_set_number =
-        parse_int_field(line1[64..68].trim_start(), "element_set_number")? as u16;
+    let element_set_number = parse_unsigned_field(&line1[64..68], "element_set_number")?;
 
     let norad_l2 = SatelliteNumber::parse(&line2[2..7])?;
     if norad_l1 != norad_l2 {
@@ -211,8 +210,7 @@ fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE
     let mean_anomaly = Degrees::new(parse_float_field(&line2[43..51], "mean_anomaly")?);
     let mean_motion_revs_per_day = parse_float_field(&line2[52..63], "mean_motion")?;
     let mean_motion = AngularRate::<Turn, Day>::new(mean_motion_revs_per_day);
-    let revolution_number_at_epoch =
-        parse_int_field(line2[63..68].trim_start(), "revolution_number")? as u32;
+    let revolution_number_at_epoch = parse_unsigned_field(&line2[63..68], "revolution_number")?;
 
     let epoch = epoch_from_year_doy(expand_two_digit_year(epoch_year_2 as i32), epoch_day)?;
 
@@ -266,28 +264,29 @@ pub(crate) fn epoch_from_year_doy(year: i32, day_of_year: f64) -> Result<Time<UT
     Time::<UTC>::try_from_chrono(dt).map_err(|e| TleError::EpochConversion(format!("{e:?}")))
 }
 
-fn parse_int_field(raw: &str, field: &'static str) -> Result<i64, TleError> {
+fn parse_unsigned_field<T: std::str::FromStr>(
+    raw: &str,
+    field: &'static str,
+) -> Result<T, TleError> {
     let s = raw.trim();
-    s.parse::<i64>().map_err(|_| TleError::InvalidNumber {
+    s.parse::<T>().map_err(|_| TleError::InvalidNumber {
         field,
         raw: raw.into(),
     })
 }
 
 fn parse_float_field(raw: &str, field: &'static str) -> Result<f64, TleError> {
-    let s = raw.trim();
-    s.parse::<f64>().map_err(|_| TleError::InvalidNumber {
-        field,
-        raw: raw.into(),
-    })
+    match raw.trim().parse::<f64>() {
+        Ok(v) if v.is_finite() => Ok(v),
+        _ => Err(TleError::InvalidNumber {
+            field,
+            raw: raw.into(),
+        }),
+    }
 }
 
 fn parse_signed_decimal(raw: &str, field: &'static str) -> Result<f64, TleError> {
-    let s = raw.trim();
-    s.parse::<f64>().map_err(|_| TleError::InvalidNumber {
-        field,
-        raw: raw.into(),
-    })
+    parse_float_field(raw, field)
 }
 
 /// Parse the TLE assumed-decimal-with-exponent encoding (e.g. `" 12345-3"` →
@@ -334,5 +333,12 @@ pub(crate) fn parse_assumed_decimal_exponent(
         field,
         raw: raw.into(),
     })?;
-    Ok(sign * mantissa * 10f64.powi(exp))
+    let value = sign * mantissa * 10f64.powi(exp);
+    if !value.is_finite() {
+        return Err(TleError::InvalidNumber {
+            field,
+            raw: raw.into(),
+        });
+    }
+    Ok(value)
 }
-- 
2.43.0


From 7e1f561c2dacf522ca56d5e85f7b10e30e5bd53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 31/77] fix: OMM catalogue numbers above 99999, leap-second
 epochs and non-UTC offsets

---
 src/formats/tle/omm/kvn.rs |  6 +++---
 src/formats/tle/omm/mod.rs | 20 ++++++++++++++++++--
 src/formats/tle/omm/xml.rs |  6 +++---
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/formats/tle/omm/kvn.rs b/src/formats/tle/omm/kvn.rs
index 98d400c..ee50755 100644
--- a/src/formats/tle/omm/kvn.rs
+++ b/src/formats/tle/omm/kvn.rs
@@ -8,9 +8,9 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{format_epoch, parse_epoch, parse_norad_cat_id, Omm};
+use crate::formats::tle::Classification;
 use crate::formats::tle::TleError;
-use crate::formats::tle::{Classification, SatelliteNumber};
 
 /// Render an [`Omm`] to its KVN form.
 ///
@@ -148,7 +148,7 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
     let classification = Classification::from_char(cls_char)?;
 
     let norad_str = get("NORAD_CAT_ID")?;
-    let norad_id = SatelliteNumber::parse(norad_str)?;
+    let norad_id = parse_norad_cat_id(norad_str)?;
 
     Ok(Omm {
         object_name,
diff --git a/src/formats/tle/omm/mod.rs b/src/formats/tle/omm/mod.rs
index 4cdd4a5..5f097ce 100644
--- a/src/formats/tle/omm/mod.rs
+++ b/src/formats/tle/omm/mod.rs
@@ -212,12 +212,22 @@ pub(crate) fn contract_intl_designator(s: &str) -> String {
     s.to_string()
 }
 
+/// `NORAD_CAT_ID` is a plain integer of any size; Alpha-5 text is accepted too.
+pub(crate) fn parse_norad_cat_id(raw: &str) -> Result<SatelliteNumber, TleError> {
+    match raw.trim().parse::<u32>() {
+        Ok(n) => Ok(SatelliteNumber(n)),
+        Err(_) => SatelliteNumber::parse(raw),
+    }
+}
+
 /// Format a [`Time<UTC>`] as the ISO-8601 fractional-second OMM epoch.
 pub(crate) fn format_epoch(t: Time<UTC>) -> Result<String, TleError> {
     let dt = t
         .try_to_chrono()
         .map_err(|e| TleError::EpochConversion(format!("{e:?}")))?;
+    // During a leap second the sub-second part counts on past one second.
     let micros = dt.timestamp_subsec_micros();
+    let (second, micros) = (dt.second() + micros / 1_000_000, micros % 1_000_000);
     Ok(format!(
         "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}",
         dt.year(),
@@ -225,7 +235,7 @@ pub(crate) fn format_epoch(t: Time<UTC>) -> Result<String, TleError> {
         dt.day(),
         dt.hour(),
         dt.minute(),
-        dt.second(),
+        second,
         micros
     ))
 }
@@ -235,7 +245,13 @@ pub(crate) fn format_epoch(t: Time<UTC>) -> Result<String, TleError> {
 pub(crate) fn parse_epoch(raw: &str) -> Result<Time<UTC>, TleError> {
     let s = raw.trim();
     let trimmed = s.trim_end_matches('Z');
-    let trimmed = trimmed.split('+').next().unwrap_or(trimmed);
+    let (trimmed, offset) = trimmed.split_once('+').unwrap_or((trimmed, ""));
+    if offset.chars().any(|c| c.is_ascii_digit() && c != '0') {
+        return Err(TleError::OmmInvalidEpoch {
+            raw: raw.to_string(),
+            reason: "epoch is not in UTC",
+        });
+    }
     let dt = chrono::NaiveDateTime::parse_from_str(trimmed, "%Y-%m-%dT%H:%M:%S%.f")
         .or_else(|_| chrono::NaiveDateTime::parse_from_str(trimmed, "%Y-%m-%dT%H:%M:%S"))
         .map_err(|e| TleError::OmmInvalidEpoch {
diff --git a/src/formats/tle/omm/xml.rs b/src/formats/tle/omm/xml.rs
index 3599211..49f01a5 100644
--- a/src/formats/tle/omm/xml.rs
+++ b/src/formats/tle/omm/xml.rs
@@ -13,9 +13,9 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{format_epoch, parse_epoch, parse_norad_cat_id, Omm};
+use crate::formats::tle::Classification;
 use crate::formats::tle::TleError;
-use crate::formats::tle::{Classification, SatelliteNumber};
 
 /// Render an [`Omm`] to its XML form (`<omm>...</omm>`).
 ///
@@ -134,7 +134,7 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         .unwrap_or("U");
     let cls_char = cls_raw.chars().next().unwrap_or('U');
     let classification = Classification::from_char(cls_char)?;
-    let norad_id = SatelliteNumber::parse(get("NORAD_CAT_ID")?)?;
+    let norad_id = parse_norad_cat_id(get("NORAD_CAT_ID")?)?;
 
     Ok(Omm {
         object_name,
-- 
2.43.0


From 146395a11d179ea6634671ff2dd56e48f333d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 32/77] fix: malformed optional OMM fields were read as zero

---
 src/formats/tle/omm/kvn.rs | 31 +++++++++++--------------------
 src/formats/tle/omm/mod.rs | 20 ++++++++++++++++++++
 src/formats/tle/omm/xml.rs | 27 +++++++++++----------------
 3 files changed, 42 insertions(+), 36 deletions(-)

diff --git a/src/formats/tle/omm/kvn.rs b/src/formats/tle/omm/kvn.rs
index ee50755..4ea88e4 100644
--- a/src/formats/tle/omm/kvn.rs
+++ b/src/formats/tle/omm/kvn.rs
@@ -8,7 +8,7 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, parse_norad_cat_id, Omm};
+use super::{format_epoch, opt, parse_epoch, parse_norad_cat_id, unsigned, Omm};
 use crate::formats::tle::Classification;
 use crate::formats::tle::TleError;
 
@@ -129,13 +129,6 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
             reason: format!("{k}={v:?} is not a float"),
         })
     };
-    let getu = |k: &'static str| -> Result<u32, TleError> {
-        let v = get(k)?;
-        v.parse::<u32>().map_err(|_| TleError::OmmMalformed {
-            format: "KVN",
-            reason: format!("{k}={v:?} is not an unsigned integer"),
-        })
-    };
 
     let object_name = get("OBJECT_NAME")?.clone();
     let object_id = get("OBJECT_ID")?.clone();
@@ -160,19 +153,17 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         ra_of_asc_node: Degrees::new(getf("RA_OF_ASC_NODE")?),
         arg_of_pericenter: Degrees::new(getf("ARG_OF_PERICENTER")?),
         mean_anomaly: Degrees::new(getf("MEAN_ANOMALY")?),
-        ephemeris_type: kv
-            .get("EPHEMERIS_TYPE")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
+        ephemeris_type: opt(
+            get("EPHEMERIS_TYPE").and_then(|v| unsigned("KVN", "EPHEMERIS_TYPE", v))
+        )?,
         classification,
         norad_id,
-        element_set_no: kv
-            .get("ELEMENT_SET_NO")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        rev_at_epoch: getu("REV_AT_EPOCH").unwrap_or(0),
-        bstar: getf("BSTAR").unwrap_or(0.0),
-        mean_motion_dot: getf("MEAN_MOTION_DOT").unwrap_or(0.0),
-        mean_motion_ddot: getf("MEAN_MOTION_DDOT").unwrap_or(0.0),
+        element_set_no: opt(
+            get("ELEMENT_SET_NO").and_then(|v| unsigned("KVN", "ELEMENT_SET_NO", v))
+        )?,
+        rev_at_epoch: opt(get("REV_AT_EPOCH").and_then(|v| unsigned("KVN", "REV_AT_EPOCH", v)))?,
+        bstar: opt(getf("BSTAR"))?,
+        mean_motion_dot: opt(getf("MEAN_MOTION_DOT"))?,
+        mean_motion_ddot: opt(getf("MEAN_MOTION_DDOT"))?,
     })
 }
diff --git a/src/formats/tle/omm/mod.rs b/src/formats/tle/omm/mod.rs
index 5f097ce..8dbf2cd 100644
--- a/src/formats/tle/omm/mod.rs
+++ b/src/formats/tle/omm/mod.rs
@@ -212,6 +212,26 @@ pub(crate) fn contract_intl_designator(s: &str) -> String {
     s.to_string()
 }
 
+/// An optional field defaults when it is absent, not when it is malformed.
+pub(crate) fn opt<T: Default>(field: Result<T, TleError>) -> Result<T, TleError> {
+    match field {
+        Err(TleError::OmmMissingField(_)) => Ok(T::default()),
+        other => other,
+    }
+}
+
+/// Parse an unsigned integer field of a text OMM.
+pub(crate) fn unsigned<T: std::str::FromStr>(
+    format: &'static str,
+    key: &'static str,
+    raw: &str,
+) -> Result<T, TleError> {
+    raw.parse::<T>().map_err(|_| TleError::OmmMalformed {
+        format,
+        reason: format!("{key}={raw:?} is not an unsigned integer"),
+    })
+}
+
 /// `NORAD_CAT_ID` is a plain integer of any size; Alpha-5 text is accepted too.
 pub(crate) fn parse_norad_cat_id(raw: &str) -> Result<SatelliteNumber, TleError> {
     match raw.trim().parse::<u32>() {
diff --git a/src/formats/tle/omm/xml.rs b/src/formats/tle/omm/xml.rs
index 49f01a5..5c5674d 100644
--- a/src/formats/tle/omm/xml.rs
+++ b/src/formats/tle/omm/xml.rs
@@ -13,7 +13,7 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, parse_epoch, parse_norad_cat_id, Omm};
+use super::{format_epoch, opt, parse_epoch, parse_norad_cat_id, unsigned, Omm};
 use crate::formats::tle::Classification;
 use crate::formats::tle::TleError;
 
@@ -146,23 +146,18 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         ra_of_asc_node: Degrees::new(getf("RA_OF_ASC_NODE")?),
         arg_of_pericenter: Degrees::new(getf("ARG_OF_PERICENTER")?),
         mean_anomaly: Degrees::new(getf("MEAN_ANOMALY")?),
-        ephemeris_type: kv
-            .get("EPHEMERIS_TYPE")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
+        ephemeris_type: opt(
+            get("EPHEMERIS_TYPE").and_then(|v| unsigned("XML", "EPHEMERIS_TYPE", v))
+        )?,
         classification,
         norad_id,
-        element_set_no: kv
-            .get("ELEMENT_SET_NO")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        rev_at_epoch: kv
-            .get("REV_AT_EPOCH")
-            .and_then(|v| v.parse().ok())
-            .unwrap_or(0),
-        bstar: getf("BSTAR").unwrap_or(0.0),
-        mean_motion_dot: getf("MEAN_MOTION_DOT").unwrap_or(0.0),
-        mean_motion_ddot: getf("MEAN_MOTION_DDOT").unwrap_or(0.0),
+        element_set_no: opt(
+            get("ELEMENT_SET_NO").and_then(|v| unsigned("XML", "ELEMENT_SET_NO", v))
+        )?,
+        rev_at_epoch: opt(get("REV_AT_EPOCH").and_then(|v| unsigned("XML", "REV_AT_EPOCH", v)))?,
+        bstar: opt(getf("BSTAR"))?,
+        mean_motion_dot: opt(getf("MEAN_MOTION_DOT"))?,
+        mean_motion_ddot: opt(getf("MEAN_MOTION_DDOT"))?,
     })
 }
 
-- 
2.43.0


From 44d45132105e4d530bdaa99928684136d775cf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 33/77] fix: format_tle carries a rounded-up day fraction into
 the next date

---
 src/formats/tle/builder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/formats/tle/builder.rs b/src/formats/tle/builder.rs
index 41536b3..04188b4 100644
--- a/src/formats/tle/builder.rs
+++ b/src/formats/tle/builder.rs
@@ -396,13 +396,17 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
         .epoch
         .try_to_chrono()
         .map_err(|e| TleError::EpochConversion(format!("{e:?}")))?;
-    let year = dt.year();
-    let yy = ((year % 100) + 100) % 100;
-    let doy = dt.ordinal();
     let secs_of_day =
         dt.num_seconds_from_midnight() as f64 + dt.timestamp_subsec_nanos() as f64 * 1e-9;
-    // Keep the printed fraction inside the day it belongs to.
-    let frac_1e8 = ((secs_of_day / 86_400.0 * 1.0e8).round() as u64).min(99_999_999);
+    let mut frac_1e8 = (secs_of_day / 86_400.0 * 1.0e8).round() as u64;
+    let mut date = dt.date_naive();
+    // A fraction that rounds up to a full day belongs to the next date.
+    if frac_1e8 >= 100_000_000 {
+        frac_1e8 = 0;
+        date = date.succ_opt().unwrap_or(date);
+    }
+    let yy = date.year().rem_euclid(100);
+    let doy = date.ordinal();
     let n_dot = format_signed_decimal(tle.mean_motion_dot);
     let n_ddot = format_assumed_decimal_exponent(tle.mean_motion_ddot);
     let bstar_s = format_assumed_decimal_exponent(tle.bstar);
-- 
2.43.0


From d7c247e15d1f934667c775a273d6cc344aaca080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 34/77] fix: rotate the geopotential by the Earth rotation
 angle at UT1, not TT

---
 src/astro/dynamics/forces/geopotential.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/astro/dynamics/forces/geopotential.rs b/src/astro/dynamics/forces/geopotential.rs
index 51fef18..204be50 100644
--- a/src/astro/dynamics/forces/geopotential.rs
+++ b/src/astro/dynamics/forces/geopotential.rs
@@ -9,6 +9,7 @@ use principia::{AccelerationModel, PrincipiaError};
 use crate::astro::dynamics::context::DynamicsContext;
 use crate::astro::dynamics::errors::DynamicsError;
 use crate::astro::dynamics::state::{Acceleration, AccelerationUnit, OrbitState};
+use crate::astro::earth_rotation::jd_ut1_from_tt;
 use crate::astro::era::earth_rotation_angle;
 use crate::coordinates::centers::Geocentric;
 use crate::coordinates::frames::GCRS;
@@ -61,7 +62,7 @@ impl AccelerationModel<DynamicsContext, TT, Geocentric, GCRS> for Geopotential {
             .require_gravity_field()
             .map_err(DynamicsError::into_principia)?;
         let (pos_kernel, era_sin_cos) = if self.order > 0 {
-            let era = earth_rotation_angle(s.epoch.to::<JD>());
+            let era = earth_rotation_angle(jd_ut1_from_tt(s.epoch.to::<JD>()));
             let (sin_t, cos_t) = era.value().sin_cos();
             let x = s.position.x().value();
             let y = s.position.y().value();
-- 
2.43.0


From f005a1e870e1d4959210b5b1845d289424afe2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 35/77] fix: FixedRk4Adapter kept a step cut short for an
 output epoch, stalling event runs

---
 src/astro/dynamics/propagation/propagator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/astro/dynamics/propagation/propagator.rs b/src/astro/dynamics/propagation/propagator.rs
index 26cd4bc..bcc272d 100644
--- a/src/astro/dynamics/propagation/propagator.rs
+++ b/src/astro/dynamics/propagation/propagator.rs
@@ -93,7 +93,10 @@ where
             Second::new(h_try.value().signum() * max_h)
         };
         let new_state = rk4_step(model, state, h, ctx)?;
-        Ok((new_state, h, h, 0))
+        // Suggest the full configured sub-step next: `h_try` may have been cut
+        // short by the driver to land on an output epoch.
+        let h_next = Second::new(h_try.value().signum() * max_h);
+        Ok((new_state, h, h_next, 0))
     }
 }
 
-- 
2.43.0


From c4450001c34dde38168f312142d3f600545e9bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 36/77] fix: Gauss-Newton never converged on exact-fit data

---
 src/pod/estimation/nonlinear.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pod/estimation/nonlinear.rs b/src/pod/estimation/nonlinear.rs
index 3aa5777..b109159 100644
--- a/src/pod/estimation/nonlinear.rs
+++ b/src/pod/estimation/nonlinear.rs
@@ -41,7 +41,7 @@ pub struct NonlinearOptions {
     pub max_iter: usize,
     /// Relative-update convergence tolerance (parameter L2-norm).
     pub tol_rel: f64,
-    /// Relative-χ² convergence tolerance.
+    /// Relative convergence tolerance on reduced χ² (absolute when χ² is below 1).
     pub tol_chi2_rel: f64,
 }
 
@@ -146,8 +146,10 @@ where
             params[i] += dp;
         }
         let chi2 = result.reduced_chi2();
-        let chi2_rel = if last_chi2.is_finite() && last_chi2 > 0.0 {
-            (chi2 - last_chi2).abs() / last_chi2
+        // Reduced χ² is of order one for well-weighted data, so a floor of one
+        // keeps exact or near-exact fits (χ² → 0) from never converging.
+        let chi2_rel = if last_chi2.is_finite() {
+            (chi2 - last_chi2).abs() / last_chi2.max(1.0)
         } else {
             f64::INFINITY
         };
-- 
2.43.0


From 630a3116a4c70aec17a73be0bc035db2d157d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 37/77] fix: a rejected observation row left partial sums in
 the normal equations

---
 src/pod/estimation/wls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pod/estimation/wls.rs b/src/pod/estimation/wls.rs
index b884caa..107d629 100644
--- a/src/pod/estimation/wls.rs
+++ b/src/pod/estimation/wls.rs
@@ -122,7 +122,8 @@ impl NormalEquations {
                 "residual must be finite (got {residual})"
             )));
         }
-        let w = 1.0 / (sigma * sigma);
+        // Validate every partial before touching the accumulators, so a rejected
+        // row leaves the system unchanged.
         for &(i, hi) in partials {
             if i >= self.n {
                 return Err(WlsSolverError::InvalidIndex {
@@ -135,6 +136,9 @@ impl NormalEquations {
                     "partial at index {i} must be finite (got {hi})"
                 )));
             }
+        }
+        let w = 1.0 / (sigma * sigma);
+        for &(i, hi) in partials {
             // Accumulate into the upper triangle; symmetrise at solve time.
             self.b[(i, 0)] += w * hi * residual;
             for &(j, hj) in partials {
-- 
2.43.0


From 41f03eadba0aaab627a9d63e54b331135682f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 38/77] fix: relativistic GNSS clock term had the wrong sign
 and a 1000x too small scale

---
 src/pod/observation/gnss_obs.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pod/observation/gnss_obs.rs b/src/pod/observation/gnss_obs.rs
index 7a8807e..b424d92 100644
--- a/src/pod/observation/gnss_obs.rs
+++ b/src/pod/observation/gnss_obs.rs
@@ -16,7 +16,7 @@
 //! | T    | Saastamoinen tropospheric model (dry + wet, elevation-dependent) |
 //! | I    | Klobuchar or iono-free combination |
 //! | Sagnac | Earth-rotation correction (LEO/MEO regime) |
-//! | Rel  | Relativistic GPS clock term (−2·r·v/c) |
+//! | Rel  | Relativistic GPS clock term (+2·r·v/c, i.e. −c·Δt_r with Δt_r = −2·r·v/c²) |
 //!
 //! ### Carrier phase
 //! `L = ρ + c·(dt_r − dt_s) + T − I + λ·N + ε`
@@ -233,12 +233,18 @@ fn sagnac_km(gps_pos_km: Position<GCRS>, rx_pos_km: Position<GCRS>) -> f64 {
         / c_km_s
 }
 
-/// Relativistic GPS satellite clock correction in metres.
+/// Relativistic (eccentricity) satellite-clock contribution to the modelled
+/// range, in metres.
+///
+/// The satellite clock runs ahead by `Δt_r = −2·r·v/c²` (IS-GPS-200 §20.3.3.3.3.1)
+/// and the clock term enters the measurement as `−c·dt_s`, so the contribution
+/// is `+2·r·v/c`.
 fn relativistic_gps_clock_m(pos_km: Position<GCRS>, vel_km_s: Velocity<GCRS>) -> f64 {
     let dot = pos_km.x().value() * vel_km_s.x().value()
         + pos_km.y().value() * vel_km_s.y().value()
         + pos_km.z().value() * vel_km_s.z().value();
-    -2.0 * dot * 1_000.0 / C.value()
+    // `dot` is in km²/s and `C` in m/s.
+    2.0 * dot * 1.0e6 / C.value()
 }
 
 /// Compute geometric range (m) and receiver-to-satellite unit vector.
-- 
2.43.0


From f9f1aee4ec5db40122534542bbd688b5531b55f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 39/77] fix: malformed DAF files hung or panicked the SPK and
 CK readers

---
 src/formats/spice/ck.rs      |   3 +-
 src/formats/spice/daf.rs     | 175 +++++++++++++++++++----------------
 src/formats/spice/segment.rs |  10 +-
 src/formats/spice/spk.rs     |   2 +-
 4 files changed, 104 insertions(+), 86 deletions(-)

diff --git a/src/formats/spice/ck.rs b/src/formats/spice/ck.rs
index f2b7b22..bd7fb64 100644
--- a/src/formats/spice/ck.rs
+++ b/src/formats/spice/ck.rs
@@ -20,7 +20,7 @@
 
 use std::path::Path;
 
-use super::daf::DafRaw;
+use super::daf::{check_word_range, DafRaw};
 use super::SpiceError;
 
 /// A single CK attitude record (Type 1).
@@ -203,6 +203,7 @@ fn read_type1_segment(
             "CK segment has an invalid word range".to_string(),
         ));
     }
+    check_word_range(daf.bytes().len(), start_word, end_word)?;
     let n_records_raw = daf.read_f64_at_word(end_word);
     if !n_records_raw.is_finite() || n_records_raw < 1.0 {
         return Err(SpiceError::FormatParse(format!(
diff --git a/src/formats/spice/daf.rs b/src/formats/spice/daf.rs
index 9844e5f..91f97d9 100644
--- a/src/formats/spice/daf.rs
+++ b/src/formats/spice/daf.rs
@@ -135,7 +135,7 @@ impl Daf {
         let read_i32 = if le { read_i32_le } else { read_i32_be };
         let read_f64 = if le { read_f64_le } else { read_f64_be };
 
-        let fward = read_i32(data, 76) as usize;
+        let fward = read_i32(data, 76);
 
         if nd != 2 || ni != 6 {
             return Err(SpiceError::FormatParse(format!(
@@ -147,54 +147,28 @@ impl Daf {
         let ss = nd + ni.div_ceil(2);
 
         let mut summaries = Vec::new();
-        let mut rec = fward;
-
-        while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
-                return Err(SpiceError::FormatParse(format!(
-                    "Summary record {} extends past EOF",
-                    rec
-                )));
-            }
-
-            let next = read_f64(data, rec_offset) as i64 as usize;
-            let _prev = read_f64(data, rec_offset + 8);
-            let nsum = read_f64(data, rec_offset + 16) as usize;
-
-            for i in 0..nsum {
-                let off = rec_offset + 24 + i * ss * 8;
-                if off + ss * 8 > data.len() {
-                    return Err(SpiceError::FormatParse(format!(
-                        "Summary {} in record {} extends past EOF",
-                        i, rec
-                    )));
-                }
-
-                let start_et = read_f64(data, off);
-                let end_et = read_f64(data, off + 8);
-
-                let int_off = off + nd * 8;
-                let target_id = read_i32(data, int_off);
-                let center_id = read_i32(data, int_off + 4);
-                let frame_id = read_i32(data, int_off + 8);
-                let data_type = read_i32(data, int_off + 12);
-                let start_word = read_i32(data, int_off + 16) as usize;
-                let end_word = read_i32(data, int_off + 20) as usize;
-
-                summaries.push(Summary {
-                    start_et,
-                    end_et,
-                    target_id,
-                    center_id,
-                    frame_id,
-                    data_type,
-                    start_word,
-                    end_word,
-                });
-            }
-
-            rec = next;
+        for off in summary_offsets(data, fward, ss, read_f64)? {
+            let start_et = read_f64(data, off);
+            let end_et = read_f64(data, off + 8);
+
+            let int_off = off + nd * 8;
+            let target_id = read_i32(data, int_off);
+            let center_id = read_i32(data, int_off + 4);
+            let frame_id = read_i32(data, int_off + 8);
+            let data_type = read_i32(data, int_off + 12);
+            let start_word = read_i32(data, int_off + 16) as usize;
+            let end_word = read_i32(data, int_off + 20) as usize;
+
+            summaries.push(Summary {
+                start_et,
+                end_et,
+                target_id,
+                center_id,
+                frame_id,
+                data_type,
+                start_word,
+                end_word,
+            });
         }
 
         Ok(Daf { nd, ni, summaries })
@@ -249,43 +223,21 @@ impl DafRaw {
 
         let read_i32 = if le { read_i32_le } else { read_i32_be };
         let read_f64 = if le { read_f64_le } else { read_f64_be };
-        let fward = read_i32(&data, 76) as usize;
+        let fward = read_i32(&data, 76);
         let ss = nd + ni.div_ceil(2);
 
         let mut raw_summaries = Vec::new();
-        let mut rec = fward;
-        while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
-                return Err(SpiceError::FormatParse(format!(
-                    "Summary record {} extends past EOF",
-                    rec
-                )));
+        for off in summary_offsets(&data, fward, ss, read_f64)? {
+            let mut doubles = Vec::with_capacity(nd);
+            for j in 0..nd {
+                doubles.push(read_f64(&data, off + j * 8));
             }
-
-            let next = read_f64(&data, rec_offset) as i64 as usize;
-            let nsum = read_f64(&data, rec_offset + 16) as usize;
-            for i in 0..nsum {
-                let off = rec_offset + 24 + i * ss * 8;
-                if off + ss * 8 > data.len() {
-                    return Err(SpiceError::FormatParse(format!(
-                        "Summary {} in record {} extends past EOF",
-                        i, rec
-                    )));
-                }
-
-                let mut doubles = Vec::with_capacity(nd);
-                for j in 0..nd {
-                    doubles.push(read_f64(&data, off + j * 8));
-                }
-                let int_off = off + nd * 8;
-                let mut integers = Vec::with_capacity(ni);
-                for j in 0..ni {
-                    integers.push(read_i32(&data, int_off + j * 4));
-                }
-                raw_summaries.push(RawSummary { doubles, integers });
+            let int_off = off + nd * 8;
+            let mut integers = Vec::with_capacity(ni);
+            for j in 0..ni {
+                integers.push(read_i32(&data, int_off + j * 4));
             }
-            rec = next;
+            raw_summaries.push(RawSummary { doubles, integers });
         }
 
         Ok(Self {
@@ -314,6 +266,67 @@ impl DafRaw {
     }
 }
 
+/// Check that the 1-based data words `start..=end` all lie in a file of
+/// `file_bytes` bytes.
+pub(super) fn check_word_range(
+    file_bytes: usize,
+    start: usize,
+    end: usize,
+) -> Result<(), SpiceError> {
+    let words = file_bytes / 8;
+    if start == 0 || end < start || end > words {
+        return Err(SpiceError::FormatParse(format!(
+            "segment words [{start}..{end}] lie outside the file ({words} words)"
+        )));
+    }
+    Ok(())
+}
+
+/// Byte offsets of every summary in the chain of summary records that starts
+/// at record `fward` (1-based, `0` for an empty file).
+///
+/// `ss` is the summary size in 8-byte words.
+fn summary_offsets(
+    data: &[u8],
+    fward: i32,
+    ss: usize,
+    read_f64: fn(&[u8], usize) -> f64,
+) -> Result<Vec<usize>, SpiceError> {
+    let file_records = data.len() / 1024;
+    let mut offsets = Vec::new();
+    let mut visited = 0_usize;
+    let mut rec = f64::from(fward);
+
+    while rec != 0.0 {
+        if !(rec > 0.0 && rec.fract() == 0.0 && rec <= file_records as f64) {
+            return Err(SpiceError::FormatParse(format!(
+                "Summary record {rec} extends past EOF"
+            )));
+        }
+        visited += 1;
+        if visited > file_records {
+            return Err(SpiceError::FormatParse(format!(
+                "Summary record chain revisits record {rec}"
+            )));
+        }
+
+        let rec_offset = (rec as usize - 1) * 1024;
+        let next = read_f64(data, rec_offset);
+        let nsum = read_f64(data, rec_offset + 16);
+        // A 1024-byte record holds three control words and whole summaries only.
+        let capacity = (1024 - 24) / (ss * 8);
+        if !(nsum >= 0.0 && nsum.fract() == 0.0 && nsum <= capacity as f64) {
+            return Err(SpiceError::FormatParse(format!(
+                "Summary record {rec} claims {nsum} summaries (at most {capacity} fit)"
+            )));
+        }
+        offsets.extend((0..nsum as usize).map(|i| rec_offset + 24 + i * ss * 8));
+        rec = next;
+    }
+
+    Ok(offsets)
+}
+
 /// Whether the file record holds big-endian `ND`/`NI`, by the same rule the
 /// parsers use. Data without a DAF file record is taken as little-endian.
 #[inline]
diff --git a/src/formats/spice/segment.rs b/src/formats/spice/segment.rs
index 0a2fb55..18211a7 100644
--- a/src/formats/spice/segment.rs
+++ b/src/formats/spice/segment.rs
@@ -46,7 +46,7 @@
 //! Velocity for Type 2 is `dPos/dtau / RADIUS` (in km/s).
 
 use super::error::SpiceError;
-use crate::formats::spice::daf::{Daf, Summary};
+use crate::formats::spice::daf::{check_word_range, Daf, Summary};
 
 /// A typed SPK segment.
 #[derive(Debug, Clone)]
@@ -413,6 +413,7 @@ fn read_chebyshev(
             message: format!("segment trailer at end_word={end} is too small"),
         });
     }
+    check_word_range(file_data.len(), summary.start_word, end)?;
     let n_records = daf.read_f64_at_word(file_data, end) as usize;
     let rsize = daf.read_f64_at_word(file_data, end - 1) as usize;
     let intlen = daf.read_f64_at_word(file_data, end - 2);
@@ -501,6 +502,7 @@ fn read_discrete_states(
             message: format!("SPK Type {data_type} segment too short: {n_words} words"),
         });
     }
+    check_word_range(file_data.len(), summary.start_word, summary.end_word)?;
     let mut words = Vec::with_capacity(n_words);
     for i in 0..n_words {
         words.push(daf.read_f64_at_word(file_data, summary.start_word + i));
@@ -520,8 +522,10 @@ fn read_discrete_states(
             ),
         });
     }
-    let n_records = n_records_f as usize;
-    let descriptor = descriptor_f as usize;
+    // Each record takes seven words, and no usable descriptor exceeds the word
+    // count either, so clamping keeps the arithmetic below from overflowing.
+    let n_records = (n_records_f as usize).min(n_words);
+    let descriptor = (descriptor_f as usize).min(n_words);
     let state_len = n_records.checked_mul(6).ok_or_else(|| SpiceError::Parse {
         message: format!("SPK Type {data_type} state count overflow: {n_records}"),
     })?;
diff --git a/src/formats/spice/spk.rs b/src/formats/spice/spk.rs
index 813f5ab..b62fc4d 100644
--- a/src/formats/spice/spk.rs
+++ b/src/formats/spice/spk.rs
@@ -128,7 +128,7 @@ pub fn read_segment(
             summary.end_word, summary.start_word
         )));
     }
-    if summary.end_word < summary.start_word + 3 {
+    if summary.end_word - summary.start_word < 3 {
         return Err(SpiceError::FormatParse(format!(
             "SPK summary span too small for trailer (start={}, end={})",
             summary.start_word, summary.end_word
-- 
2.43.0


From 45d7974c8da0c567cd5beddf64425a281e6d1aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 40/77] fix: RINEX and SP3 readers misread fixed-width fields,
 impossible seconds and non-ASCII lines

---
 src/formats/igs/sp3.rs   | 20 ++++------
 src/formats/mod.rs       | 33 ++++++++++++++++
 src/formats/rinex/nav.rs | 81 ++++++++++++++++++++++++++--------------
 src/formats/rinex/obs.rs | 38 +++++++++----------
 4 files changed, 111 insertions(+), 61 deletions(-)

diff --git a/src/formats/igs/sp3.rs b/src/formats/igs/sp3.rs
index 0755375..9a6a23c 100644
--- a/src/formats/igs/sp3.rs
+++ b/src/formats/igs/sp3.rs
@@ -28,10 +28,10 @@
 //!   Specification.
 //! - Montenbruck, O., Steigenberger, P., & Khachikyan, R. (2017). GNSS
 //!   satellite geometry and ephemeris products. GPS Solutions, 21, 101-111.
+use crate::formats::civil_to_utc;
 use affn::cartesian;
 use affn::centers::{AffineCenter, ReferenceCenter};
 use affn::frames::GCRS;
-use chrono::{DateTime, NaiveDate, Utc as ChronoUtc};
 use qtty::time::Microseconds;
 use qtty::unit::Kilometer;
 
@@ -116,18 +116,9 @@ fn civil_to_time_utc(
     second: f64,
     line: usize,
 ) -> Result<Time<UTC>, Sp3Error> {
-    let second_int = second as u32;
-    let nanos = ((second - second_int as f64) * 1e9).round() as u32;
-    let naive = NaiveDate::from_ymd_opt(year, month, day)
-        .and_then(|d| d.and_hms_nano_opt(hour, minute, second_int, nanos))
-        .ok_or_else(|| Sp3Error::Record {
-            line,
-            message: "invalid epoch date/time".into(),
-        })?;
-    let dt: DateTime<ChronoUtc> = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
-    Time::<UTC>::try_from_chrono(dt).map_err(|e| Sp3Error::Record {
+    civil_to_utc(year, month, day, hour, minute, second).ok_or_else(|| Sp3Error::Record {
         line,
-        message: format!("epoch UTC conversion: {e}"),
+        message: "invalid epoch date/time".into(),
     })
 }
 
@@ -263,7 +254,10 @@ pub fn write_sp3<W: Write>(w: &mut W, rec: &Sp3Record) -> Result<(), Sp3Error> {
             line: 0,
             message: format!("epoch to chrono: {err}"),
         })?;
-        let second = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
+        // Round to the printed 10 ns here, so that 59.999 999 995 s carries into
+        // the next minute instead of being printed as 60 s.
+        let dt = dt + chrono::Duration::nanoseconds(5);
+        let second = dt.second() as f64 + (dt.nanosecond() / 10) as f64 / 1e8;
         writeln!(
             w,
             "*  {:4} {:>2} {:>2} {:>2} {:>2} {:11.8}",
diff --git a/src/formats/mod.rs b/src/formats/mod.rs
index 4e4e1b4..1de8139 100644
--- a/src/formats/mod.rs
+++ b/src/formats/mod.rs
@@ -37,3 +37,36 @@ pub mod tle;
 pub mod vlbi;
 
 pub use error::{FileLocation, FormatError, ParseMode};
+
+/// UTC instant of a civil date with a decimal second of the minute.
+///
+/// Returns `None` for an impossible date or time of day, a non-finite second
+/// included. The second is rounded to the nanosecond, carrying into the next
+/// minute where it has to.
+pub(crate) fn civil_to_utc(
+    year: i32,
+    month: u32,
+    day: u32,
+    hour: u32,
+    minute: u32,
+    second: f64,
+) -> Option<tempoch::Time<tempoch::UTC>> {
+    if !(0.0..60.0).contains(&second) {
+        return None;
+    }
+    let minute_start =
+        chrono::NaiveDate::from_ymd_opt(year, month, day)?.and_hms_opt(hour, minute, 0)?;
+    let nanos = chrono::Duration::nanoseconds((second * 1e9).round() as i64);
+    let naive = minute_start.checked_add_signed(nanos)?;
+    let instant = chrono::DateTime::from_naive_utc_and_offset(naive, chrono::Utc);
+    tempoch::Time::<tempoch::UTC>::try_from_chrono(instant).ok()
+}
+
+/// Longest prefix of `text` that takes at most `max` bytes.
+pub(crate) fn byte_prefix(text: &str, max: usize) -> &str {
+    let mut end = text.len().min(max);
+    while !text.is_char_boundary(end) {
+        end -= 1;
+    }
+    &text[..end]
+}
diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index 9411b30..f2b447c 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -28,6 +28,7 @@
 //! - IS-GPS-200. (current revision). Navstar GPS Space Segment / Navigation
 //!   User Interfaces.
 use super::{FileLocation, FormatError, ParseMode};
+use crate::formats::{byte_prefix, civil_to_utc};
 use chrono::{DateTime, Datelike, NaiveDate, Timelike, Utc as ChronoUtc};
 use qtty::angular::Radians;
 use qtty::angular_rate::AngularRate;
@@ -246,11 +247,12 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         }
 
         // ── PRN ────────────────────────────────────────────────────────────
-        let prn_result = if l0.starts_with('G') {
-            l0[1..3].trim().parse::<u8>()
-        } else {
-            l0[..3].trim().parse::<u8>()
-        };
+        let (prn_field, rest) = l0.split_at_checked(3).unwrap_or(("", ""));
+        let prn_result = prn_field
+            .strip_prefix('G')
+            .unwrap_or(prn_field)
+            .trim()
+            .parse::<u8>();
         let prn = match prn_result {
             Ok(p) if p > 0 => p,
             Ok(_) | Err(_) => {
@@ -258,7 +260,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
                     return Err(FormatError::located(
                         "RINEX 3.05 §6.3",
                         FileLocation::at_line(line_no_1),
-                        format!("invalid GPS PRN: {:?}", &l0[..l0.len().min(3)]),
+                        format!("invalid GPS PRN: {:?}", byte_prefix(l0, 3)),
                     ));
                 }
                 i += 8;
@@ -267,8 +269,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         };
 
         // ── TOC + clock terms ──────────────────────────────────────────────
-        let rest = &l0[3..];
-        let toc_tokens: Vec<&str> = rest.split_whitespace().collect();
+        let toc_tokens = numeric_fields(rest);
         let header_result = (|| -> Result<(Time<UTC>, f64, f64, f64), FormatError> {
             if toc_tokens.len() < 9 {
                 return Err(FormatError::located(
@@ -280,8 +281,8 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
                     ),
                 ));
             }
-            let parse_int = |s: &str, field: &str| -> Result<i64, FormatError> {
-                s.parse::<i64>().map_err(|_| {
+            let parse_int = |s: &str, field: &str| -> Result<u32, FormatError> {
+                s.parse::<u32>().map_err(|_| {
                     FormatError::located(
                         "RINEX 3.05 §6.3",
                         FileLocation::at_line(line_no_1),
@@ -295,14 +296,9 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
             let h = parse_int(toc_tokens[3], "hour")?;
             let mi = parse_int(toc_tokens[4], "minute")?;
             let sec_f = parse_d(toc_tokens[5], line_no_1, "second")?;
-            let sec_i = sec_f as u64;
-            let nanos = ((sec_f - sec_i as f64) * 1e9).round() as u32;
-            let toc = NaiveDate::from_ymd_opt(y as i32, mo as u32, d as u32)
-                .and_then(|nd| nd.and_hms_nano_opt(h as u32, mi as u32, sec_i as u32, nanos))
-                .and_then(|naive| {
-                    let dt = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
-                    Time::<UTC>::try_from_chrono(dt).ok()
-                })
+            let toc = i32::try_from(y)
+                .ok()
+                .and_then(|y| civil_to_utc(y, mo, d, h, mi, sec_f))
                 .ok_or_else(|| {
                     FormatError::located(
                         "RINEX 3.05 §6.3",
@@ -333,7 +329,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         let parse_body = |idx: usize, expected: usize| -> Result<Vec<f64>, FormatError> {
             let (ln, text) = collected[i + idx];
             let vals = collect_floats(text, ln + 1)?;
-            if vals.len() < expected && mode == ParseMode::Strict {
+            if vals.len() < expected {
                 return Err(FormatError::located(
                     "RINEX 3.05 §6.5",
                     FileLocation::at_line(ln + 1),
@@ -445,19 +441,44 @@ fn parse_d(s: &str, line: usize, field: &str) -> Result<f64, FormatError> {
 }
 
 fn collect_floats(line: &str, line_no: usize) -> Result<Vec<f64>, FormatError> {
-    line.split_whitespace()
+    numeric_fields(line)
+        .into_iter()
         .map(|s| parse_d(s, line_no, "body"))
         .collect()
 }
 
-/// Format an `f64` in Fortran D-notation (e.g. `1.234567890123456E+02` →
-/// `1.234567890123456D+02`), as used by RINEX NAV body lines.
+/// Split a line into its numeric fields.
+///
+/// Fixed-width `D19.12` fields touch when the second one is negative
+/// (`…D-04-1.5…`), so a sign starts a new field unless it belongs to an
+/// exponent.
+fn numeric_fields(line: &str) -> Vec<&str> {
+    let mut fields = Vec::new();
+    for token in line.split_whitespace() {
+        let bytes = token.as_bytes();
+        let mut start = 0;
+        for i in 1..bytes.len() {
+            let exponent = matches!(bytes[i - 1], b'D' | b'd' | b'E' | b'e');
+            if matches!(bytes[i], b'-' | b'+') && !exponent {
+                fields.push(&token[start..i]);
+                start = i;
+            }
+        }
+        fields.push(&token[start..]);
+    }
+    fields
+}
+
+/// Format an `f64` as a Fortran `D19.12` field (e.g. `1.234567890123D+02`),
+/// as used by RINEX NAV body lines.
 fn fmt_d(v: f64) -> String {
     if !v.is_finite() {
         return format!("{:>19}", "0.000000000000000D+00");
     }
-    let s = format!("{:19.12E}", v);
-    s.replace('E', "D")
+    let s = format!("{v:.12E}");
+    let (mantissa, exponent) = s.split_once('E').unwrap_or((&s, "0"));
+    let exponent: i32 = exponent.parse().unwrap_or(0);
+    format!("{:>19}", format!("{mantissa}D{exponent:+03}"))
 }
 
 /// Write a RINEX 3.04 NAV file matching the layout consumed by
@@ -468,8 +489,9 @@ fn fmt_d(v: f64) -> String {
 /// output uses fixed-width Fortran D-notation in the standard
 /// `19.12D` field width.
 ///
-/// Round-trip parity is exact at 1e-15 relative for every numeric field
-/// under [`parse_rinex_nav`].
+/// Numeric fields keep the 13 significant digits of the `D19.12` layout, and
+/// the time of clock its whole seconds, when read back with
+/// [`parse_rinex_nav`].
 ///
 /// # Errors
 ///
@@ -500,7 +522,7 @@ fn fmt_d(v: f64) -> String {
 /// ```
 pub fn write_rinex_nav<W: Write>(w: &mut W, file: &RinexNavFile) -> Result<(), FormatError> {
     fn header_line(w: &mut impl Write, body: &str, label: &str) -> std::io::Result<()> {
-        let body = if body.len() > 60 { &body[..60] } else { body };
+        let body = byte_prefix(body, 60);
         writeln!(w, "{:<60}{}", body, label)
     }
     header_line(
@@ -515,7 +537,8 @@ pub fn write_rinex_nav<W: Write>(w: &mut W, file: &RinexNavFile) -> Result<(), F
             .toc
             .try_to_chrono()
             .map_err(|e| FormatError::Format(format!("rinex_nav: TOC to chrono failed: {e}")))?;
-        let sec = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
+        // TOC is printed to the nearest whole second.
+        let dt = dt + chrono::Duration::milliseconds(500);
         // Line 0: PRN + TOC + 3 clock terms.
         writeln!(
             w,
@@ -526,7 +549,7 @@ pub fn write_rinex_nav<W: Write>(w: &mut W, file: &RinexNavFile) -> Result<(), F
             dt.day(),
             dt.hour(),
             dt.minute(),
-            sec as u32,
+            dt.second(),
             fmt_d(r.af0.value()),
             fmt_d(r.af1),
             fmt_d(r.af2),
diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index c4206ff..4ca509c 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -30,7 +30,8 @@
 //! - Misra, P., & Enge, P. (2012). Global Positioning System: Signals,
 //!   Measurements, and Performance (2nd ed.). Ganga-Jamuna Press.
 use super::FormatError;
-use chrono::{DateTime, Datelike, NaiveDate, Timelike, Utc as ChronoUtc};
+use crate::formats::{byte_prefix, civil_to_utc};
+use chrono::{Datelike, Timelike};
 use qtty::length::Meters;
 use qtty::time::Seconds;
 use std::collections::HashMap;
@@ -110,8 +111,13 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 if !sys.is_ascii_alphabetic() {
                     continue;
                 }
-                let count: usize = body[1..6].trim().parse().unwrap_or(0);
-                let mut types: Vec<String> = body[7..]
+                let count: usize = body
+                    .get(1..6)
+                    .and_then(|count| count.trim().parse().ok())
+                    .unwrap_or(0);
+                let mut types: Vec<String> = body
+                    .get(7..)
+                    .unwrap_or("")
                     .split_whitespace()
                     .map(|s| s.to_string())
                     .collect();
@@ -152,16 +158,8 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
         let hour: u32 = parts[4].parse().unwrap_or(0);
         let minute: u32 = parts[5].parse().unwrap_or(0);
         let second_f: f64 = parts[6].parse().unwrap_or(0.0);
-        let second_int = second_f as u32;
-        let nanos = ((second_f - second_int as f64) * 1e9).round() as u32;
-        let naive = NaiveDate::from_ymd_opt(year, month, day)
-            .and_then(|d| d.and_hms_nano_opt(hour, minute, second_int, nanos))
+        let epoch_time = civil_to_utc(year, month, day, hour, minute, second_f)
             .ok_or_else(|| FormatError::Format("rinex_obs: invalid epoch date".into()))?;
-        let epoch_time =
-            Time::<UTC>::try_from_chrono(DateTime::from_naive_utc_and_offset(naive, ChronoUtc))
-                .map_err(|e| {
-                    FormatError::Format(format!("rinex_obs: epoch UTC conversion: {e}"))
-                })?;
         let n_sat: usize = parts[8].parse().unwrap_or(0);
 
         let mut sats = HashMap::new();
@@ -171,10 +169,10 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
                 break;
             }
             let row = line.trim_end();
-            if row.len() < 3 {
+            let Some((sat, payload)) = row.split_at_checked(3) else {
                 continue;
-            }
-            let sat = row[..3].to_string();
+            };
+            let sat = sat.to_string();
             let sys = sat.chars().next().unwrap_or(' ');
             let types = match obs_types.get(&sys) {
                 Some(t) => t.clone(),
@@ -183,14 +181,13 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
             let mut vals: HashMap<String, f64> = HashMap::new();
             // RINEX 3: each observable occupies 16 columns (F14.3 + 2 status
             // chars). We slice that and parse loosely.
-            let payload = &row[3..];
             for (i, ty) in types.iter().enumerate() {
                 let start = i * 16;
                 if start >= payload.len() {
                     break;
                 }
                 let end = (start + 14).min(payload.len());
-                let raw = payload[start..end].trim();
+                let raw = payload.get(start..end).unwrap_or("").trim();
                 if raw.is_empty() {
                     continue;
                 }
@@ -258,7 +255,7 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
 /// ```
 pub fn write_rinex_obs<W: Write>(w: &mut W, obs: &RinexObs) -> Result<(), FormatError> {
     fn header_line(w: &mut impl Write, body: &str, label: &str) -> std::io::Result<()> {
-        let body = if body.len() > 60 { &body[..60] } else { body };
+        let body = byte_prefix(body, 60);
         writeln!(w, "{:<60}{}", body, label)
     }
     header_line(
@@ -302,7 +299,10 @@ pub fn write_rinex_obs<W: Write>(w: &mut W, obs: &RinexObs) -> Result<(), Format
             .time
             .try_to_chrono()
             .map_err(|e| FormatError::Format(format!("rinex_obs: epoch to chrono failed: {e}")))?;
-        let second = dt.second() as f64 + dt.nanosecond() as f64 / 1e9;
+        // Round to the printed 100 ns here, so that 59.999 999 95 s carries into
+        // the next minute instead of being printed as 60 s.
+        let dt = dt + chrono::Duration::nanoseconds(50);
+        let second = dt.second() as f64 + (dt.nanosecond() / 100) as f64 / 1e7;
         writeln!(
             w,
             "> {:4} {:02} {:02} {:02} {:02} {:10.7}  0 {:>2}",
-- 
2.43.0


From 15fc3499dbfc8a879b41a2d7d295439aa445927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 41/77] fix: OEM readers dropped states and text and accepted
 impossible epochs

---
 src/formats/ccsds/oem.rs | 140 ++++++++++++++++++++++++---------------
 1 file changed, 87 insertions(+), 53 deletions(-)

diff --git a/src/formats/ccsds/oem.rs b/src/formats/ccsds/oem.rs
index d5aa861..af388f7 100644
--- a/src/formats/ccsds/oem.rs
+++ b/src/formats/ccsds/oem.rs
@@ -126,8 +126,15 @@ pub fn write_oem<W: Write>(
 /// Conversion is "calendar date in proleptic Gregorian, fractional seconds";
 /// no leap-second handling — the caller is responsible for the time system.
 fn jd_to_iso8601(jd: f64) -> String {
-    let jd_int = (jd + 0.5).floor() as i64;
-    let frac = jd + 0.5 - jd_int as f64;
+    const MICROS_PER_DAY: i64 = 86_400_000_000;
+    let mut jd_int = (jd + 0.5).floor() as i64;
+    // Round to the printed microsecond first, so that the last instant of a
+    // minute or of a day carries instead of being printed as 60 s.
+    let mut micros = ((jd + 0.5 - jd_int as f64) * MICROS_PER_DAY as f64).round() as i64;
+    if micros >= MICROS_PER_DAY {
+        jd_int += 1;
+        micros -= MICROS_PER_DAY;
+    }
 
     let a = jd_int + 32_044;
     let b = (4 * a + 3) / 146_097;
@@ -139,10 +146,9 @@ fn jd_to_iso8601(jd: f64) -> String {
     let month = (m + 3 - 12 * (m / 10)) as u32;
     let year = (100 * b + d - 4_800 + (m / 10)) as i32;
 
-    let total_seconds = frac * 86_400.0;
-    let hours = (total_seconds / 3600.0).floor() as u32 % 24;
-    let mins = ((total_seconds % 3600.0) / 60.0).floor() as u32;
-    let secs = total_seconds % 60.0;
+    let hours = micros / 3_600_000_000;
+    let mins = micros / 60_000_000 % 60;
+    let secs = (micros % 60_000_000) as f64 / 1e6;
 
     format!(
         "{:04}-{:02}-{:02}T{:02}:{:02}:{:09.6}",
@@ -218,7 +224,8 @@ pub fn read_oem<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError> {
         Header,
         Meta(MetaBuilder),
         Data(OemSegment),
-        SkipBlock,
+        /// Inside a covariance or maneuver block of the segment being read.
+        SkipBlock(OemSegment),
     }
 
     #[derive(Default)]
@@ -304,31 +311,27 @@ pub fn read_oem<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError> {
                     continue;
                 }
                 if line == "COVARIANCE_START" || line == "MAN_START" {
-                    state = State::SkipBlock;
+                    let open = OemSegment {
+                        metadata: seg.metadata.clone(),
+                        states: std::mem::take(&mut seg.states),
+                    };
+                    state = State::SkipBlock(open);
                     continue;
                 }
                 seg.states.push(parse_data_line(line, lineno)?);
             }
-            State::SkipBlock => {
+            State::SkipBlock(open) => {
                 if line == "COVARIANCE_STOP" || line == "MAN_STOP" {
-                    // Re-enter the most recent Data segment.
-                    if let Some(last) = segments.last_mut() {
-                        let resumed = std::mem::replace(
-                            last,
-                            OemSegment {
-                                metadata: last.metadata.clone(),
-                                states: Vec::new(),
-                            },
-                        );
-                        state = State::Data(resumed);
-                    } else {
-                        state = State::Header;
-                    }
+                    let resumed = OemSegment {
+                        metadata: open.metadata.clone(),
+                        states: std::mem::take(&mut open.states),
+                    };
+                    state = State::Data(resumed);
                 }
             }
         }
     }
-    if let State::Data(seg) = state {
+    if let State::Data(seg) | State::SkipBlock(seg) = state {
         segments.push(seg);
     }
     if segments.is_empty() {
@@ -406,6 +409,14 @@ fn iso8601_to_jd(s: &str) -> Option<f64> {
     let hour: u32 = time_parts.next()?.parse().ok()?;
     let minute: u32 = time_parts.next()?.parse().ok()?;
     let second: f64 = time_parts.next()?.parse().ok()?;
+    // Second 60 is a leap second in the UTC time system.
+    if chrono::NaiveDate::from_ymd_opt(year, month, day).is_none()
+        || hour > 23
+        || minute > 59
+        || !(0.0..61.0).contains(&second)
+    {
+        return None;
+    }
 
     // Proleptic Gregorian calendar → JDN at 0h UT.
     let m = month as i64;
@@ -566,7 +577,7 @@ fn xml_escape(s: &str) -> String {
 /// assert_eq!(parsed.segments[0].states.len(), 1);
 /// ```
 pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError> {
-    use quick_xml::escape::unescape;
+    use quick_xml::escape::resolve_xml_entity;
     use quick_xml::events::Event;
     use quick_xml::Reader;
 
@@ -574,7 +585,8 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
     r.read_to_string(&mut text)
         .map_err(|e| FormatError::Format(format!("read_oem_xml: io: {e}")))?;
     let mut rdr = Reader::from_str(&text);
-    rdr.config_mut().trim_text(true);
+
+    let finite = |txt: &str| txt.parse::<f64>().ok().filter(|v| v.is_finite());
 
     #[derive(Default)]
     struct StateBuilder {
@@ -603,6 +615,9 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
     let mut segments: Vec<OemSegment> = Vec::new();
     let mut seg: Option<SegBuilder> = None;
     let mut cur_tag: Option<String> = None;
+    // Character data of the open element. It arrives in pieces: entity
+    // references and CDATA sections are events of their own.
+    let mut cur_text = String::new();
     let mut buf = Vec::new();
 
     loop {
@@ -631,6 +646,7 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
                     _ => {}
                 }
                 cur_tag = Some(local);
+                cur_text.clear();
             }
             Event::End(e) => {
                 let name = String::from_utf8_lossy(e.name().as_ref()).to_string();
@@ -684,49 +700,67 @@ pub fn read_oem_xml<R: std::io::Read>(mut r: R) -> Result<OemFile, FormatError>
                     }
                     _ => {}
                 }
-                cur_tag = None;
-            }
-            Event::Text(t) => {
-                let txt =
-                    unescape(&t.xml10_content().map_err(|e| {
-                        FormatError::Format(format!("read_oem_xml: xml text: {e}"))
-                    })?)
-                    .map_err(|e| FormatError::Format(format!("read_oem_xml: xml text: {e}")))?
-                    .to_string();
-                let tag = match &cur_tag {
-                    Some(t) => t.as_str(),
+                let text = std::mem::take(&mut cur_text);
+                let txt = text.trim();
+                let tag = match cur_tag.take() {
+                    Some(tag) => tag,
                     None => continue,
                 };
                 if let Some(s) = seg.as_mut() {
                     if let Some(b) = s.cur.as_mut() {
-                        match tag {
-                            "EPOCH" => b.epoch = iso8601_to_jd(&txt),
-                            "X" => b.x = txt.parse().ok(),
-                            "Y" => b.y = txt.parse().ok(),
-                            "Z" => b.z = txt.parse().ok(),
-                            "X_DOT" => b.vx = txt.parse().ok(),
-                            "Y_DOT" => b.vy = txt.parse().ok(),
-                            "Z_DOT" => b.vz = txt.parse().ok(),
+                        match tag.as_str() {
+                            "EPOCH" => b.epoch = iso8601_to_jd(txt),
+                            "X" => b.x = finite(txt),
+                            "Y" => b.y = finite(txt),
+                            "Z" => b.z = finite(txt),
+                            "X_DOT" => b.vx = finite(txt),
+                            "Y_DOT" => b.vy = finite(txt),
+                            "Z_DOT" => b.vz = finite(txt),
                             _ => {}
                         }
                     } else {
-                        match tag {
-                            "OBJECT_ID" => s.object_id = Some(txt),
-                            "OBJECT_NAME" => s.object_name = Some(txt),
-                            "REF_FRAME" => s.ref_frame = Some(txt),
-                            "TIME_SYSTEM" => s.time_system = Some(txt),
-                            "CENTER_NAME" => s.center_name = Some(txt),
+                        match tag.as_str() {
+                            "OBJECT_ID" => s.object_id = Some(txt.into()),
+                            "OBJECT_NAME" => s.object_name = Some(txt.into()),
+                            "REF_FRAME" => s.ref_frame = Some(txt.into()),
+                            "TIME_SYSTEM" => s.time_system = Some(txt.into()),
+                            "CENTER_NAME" => s.center_name = Some(txt.into()),
                             _ => {}
                         }
                     }
                 } else {
-                    match tag {
-                        "CREATION_DATE" => creation_date = txt,
-                        "ORIGINATOR" => originator = txt,
+                    match tag.as_str() {
+                        "CREATION_DATE" => creation_date = txt.into(),
+                        "ORIGINATOR" => originator = txt.into(),
                         _ => {}
                     }
                 }
             }
+            Event::Text(t) => {
+                cur_text
+                    .push_str(&t.xml10_content().map_err(|e| {
+                        FormatError::Format(format!("read_oem_xml: xml text: {e}"))
+                    })?);
+            }
+            Event::CData(t) => {
+                cur_text
+                    .push_str(&t.xml10_content().map_err(|e| {
+                        FormatError::Format(format!("read_oem_xml: xml text: {e}"))
+                    })?);
+            }
+            Event::GeneralRef(r) => {
+                let bad = |detail: String| {
+                    FormatError::Format(format!("read_oem_xml: xml reference: {detail}"))
+                };
+                if let Some(c) = r.resolve_char_ref().map_err(|e| bad(e.to_string()))? {
+                    cur_text.push(c);
+                } else {
+                    let name = r.decode().map_err(|e| bad(e.to_string()))?;
+                    let value = resolve_xml_entity(&name)
+                        .ok_or_else(|| bad(format!("unknown entity &{name};")))?;
+                    cur_text.push_str(value);
+                }
+            }
             _ => {}
         }
         buf.clear();
-- 
2.43.0


From ea082fa64a497d0a02aa44a42374aba5923e972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 42/77] fix: ANTEX, ORBEX, SINEX and EOP readers panicked,
 mixed solutions or invented values

---
 src/formats/iers/eop.rs  |  27 +++++++---
 src/formats/igs/antex.rs |   3 +-
 src/formats/igs/orbex.rs | 104 +++++++++++++++++++++++++--------------
 src/formats/igs/sinex.rs |  45 +++++++++--------
 4 files changed, 114 insertions(+), 65 deletions(-)

diff --git a/src/formats/iers/eop.rs b/src/formats/iers/eop.rs
index 37e4b8e..b1e1798 100644
--- a/src/formats/iers/eop.rs
+++ b/src/formats/iers/eop.rs
@@ -93,12 +93,17 @@ pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
             Ok(m) => m,
             Err(_) => continue,
         };
-        let x = parts[4].parse().unwrap_or(0.0);
-        let y = parts[5].parse().unwrap_or(0.0);
-        let ut1 = parts[6].parse().unwrap_or(0.0);
-        let lod = parts[7].parse().unwrap_or(0.0);
-        let dpsi = parts[8].parse().unwrap_or(0.0);
-        let deps = parts[9].parse().unwrap_or(0.0);
+        let field = |index: usize| -> Result<f64, FormatError> {
+            parts[index]
+                .parse()
+                .map_err(|_| FormatError::Format(format!("eop_c04: invalid value in row: {line}")))
+        };
+        let x = field(4)?;
+        let y = field(5)?;
+        let ut1 = field(6)?;
+        let lod = field(7)?;
+        let dpsi = field(8)?;
+        let deps = field(9)?;
         out.push(EopRecord {
             mjd,
             eop: EopValues {
@@ -145,12 +150,20 @@ pub fn interpolate(records: &[EopRecord], mjd: ModifiedJulianDate<UTC>) -> Optio
     let b_val = b.mjd.raw().value();
     let t_val = mjd.raw().value();
     let f = (t_val - a_val) / (b_val - a_val);
+    // UT1 drifts by milliseconds per day, so a step of this size is a leap
+    // second introduced at the later record; UT1 itself does not jump there.
+    let dut1_step = b.eop.dut1.value() - a.eop.dut1.value();
+    let dut1_drift = if dut1_step.abs() > 0.5 {
+        dut1_step - dut1_step.signum()
+    } else {
+        dut1_step
+    };
     Some(EopRecord {
         mjd,
         eop: EopValues {
             xp: Arcseconds::new(a.eop.xp.value() + f * (b.eop.xp.value() - a.eop.xp.value())),
             yp: Arcseconds::new(a.eop.yp.value() + f * (b.eop.yp.value() - a.eop.yp.value())),
-            dut1: Seconds::new(a.eop.dut1.value() + f * (b.eop.dut1.value() - a.eop.dut1.value())),
+            dut1: Seconds::new(a.eop.dut1.value() + f * dut1_drift),
             lod: Seconds::new(a.eop.lod.value() + f * (b.eop.lod.value() - a.eop.lod.value())),
             dx: MilliArcseconds::new(a.eop.dx.value() + f * (b.eop.dx.value() - a.eop.dx.value())),
             dy: MilliArcseconds::new(a.eop.dy.value() + f * (b.eop.dy.value() - a.eop.dy.value())),
diff --git a/src/formats/igs/antex.rs b/src/formats/igs/antex.rs
index ca5da97..ebadcc6 100644
--- a/src/formats/igs/antex.rs
+++ b/src/formats/igs/antex.rs
@@ -30,6 +30,7 @@
 //!   versus precise ephemerides for GNSS orbit determination. GPS
 //!   Solutions, 19(2), 321-330.
 use super::FormatError;
+use crate::formats::byte_prefix;
 use affn::cartesian::Displacement;
 use affn::frames::ReferenceFrame;
 use qtty::length::Millimeter;
@@ -114,7 +115,7 @@ pub fn read_antex<R: Read>(rdr: R) -> Result<AntexCatalog, FormatError> {
 }
 
 fn header_line<W: Write>(w: &mut W, body: &str, label: &str) -> std::io::Result<()> {
-    let body = if body.len() > 60 { &body[..60] } else { body };
+    let body = byte_prefix(body, 60);
     writeln!(w, "{:<60}{}", body, label)
 }
 
diff --git a/src/formats/igs/orbex.rs b/src/formats/igs/orbex.rs
index 911515b..34ede0f 100644
--- a/src/formats/igs/orbex.rs
+++ b/src/formats/igs/orbex.rs
@@ -140,7 +140,7 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
     }
 
     let mut section = Section::None;
-    let mut current_epoch_mjd: f64 = 0.0;
+    let mut current_epoch_mjd: Option<f64> = Some(0.0);
 
     for (lineno, result) in buf.lines().enumerate() {
         let line = result.map_err(FormatError::Io)?;
@@ -169,10 +169,18 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
             let rest = line.trim_start_matches('#').trim();
             let parts: Vec<&str> = rest.split_whitespace().collect();
             if parts.len() >= 3 {
-                let year: i32 = parts[0].parse().unwrap_or(2000);
-                let doy: u32 = parts[1].parse().unwrap_or(1);
-                let sod: f64 = parts[2].parse().unwrap_or(0.0);
-                current_epoch_mjd = orbex_epoch_to_mjd(year, doy, sod);
+                let epoch_mjd = match (parts[0].parse(), parts[1].parse(), parts[2].parse()) {
+                    (Ok(year), Ok(doy), Ok(sod)) => orbex_epoch_to_mjd(year, doy, sod),
+                    _ => None,
+                };
+                if epoch_mjd.is_none() && mode == ParseMode::Strict {
+                    return Err(FormatError::located(
+                        "ORBEX §3",
+                        FileLocation::at_line(lineno),
+                        format!("invalid epoch: {rest:?}"),
+                    ));
+                }
+                current_epoch_mjd = epoch_mjd;
             }
             continue;
         }
@@ -204,6 +212,10 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
         if parts.is_empty() {
             continue;
         }
+        // Records under an unreadable epoch line have no epoch of their own.
+        let Some(current_epoch_mjd) = current_epoch_mjd else {
+            continue;
+        };
 
         match section {
             Section::Orb => {
@@ -218,21 +230,25 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
                     continue;
                 }
                 let sat = parts[0].to_string();
-                let x = parse_f64(parts[1], lineno, "pos_x", mode)?;
-                let y = parse_f64(parts[2], lineno, "pos_y", mode)?;
-                let z = parse_f64(parts[3], lineno, "pos_z", mode)?;
+                let Some(pos_m) =
+                    parse_fields(&parts[1..4], ["pos_x", "pos_y", "pos_z"], lineno, mode)?
+                else {
+                    continue;
+                };
                 let vel_m_s = if parts.len() >= 7 {
-                    let vx = parse_f64(parts[4], lineno, "vel_x", mode)?;
-                    let vy = parse_f64(parts[5], lineno, "vel_y", mode)?;
-                    let vz = parse_f64(parts[6], lineno, "vel_z", mode)?;
-                    Some([vx, vy, vz])
+                    let Some(vel) =
+                        parse_fields(&parts[4..7], ["vel_x", "vel_y", "vel_z"], lineno, mode)?
+                    else {
+                        continue;
+                    };
+                    Some(vel)
                 } else {
                     None
                 };
                 product.orbits.push(OrbexOrbitEntry {
                     sat,
                     epoch_mjd: current_epoch_mjd,
-                    pos_m: [x, y, z],
+                    pos_m,
                     vel_m_s,
                 });
             }
@@ -248,7 +264,9 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
                     continue;
                 }
                 let sat = parts[0].to_string();
-                let bias_s = parse_f64(parts[1], lineno, "bias", mode)?;
+                let Some([bias_s]) = parse_fields(&parts[1..2], ["bias"], lineno, mode)? else {
+                    continue;
+                };
                 product.clocks.push(OrbexClockEntry {
                     sat,
                     epoch_mjd: current_epoch_mjd,
@@ -267,14 +285,15 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
                     continue;
                 }
                 let sat = parts[0].to_string();
-                let w = parse_f64(parts[1], lineno, "q_w", mode)?;
-                let x = parse_f64(parts[2], lineno, "q_x", mode)?;
-                let y = parse_f64(parts[3], lineno, "q_y", mode)?;
-                let z = parse_f64(parts[4], lineno, "q_z", mode)?;
+                let Some(quaternion) =
+                    parse_fields(&parts[1..5], ["q_w", "q_x", "q_y", "q_z"], lineno, mode)?
+                else {
+                    continue;
+                };
                 product.attitudes.push(OrbexAttitudeEntry {
                     sat,
                     epoch_mjd: current_epoch_mjd,
-                    quaternion: [w, x, y, z],
+                    quaternion,
                 });
             }
             Section::None => {}
@@ -284,28 +303,41 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
     Ok(product)
 }
 
-fn parse_f64(s: &str, lineno: usize, what: &str, mode: ParseMode) -> Result<f64, FormatError> {
-    s.parse::<f64>().map_err(|_| {
-        if mode == ParseMode::Strict {
-            FormatError::located(
-                "ORBEX §3",
-                FileLocation::at_line(lineno),
-                format!("cannot parse {what}: {s:?}"),
-            )
-        } else {
-            FormatError::Format(format!("ORBEX line {lineno}: cannot parse {what}: {s:?}"))
+/// Parse the numeric fields of one record.
+///
+/// A malformed field is an error in `Strict` mode; in `Permissive` mode the
+/// record is skipped (`Ok(None)`).
+fn parse_fields<const N: usize>(
+    fields: &[&str],
+    names: [&str; N],
+    lineno: usize,
+    mode: ParseMode,
+) -> Result<Option<[f64; N]>, FormatError> {
+    let mut out = [0.0; N];
+    for ((slot, field), what) in out.iter_mut().zip(fields).zip(names) {
+        match field.parse::<f64>() {
+            Ok(value) => *slot = value,
+            Err(_) if mode == ParseMode::Strict => {
+                return Err(FormatError::located(
+                    "ORBEX §3",
+                    FileLocation::at_line(lineno),
+                    format!("cannot parse {what}: {field:?}"),
+                ));
+            }
+            Err(_) => return Ok(None),
         }
-    })
+    }
+    Ok(Some(out))
 }
 
-fn orbex_epoch_to_mjd(year: i32, doy: u32, sod: f64) -> f64 {
-    let epoch = match chrono::NaiveDate::from_yo_opt(year, doy.max(1)) {
-        Some(d) => d,
-        None => return 0.0,
-    };
+fn orbex_epoch_to_mjd(year: i32, doy: u32, sod: f64) -> Option<f64> {
+    if !sod.is_finite() {
+        return None;
+    }
+    let epoch = chrono::NaiveDate::from_yo_opt(year, doy.max(1))?;
     let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17).expect("valid MJD epoch");
     let days = (epoch - mjd_ref).num_days() as f64;
-    days + sod / 86400.0
+    Some(days + sod / 86400.0)
 }
 
 #[cfg(test)]
diff --git a/src/formats/igs/sinex.rs b/src/formats/igs/sinex.rs
index 97c6acb..8d9e7f3 100644
--- a/src/formats/igs/sinex.rs
+++ b/src/formats/igs/sinex.rs
@@ -16,7 +16,7 @@ use affn::cartesian;
 use affn::centers::{AffineCenter, ReferenceCenter};
 use affn::frames::ITRF;
 use qtty::unit::Meter;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::io::{BufRead, BufReader, Read};
 
 /// Earth geocenter marker for SINEX ITRF coordinates.
@@ -150,10 +150,8 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
         xyz: [Option<f64>; 3],
         vel: [Option<f64>; 3],
         ref_epoch_mjd: f64,
-        pt: String,
-        soln: String,
     }
-    let mut estimates: HashMap<String, EstRow> = HashMap::new();
+    let mut estimates: BTreeMap<(String, String, String), EstRow> = BTreeMap::new();
 
     #[derive(PartialEq)]
     enum Block {
@@ -239,10 +237,18 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
                     }
                 };
 
-                let ref_epoch_mjd = sinex_epoch_to_mjd(epoch_raw);
-                let row = estimates.entry(code.clone()).or_default();
-                row.pt = pt;
-                row.soln = soln;
+                let ref_epoch_mjd = match sinex_epoch_to_mjd(epoch_raw) {
+                    Some(mjd) => mjd,
+                    None if mode == ParseMode::Strict => {
+                        return Err(FormatError::located(
+                            "SINEX 2.10 §4.2",
+                            FileLocation::at_line(lineno),
+                            format!("cannot parse reference epoch: {epoch_raw}"),
+                        ));
+                    }
+                    None => 0.0,
+                };
+                let row = estimates.entry((code, pt, soln)).or_default();
                 row.ref_epoch_mjd = ref_epoch_mjd;
                 match est_type {
                     "STAX" => row.xyz[0] = Some(value),
@@ -259,7 +265,7 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
     }
 
     // Build station records from accumulated estimates.
-    for (code, row) in estimates {
+    for ((code, point_code, solution_id), row) in estimates {
         let (x, y, z) = match (row.xyz[0], row.xyz[1], row.xyz[2]) {
             (Some(x), Some(y), Some(z)) => (x, y, z),
             _ => continue,
@@ -270,8 +276,8 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
         };
         solution.stations.push(StationCoordinate {
             code,
-            point_code: row.pt,
-            solution_id: row.soln,
+            point_code,
+            solution_id,
             ref_epoch_mjd: row.ref_epoch_mjd,
             position: SinexPosition::new(x, y, z),
             velocity_m_yr,
@@ -282,14 +288,14 @@ pub fn read_sinex<R: Read>(reader: R, mode: ParseMode) -> Result<SinexSolution,
 }
 
 /// Convert a SINEX epoch string `"YY:DDD:SSSSS"` to MJD.
-fn sinex_epoch_to_mjd(s: &str) -> f64 {
+fn sinex_epoch_to_mjd(s: &str) -> Option<f64> {
     let parts: Vec<&str> = s.split(':').collect();
     if parts.len() != 3 {
-        return 0.0;
+        return None;
     }
-    let yy: i32 = parts[0].parse().unwrap_or(0);
-    let doy: u32 = parts[1].parse().unwrap_or(1);
-    let sod: f64 = parts[2].parse().unwrap_or(0.0);
+    let yy: i32 = parts[0].parse().ok().filter(|yy| (0..=99).contains(yy))?;
+    let doy: u32 = parts[1].parse().ok()?;
+    let sod: f64 = parts[2].parse().ok().filter(|sod: &f64| sod.is_finite())?;
     let yyyy = if yy == 0 {
         2000
     } else if yy >= 80 {
@@ -297,13 +303,10 @@ fn sinex_epoch_to_mjd(s: &str) -> f64 {
     } else {
         2000 + yy
     };
-    let epoch = match chrono::NaiveDate::from_yo_opt(yyyy, doy.max(1)) {
-        Some(d) => d,
-        None => return 0.0,
-    };
+    let epoch = chrono::NaiveDate::from_yo_opt(yyyy, doy.max(1))?;
     let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17).expect("valid MJD epoch");
     let days = (epoch - mjd_ref).num_days() as f64;
-    days + sod / 86400.0
+    Some(days + sod / 86400.0)
 }
 
 #[cfg(test)]
-- 
2.43.0


From e85de3eccc624bd21ff43f69f188ad50cd5563f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 43/77] fix: CPF, CRD, DORIS and SCK readers accepted
 impossible epochs, panicked or read the wrong field

---
 src/formats/ilrs/cpf.rs    | 64 +++++++++++++++--------------------
 src/formats/ilrs/crd.rs    | 13 ++------
 src/formats/mod.rs         | 22 ++++++++++++
 src/formats/rinex/doris.rs | 68 +++++++++++++++++++-------------------
 src/formats/sck.rs         |  2 +-
 5 files changed, 86 insertions(+), 83 deletions(-)

diff --git a/src/formats/ilrs/cpf.rs b/src/formats/ilrs/cpf.rs
index 812635b..ea6550e 100644
--- a/src/formats/ilrs/cpf.rs
+++ b/src/formats/ilrs/cpf.rs
@@ -35,16 +35,16 @@
 //!   International Laser Ranging Service. Advances in Space Research,
 //!   30(2), 135–143.
 use super::{FileLocation, FormatError, ParseMode};
+use crate::formats::civil_date_sod_to_utc;
 use affn::cartesian;
 use affn::centers::{AffineCenter, ReferenceCenter};
 use affn::frames::ITRF;
-use chrono::{DateTime, NaiveDate, Utc as ChronoUtc};
+use chrono::NaiveDate;
 use qtty::unit::Kilometer;
-use qtty::Day;
 use std::fs;
 use std::io::Write;
 use std::path::Path;
-use tempoch::{ModifiedJulianDate, Time, UTC};
+use tempoch::{Time, UTC};
 
 // ── GeocentricCenter ──────────────────────────────────────────────────────────
 
@@ -290,7 +290,7 @@ pub fn write_cpf<W: Write>(f: &CpfFile, w: &mut W) -> Result<(), FormatError> {
         f.sic,
         if f.norad.is_empty() { "0" } else { &f.norad },
         if f.time_step_s > 0.0 {
-            format!("{}", f.time_step_s as u64)
+            format!("{}", f.time_step_s)
         } else {
             "60".to_string()
         },
@@ -322,11 +322,14 @@ fn mjd_sod_from_epoch(epoch: Time<UTC>) -> (i64, f64) {
     let dt = epoch
         .try_to_chrono()
         .expect("CPF UTC epoch must be representable in chrono");
+    // Round to the printed millisecond here, so that the last half millisecond
+    // of a day carries into the next day instead of being printed as 86400 s.
+    let dt = dt + chrono::Duration::microseconds(500);
     let mjd_epoch =
         NaiveDate::from_ymd_opt(1858, 11, 17).expect("MJD epoch 1858-11-17 is a valid date");
     let mjd_int = dt.date_naive().signed_duration_since(mjd_epoch).num_days();
     let sod = (dt.time().num_seconds_from_midnight() as f64)
-        + (dt.timestamp_subsec_nanos() as f64) * 1e-9;
+        + f64::from(dt.timestamp_subsec_millis()) * 1e-3;
     (mjd_int, sod)
 }
 
@@ -434,12 +437,12 @@ fn parse_cpf_impl(
                         }
                     };
 
-                let mjd = ModifiedJulianDate::<UTC>::try_new(Day::new(mjd_i as f64))
-                    .map_err(|_| FormatError::Format(format!("CPF 10: invalid MJD {mjd_i}")))?;
-                let _ = (mjd, sod); // mjd parsed for validation; epoch built below
-
                 // Typed record: convert metres to km, compute epoch.
-                let epoch = build_epoch_from_mjd_sod(mjd_i, sod)?;
+                let epoch = match build_epoch_from_mjd_sod(mjd_i, sod) {
+                    Ok(epoch) => epoch,
+                    Err(err) if mode == ParseMode::Strict => return Err(err),
+                    Err(_) => continue,
+                };
                 out.ephemeris.entries.push(CpfEphemerisEntry {
                     epoch,
                     position: CpfCartesian::new(x_m / 1_000.0, y_m / 1_000.0, z_m / 1_000.0),
@@ -456,34 +459,19 @@ fn parse_cpf_impl(
 
 /// Build a `Time<UTC>` from an integer MJD and fractional seconds-of-day.
 fn build_epoch_from_mjd_sod(mjd_int: i64, sod: f64) -> Result<Time<UTC>, FormatError> {
-    // Convert MJD to calendar date, then to chrono, then add SOD.
-    // MJD 0 = 1858-11-17. MJD → Julian Day: JD = MJD + 2400000.5
-    // Use Julian Day Number arithmetic to get year/month/day.
-    let jd_whole = mjd_int + 2_400_001; // integer JD at noon of MJD day
-                                        // Algorithm from USNO (Fliegel & Van Flandern, 1968):
-    let l = jd_whole + 68_569;
-    let n = (4 * l) / 146_097;
-    let l2 = l - (146_097 * n + 3) / 4;
-    let i = (4_000 * (l2 + 1)) / 1_461_001;
-    let l3 = l2 - (1_461 * i) / 4 + 31;
-    let j = (80 * l3) / 2_447;
-    let day = l3 - (2_447 * j) / 80;
-    let l4 = j / 11;
-    let month = j + 2 - 12 * l4;
-    let year = 100 * (n - 49) + i + l4;
-
-    let sod_int = sod as u32;
-    let sod_nanos = ((sod - sod_int as f64) * 1e9).round() as u32;
-    let hour = sod_int / 3_600;
-    let minute = (sod_int % 3_600) / 60;
-    let second = sod_int % 60;
-
-    let naive = NaiveDate::from_ymd_opt(year as i32, month as u32, day as u32)
-        .and_then(|d| d.and_hms_nano_opt(hour, minute, second, sod_nanos))
-        .ok_or_else(|| FormatError::Format(format!("CPF 10: invalid date from MJD {mjd_int}")))?;
-    let dt: DateTime<ChronoUtc> = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
-    Time::<UTC>::try_from_chrono(dt)
-        .map_err(|e| FormatError::Format(format!("CPF 10: UTC conversion: {e}")))
+    let invalid = || {
+        FormatError::Format(format!(
+            "CPF 10: invalid epoch MJD {mjd_int}, {sod} s of day"
+        ))
+    };
+    let date = chrono::Duration::try_days(mjd_int)
+        .and_then(|days| {
+            NaiveDate::from_ymd_opt(1858, 11, 17)
+                .expect("MJD epoch 1858-11-17 is a valid date")
+                .checked_add_signed(days)
+        })
+        .ok_or_else(invalid)?;
+    civil_date_sod_to_utc(date, sod).ok_or_else(invalid)
 }
 
 #[cfg(test)]
diff --git a/src/formats/ilrs/crd.rs b/src/formats/ilrs/crd.rs
index b9a0c4d..c79a6db 100644
--- a/src/formats/ilrs/crd.rs
+++ b/src/formats/ilrs/crd.rs
@@ -35,6 +35,7 @@
 //! - Pearlman, M. R., Noll, C. E., et al. (2019). The ILRS: Current status
 //!   and future prospects. Journal of Geodesy, 93, 2161–2180.
 use super::{FileLocation, FormatError, ParseMode};
+use crate::formats::civil_date_sod_to_utc;
 use chrono::{DateTime, NaiveDate, Utc as ChronoUtc};
 use qtty::length::Meters;
 use qtty::time::Seconds;
@@ -385,15 +386,7 @@ fn parse_crd_impl(
                     // Build epoch directly from H4 date + SOD components to
                     // avoid floating-point precision loss in the JD round-trip.
                     let epoch = h4_date.and_then(|(y, mo, d)| {
-                        let whole = sod as i64;
-                        let subsec_nanos = ((sod - whole as f64) * 1_000_000_000.0).round() as u32;
-                        let hh = (whole / 3600) as u32;
-                        let mm = ((whole % 3600) / 60) as u32;
-                        let ss = (whole % 60) as u32;
-                        let naive = NaiveDate::from_ymd_opt(y, mo, d)
-                            .and_then(|nd| nd.and_hms_nano_opt(hh, mm, ss, subsec_nanos))?;
-                        let dt = DateTime::from_naive_utc_and_offset(naive, ChronoUtc);
-                        Time::<UTC>::try_from_chrono(dt).ok()
+                        civil_date_sod_to_utc(NaiveDate::from_ymd_opt(y, mo, d)?, sod)
                     });
                     let range_m = Meters::new(tof * SPEED_OF_LIGHT_M_S / 2.0);
 
@@ -416,7 +409,7 @@ fn parse_crd_impl(
                         .get(6)
                         .and_then(|s| s.parse::<f64>().ok())
                         .map(|ps| Meters::new(ps * 1e-12 * SPEED_OF_LIGHT_M_S / 2.0));
-                    let return_rate: Option<f64> = rest.get(9).and_then(|s| s.parse().ok());
+                    let return_rate: Option<f64> = rest.get(10).and_then(|s| s.parse().ok());
 
                     out.normal_points.push(NormalPoint {
                         seconds_of_day: Seconds::new(sod),
diff --git a/src/formats/mod.rs b/src/formats/mod.rs
index 1de8139..32b9a07 100644
--- a/src/formats/mod.rs
+++ b/src/formats/mod.rs
@@ -62,6 +62,28 @@ pub(crate) fn civil_to_utc(
     tempoch::Time::<tempoch::UTC>::try_from_chrono(instant).ok()
 }
 
+/// UTC instant of a calendar date and a decimal second of the day.
+///
+/// Returns `None` for a second outside the day, a non-finite one included.
+pub(crate) fn civil_date_sod_to_utc(
+    date: chrono::NaiveDate,
+    second_of_day: f64,
+) -> Option<tempoch::Time<tempoch::UTC>> {
+    use chrono::Datelike;
+    if !(0.0..86_400.0).contains(&second_of_day) {
+        return None;
+    }
+    let minute_of_day = (second_of_day / 60.0) as u32;
+    civil_to_utc(
+        date.year(),
+        date.month(),
+        date.day(),
+        minute_of_day / 60,
+        minute_of_day % 60,
+        second_of_day % 60.0,
+    )
+}
+
 /// Longest prefix of `text` that takes at most `max` bytes.
 pub(crate) fn byte_prefix(text: &str, max: usize) -> &str {
     let mut end = text.len().min(max);
diff --git a/src/formats/rinex/doris.rs b/src/formats/rinex/doris.rs
index 988fde4..ab31f14 100644
--- a/src/formats/rinex/doris.rs
+++ b/src/formats/rinex/doris.rs
@@ -93,17 +93,21 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
             if l.len() < 61 {
                 continue;
             }
-            let (data, label) = l.split_at(60);
+            let Some((data, label)) = l.split_at_checked(60) else {
+                continue;
+            };
             let label = label.trim();
+            let column =
+                |range: std::ops::Range<usize>| data.get(range).unwrap_or("").trim().to_string();
             match label {
-                "RINEX VERSION / TYPE" => out.header.version = data[..9].trim().to_string(),
+                "RINEX VERSION / TYPE" => out.header.version = column(0..9),
                 "PGM / RUN BY / DATE" => {
-                    out.header.program = data[..20].trim().to_string();
-                    out.header.agency = data[20..40].trim().to_string();
+                    out.header.program = column(0..20);
+                    out.header.agency = column(20..40);
                 }
                 "MARKER NAME" => out.header.marker_name = data.trim().to_string(),
-                "ANT # / TYPE" => out.header.antenna_type = data[20..].trim().to_string(),
-                "REC # / TYPE / VERS" => out.header.receiver_type = data[20..40].trim().to_string(),
+                "ANT # / TYPE" => out.header.antenna_type = column(20..60),
+                "REC # / TYPE / VERS" => out.header.receiver_type = column(20..40),
                 "END OF HEADER" => in_header = false,
                 _ => {}
             }
@@ -116,28 +120,32 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
             // RINEX 3 epoch flag line: "> YYYY MM DD HH MM SS.SSS"
             let parts: Vec<&str> = rest.split_whitespace().collect();
             if parts.len() >= 6 {
-                let y: i32 = parts[0].parse().unwrap_or(0);
-                let mo: u32 = parts[1].parse().unwrap_or(0);
-                let d: u32 = parts[2].parse().unwrap_or(0);
-                let h: u32 = parts[3].parse().unwrap_or(0);
-                let mi: u32 = parts[4].parse().unwrap_or(0);
-                let s: f64 = parts[5].parse().unwrap_or(0.0);
-                current_obs_epoch = Some(date_to_mjd(y, mo, d, h, mi, s));
+                let field = |index: usize| parts[index].parse::<u32>().ok();
+                let epoch = (|| {
+                    let date = chrono::NaiveDate::from_ymd_opt(
+                        parts[0].parse().ok()?,
+                        field(1)?,
+                        field(2)?,
+                    )?;
+                    let (h, mi) = (field(3)?, field(4)?);
+                    let s: f64 = parts[5].parse().ok()?;
+                    // Second 60 is a leap second.
+                    (h < 24 && mi < 60 && (0.0..61.0).contains(&s))
+                        .then(|| date_to_mjd(date, h, mi, s))
+                })();
+                current_obs_epoch = Some(epoch.ok_or_else(|| {
+                    FormatError::Format(format!("rinex_doris: invalid epoch line: {l}"))
+                })?);
                 current_sat = None;
             }
             continue;
         }
-        let sat_id = if l.len() >= 3 && l.starts_with('D') {
-            Some(l[0..3].to_string())
-        } else {
-            current_sat.clone()
+        let sat_id = match l.get(0..3) {
+            Some(sat) if sat.starts_with('D') => Some(sat.to_string()),
+            _ => current_sat.clone(),
         };
         if let (Some(mjd), Some(sat)) = (current_obs_epoch, sat_id) {
-            let raw = if l.len() > 3 {
-                l[3..].trim().to_string()
-            } else {
-                String::new()
-            };
+            let raw = l.get(3..).unwrap_or("").trim().to_string();
             if raw.is_empty() {
                 out.unsupported_obs += 1;
             }
@@ -154,18 +162,10 @@ fn parse_doris<R: Read>(reader: R) -> Result<RinexDoris, FormatError> {
 }
 
 #[cfg(feature = "doris")]
-fn date_to_mjd(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: f64) -> f64 {
-    // Standard civil → MJD conversion (Meeus §7).
-    let (yy, mm) = if mo <= 2 { (y - 1, mo + 12) } else { (y, mo) };
-    let a = (yy as f64 / 100.0).floor();
-    let b = 2.0 - a + (a / 4.0).floor();
-    let jd = (365.25 * (yy as f64 + 4716.0)).floor()
-        + (30.6001 * (mm as f64 + 1.0)).floor()
-        + d as f64
-        + b
-        - 1524.5
-        + (h as f64 + mi as f64 / 60.0 + s / 3600.0) / 24.0;
-    jd - 2_400_000.5
+fn date_to_mjd(date: chrono::NaiveDate, h: u32, mi: u32, s: f64) -> f64 {
+    let mjd_epoch =
+        chrono::NaiveDate::from_ymd_opt(1858, 11, 17).expect("MJD epoch is a valid date");
+    (date - mjd_epoch).num_days() as f64 + (h as f64 + mi as f64 / 60.0 + s / 3600.0) / 24.0
 }
 
 /// Read a RINEX-DORIS file. Returns [`FormatError::Unsupported`] unless
diff --git a/src/formats/sck.rs b/src/formats/sck.rs
index e5bad07..02bca3e 100644
--- a/src/formats/sck.rs
+++ b/src/formats/sck.rs
@@ -104,7 +104,7 @@ pub fn parse_sck(bytes: &[u8]) -> Result<SckKernel, FormatError> {
             )
         })?;
     let payload = &bytes[SCK_HEADER_LEN..];
-    if payload.len() != expected * 8 {
+    if Some(payload.len()) != expected.checked_mul(8) {
         return Err(FormatError::located(
             "SCK v1 §payload",
             FileLocation::default(),
-- 
2.43.0


From 7c5a2af0b6a86335d7dd8ea20bdb510e76883955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 44/77] fix: ADS-B decoding returned NaN longitudes, positions
 beyond the poles and invented velocities

---
 src/formats/adsb/cpr.rs | 80 ++++++++++++++++++++++++++++-------------
 src/formats/adsb/mod.rs | 18 ++++++----
 2 files changed, 67 insertions(+), 31 deletions(-)

diff --git a/src/formats/adsb/cpr.rs b/src/formats/adsb/cpr.rs
index 0b051bf..8dd7b44 100644
--- a/src/formats/adsb/cpr.rs
+++ b/src/formats/adsb/cpr.rs
@@ -42,9 +42,12 @@ fn dlat(odd: bool) -> f64 {
 ///
 /// Based on DO-260B eq. 2-15 / Sun 2021 eq. 4.13.
 fn nl(lat: f64) -> f64 {
-    if lat.abs() >= 87.0 {
+    if lat.abs() > 87.0 {
         return 1.0;
     }
+    if lat.abs() == 87.0 {
+        return 2.0;
+    }
     let cos_lat = lat.to_radians().cos();
     let numer = 1.0 - (std::f64::consts::PI / (2.0 * NZ)).cos();
     let arg = 1.0 - numer / (cos_lat * cos_lat);
@@ -53,6 +56,30 @@ fn nl(lat: f64) -> f64 {
     n.clamp(1.0, 59.0)
 }
 
+/// Reject CPR fields wider than 17 bits.
+fn check_17_bit(fields: &[u32]) -> Result<(), FormatError> {
+    match fields.iter().find(|&&field| field >= 1 << 17) {
+        Some(field) => Err(FormatError::located(
+            "ADS-B DO-260B §2.2.3.2.6",
+            FileLocation::default(),
+            format!("CPR field {field} does not fit in 17 bits"),
+        )),
+        None => Ok(()),
+    }
+}
+
+/// Reject a decoded latitude beyond the poles.
+fn check_latitude(lat: f64) -> Result<(), FormatError> {
+    if (-90.0..=90.0).contains(&lat) {
+        return Ok(());
+    }
+    Err(FormatError::located(
+        "ADS-B DO-260B §2.2.3.2.6",
+        FileLocation::default(),
+        format!("decoded latitude {lat}° lies beyond a pole"),
+    ))
+}
+
 /// Decode a globally-unambiguous geodetic position from an even and odd
 /// CPR frame pair.
 ///
@@ -72,7 +99,8 @@ fn nl(lat: f64) -> f64 {
 /// # Errors
 ///
 /// [`FormatError`] when the even/odd pair is inconsistent (NL mismatch —
-/// meaning the pair is too old and straddles a latitude zone boundary).
+/// meaning the pair is too old and straddles a latitude zone boundary — or a
+/// latitude beyond a pole), or a field is wider than 17 bits.
 ///
 /// # Examples
 ///
@@ -91,6 +119,8 @@ pub fn decode_globally(
     lon1: u32,
     odd_is_latest: bool,
 ) -> Result<(Degrees, Degrees), FormatError> {
+    check_17_bit(&[lat0, lon0, lat1, lon1])?;
+
     let dlat0 = dlat(false);
     let dlat1 = dlat(true);
 
@@ -112,31 +142,18 @@ pub fn decode_globally(
     }
 
     let lat = if odd_is_latest { lat_o } else { lat_e };
+    check_latitude(lat)?;
     let nl_lat = nl(lat);
 
-    let (lon, lon_ref) = if odd_is_latest {
-        let dlon = if nl_lat <= 1.0 {
-            360.0
-        } else {
-            360.0 / (nl_lat - 1.0)
-        };
-        let m = (lon0 as f64 * (nl_lat - 1.0) / 131_072.0 - lon1 as f64 * nl_lat / 131_072.0 + 0.5)
-            .floor();
-        (
-            dlon * (m.rem_euclid(nl_lat - 1.0) + lon1 as f64 / 131_072.0),
-            lat_o,
-        )
+    // Number of longitude zones of the latest frame; one when NL − 1 is zero.
+    let (n_lon, cpr_lon) = if odd_is_latest {
+        ((nl_lat - 1.0).max(1.0), lon1)
     } else {
-        let dlon = if nl_lat < 1.0 { 360.0 } else { 360.0 / nl_lat };
-        let m = (lon0 as f64 * (nl_lat - 1.0) / 131_072.0 - lon1 as f64 * nl_lat / 131_072.0 + 0.5)
-            .floor();
-        (
-            dlon * (m.rem_euclid(nl_lat) + lon0 as f64 / 131_072.0),
-            lat_e,
-        )
+        (nl_lat, lon0)
     };
-
-    let _ = lon_ref; // used implicitly in lat selection above
+    let m =
+        (lon0 as f64 * (nl_lat - 1.0) / 131_072.0 - lon1 as f64 * nl_lat / 131_072.0 + 0.5).floor();
+    let lon = 360.0 / n_lon * (m.rem_euclid(n_lon) + cpr_lon as f64 / 131_072.0);
 
     let lon = if lon >= 180.0 { lon - 360.0 } else { lon };
 
@@ -158,6 +175,11 @@ pub fn decode_globally(
 ///
 /// `Ok((Degrees, Degrees))` = (latitude, longitude).
 ///
+/// # Errors
+///
+/// [`FormatError`] when the frame cannot lie near the reference: a non-finite
+/// reference, a field wider than 17 bits, or a latitude beyond a pole.
+///
 /// # Examples
 ///
 /// ```rust
@@ -174,10 +196,20 @@ pub fn decode_locally(
     ref_lat: f64,
     ref_lon: f64,
 ) -> Result<(Degrees, Degrees), FormatError> {
+    check_17_bit(&[cpr_lat, cpr_lon])?;
+    if !ref_lat.is_finite() || !ref_lon.is_finite() {
+        return Err(FormatError::located(
+            "ADS-B DO-260B §2.2.3.2.6",
+            FileLocation::default(),
+            "reference position is not finite",
+        ));
+    }
+
     let d_lat = dlat(odd);
     let j = (ref_lat / d_lat - cpr_lat as f64 / 131_072.0 + 0.5).floor();
     let lat = d_lat * (j + cpr_lat as f64 / 131_072.0);
     let lat = if lat >= 270.0 { lat - 360.0 } else { lat };
+    check_latitude(lat)?;
 
     let nl_val = nl(lat);
     let n_lon = if odd {
@@ -188,7 +220,7 @@ pub fn decode_locally(
     let d_lon = 360.0 / n_lon;
     let m = (ref_lon / d_lon - cpr_lon as f64 / 131_072.0 + 0.5).floor();
     let lon = d_lon * (m + cpr_lon as f64 / 131_072.0);
-    let lon = if lon >= 180.0 { lon - 360.0 } else { lon };
+    let lon = (lon + 180.0).rem_euclid(360.0) - 180.0;
 
     Ok((Degrees::new(lat), Degrees::new(lon)))
 }
diff --git a/src/formats/adsb/mod.rs b/src/formats/adsb/mod.rs
index f60d019..16933bb 100644
--- a/src/formats/adsb/mod.rs
+++ b/src/formats/adsb/mod.rs
@@ -384,17 +384,21 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
     // Sub-types 1 and 2: ground-speed-based velocity
     if sub_type == 1 || sub_type == 2 {
         let sign_ew: f64 = if (me[1] & 0x04) != 0 { -1.0 } else { 1.0 };
-        let v_ew = (((me[1] as u16 & 0x03) << 8) | me[2] as u16) as f64 - 1.0;
+        let ew_raw = ((me[1] as u16 & 0x03) << 8) | me[2] as u16;
+        let v_ew = ew_raw as f64 - 1.0;
         let sign_ns: f64 = if (me[3] & 0x80) != 0 { -1.0 } else { 1.0 };
-        let v_ns = (((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16) as f64 - 1.0;
+        let ns_raw = ((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16;
+        let v_ns = ns_raw as f64 - 1.0;
 
         // Convert knots → m/s (1 knot = 0.514444 m/s)
         let scale: f64 = if sub_type == 2 { 4.0 } else { 1.0 };
         let vew_mps = sign_ew * v_ew * scale * 0.514_444;
         let vns_mps = sign_ns * v_ns * scale * 0.514_444;
 
+        // A raw value of zero means that the component is not available.
+        let available = ew_raw != 0 && ns_raw != 0;
         let gs = (vew_mps * vew_mps + vns_mps * vns_mps).sqrt();
-        let heading = if v_ew == 0.0 && v_ns == 0.0 {
+        let heading = if !available || (v_ew == 0.0 && v_ns == 0.0) {
             None
         } else {
             let track_deg = vew_mps.atan2(vns_mps).to_degrees().rem_euclid(360.0);
@@ -403,14 +407,14 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
 
         // Vertical rate: bits 30–38 of ME
         let vr_sign: f64 = if (me[4] & 0x08) != 0 { -1.0 } else { 1.0 };
-        let vr_raw = (((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16) as f64 - 1.0;
-        let vr_fpm = vr_sign * vr_raw * 64.0; // feet per minute
+        let vr_raw = ((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16;
+        let vr_fpm = vr_sign * (vr_raw as f64 - 1.0) * 64.0; // feet per minute
         let vr_mps = vr_fpm * 0.00508; // fpm → m/s
 
         return Ok(AirborneVelocityMessage {
             heading,
-            ground_speed_mps: Some(MetersPerSecond::new(gs)),
-            vertical_rate_mps: Some(MetersPerSecond::new(vr_mps)),
+            ground_speed_mps: available.then(|| MetersPerSecond::new(gs)),
+            vertical_rate_mps: (vr_raw != 0).then(|| MetersPerSecond::new(vr_mps)),
         });
     }
     Err(FormatError::located(
-- 
2.43.0


From 0b1577d2085977f3cd6e744d7083115bd323a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 45/77] fix: SPICE text kernels split strings at '=', dropped
 unfinished values and overflowed the stack

---
 src/formats/spice/text.rs | 99 +++++++++++++++++++++++++++------------
 1 file changed, 70 insertions(+), 29 deletions(-)

diff --git a/src/formats/spice/text.rs b/src/formats/spice/text.rs
index 42ad81f..f9767fa 100644
--- a/src/formats/spice/text.rs
+++ b/src/formats/spice/text.rs
@@ -59,17 +59,18 @@ impl TextKernel {
         let mut kernel = Self::default();
         let mut in_data = false;
         let mut statement = String::new();
+        let mut scan = StatementScan::default();
 
         for raw_line in src.lines() {
             let trimmed = raw_line.trim();
             if trimmed.eq_ignore_ascii_case("\\begindata") {
+                ensure_terminated(&statement)?;
                 in_data = true;
-                statement.clear();
                 continue;
             }
             if trimmed.eq_ignore_ascii_case("\\begintext") {
+                ensure_terminated(&statement)?;
                 in_data = false;
-                statement.clear();
                 continue;
             }
             if !in_data {
@@ -87,23 +88,22 @@ impl TextKernel {
 
             if !statement.is_empty() {
                 statement.push(' ');
+                scan.advance(" ")?;
             }
             statement.push_str(clean);
+            scan.advance(clean)?;
 
-            if !statement_complete(&statement) {
+            if !scan.complete() {
                 continue;
             }
 
             let (key, append, value) = parse_assignment(&statement)?;
             store_value(&mut kernel.data, key, append, value);
             statement.clear();
+            scan = StatementScan::default();
         }
 
-        if !statement.trim().is_empty() {
-            return Err(SpiceError::FormatParse(
-                "unterminated text-kernel assignment".to_string(),
-            ));
-        }
+        ensure_terminated(&statement)?;
 
         Ok(kernel)
     }
@@ -147,36 +147,66 @@ fn strip_comment_fragments(line: &str) -> String {
     out
 }
 
-fn statement_complete(statement: &str) -> bool {
-    let mut paren_depth = 0_i32;
-    let mut quote = None;
-    for ch in statement.chars() {
-        if let Some(active) = quote {
-            if ch == active {
-                quote = None;
+/// Deepest parenthesis nesting accepted in a value.
+const MAX_NESTING: i32 = 64;
+
+fn ensure_terminated(statement: &str) -> Result<(), SpiceError> {
+    if statement.trim().is_empty() {
+        return Ok(());
+    }
+    Err(SpiceError::FormatParse(
+        "unterminated text-kernel assignment".to_string(),
+    ))
+}
+
+/// Quote and parenthesis state of the statement read so far.
+#[derive(Default)]
+struct StatementScan {
+    paren_depth: i32,
+    quote: Option<char>,
+}
+
+impl StatementScan {
+    fn advance(&mut self, fragment: &str) -> Result<(), SpiceError> {
+        for ch in fragment.chars() {
+            if let Some(active) = self.quote {
+                if ch == active {
+                    self.quote = None;
+                }
+                continue;
+            }
+            match ch {
+                '\'' | '"' => self.quote = Some(ch),
+                '(' => {
+                    self.paren_depth += 1;
+                    if self.paren_depth > MAX_NESTING {
+                        return Err(SpiceError::FormatParse(
+                            "text-kernel value is nested too deeply".to_string(),
+                        ));
+                    }
+                }
+                ')' => self.paren_depth -= 1,
+                _ => {}
             }
-            continue;
-        }
-        match ch {
-            '\'' | '"' => quote = Some(ch),
-            '(' => paren_depth += 1,
-            ')' => paren_depth -= 1,
-            _ => {}
         }
+        Ok(())
+    }
+
+    fn complete(&self) -> bool {
+        self.quote.is_none() && self.paren_depth == 0
     }
-    quote.is_none() && paren_depth == 0
 }
 
 fn parse_assignment(statement: &str) -> Result<(String, bool, TextValue), SpiceError> {
-    let (key, value, append) = if let Some(idx) = statement.find("+=") {
-        (&statement[..idx], &statement[idx + 2..], true)
-    } else if let Some(idx) = statement.find('=') {
-        (&statement[..idx], &statement[idx + 1..], false)
-    } else {
+    let Some((left, value)) = statement.split_once('=') else {
         return Err(SpiceError::FormatParse(format!(
             "text kernel assignment missing '=': {statement}"
         )));
     };
+    let (key, append) = match left.strip_suffix('+') {
+        Some(key) => (key, true),
+        None => (left, false),
+    };
 
     let key = key.trim();
     if key.is_empty() {
@@ -323,7 +353,11 @@ impl<'a> ValueParser<'a> {
         let mut out = String::new();
         while let Some(ch) = self.bump() {
             if ch == quote {
-                return Ok(TextValue::Text(out));
+                // A doubled quote stands for one quote character.
+                if self.peek() != Some(quote) {
+                    return Ok(TextValue::Text(out));
+                }
+                self.bump();
             }
             out.push(ch);
         }
@@ -381,6 +415,13 @@ fn parse_scalar(token: &str) -> TextValue {
     if let Ok(value) = token.parse::<f64>() {
         return TextValue::Float(value);
     }
+    // Fortran-style `D` exponents are ordinary numbers in text kernels.
+    let numeric = |c: char| c.is_ascii_digit() || matches!(c, '+' | '-' | '.' | 'd' | 'D');
+    if token.chars().all(numeric) {
+        if let Ok(value) = token.replace(['d', 'D'], "E").parse::<f64>() {
+            return TextValue::Float(value);
+        }
+    }
     TextValue::Text(token.to_string())
 }
 
-- 
2.43.0


From bec7ab9000d55845853b5a5b27832935d725d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 46/77] fix: LSK offsets switched about 69 s before the leap
 second and impossible dates were accepted

---
 src/formats/spice/lsk.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/formats/spice/lsk.rs b/src/formats/spice/lsk.rs
index 094ffb7..430db05 100644
--- a/src/formats/spice/lsk.rs
+++ b/src/formats/spice/lsk.rs
@@ -19,15 +19,23 @@
 //! - NAIF. *Leapseconds Kernel Required Reading*.
 //! - NAIF. *Kernel Required Reading*.
 
+use chrono::{Datelike, NaiveDate};
+
 use super::text::{TextKernel, TextValue};
 use super::SpiceError;
 
+/// Proleptic-Gregorian day number of 2000-01-01.
+const J2000_DAYS_FROM_CE: i32 = 730_120;
+
 /// Parsed leapseconds kernel.
 #[derive(Debug, Clone)]
 pub struct LeapSecondKernel {
     /// Constant TDT−TAI offset in seconds (DELTET/DELTA_T_A, ≈ 32.184 s).
     pub delta_t_a: f64,
     /// Sorted leapseconds table: `(epoch_j2000_tdb_seconds, tai_minus_utc)`.
+    ///
+    /// The epoch is the TDB instant at which the offset takes effect: the UTC
+    /// calendar epoch of the kernel plus `delta_t_a` and the new offset.
     pub leap_table: Vec<(f64, f64)>,
 }
 
@@ -63,7 +71,8 @@ impl LeapSecondKernel {
         for pair in delta_at.chunks(2) {
             let delta = scalar_as_f64(&pair[0], "DELTET/DELTA_AT delta")?;
             let epoch = epoch_as_j2000_seconds(&pair[1])?;
-            leap_table.push((epoch, delta));
+            // The kernel tabulates UTC calendar epochs; the table is looked up by TDB.
+            leap_table.push((epoch + delta_t_a + delta, delta));
         }
         leap_table.sort_by(|left, right| left.0.total_cmp(&right.0));
 
@@ -136,14 +145,16 @@ fn parse_epoch_text(text: &str) -> Result<f64, SpiceError> {
         .next()
         .ok_or_else(|| SpiceError::FormatParse(format!("bad LSK epoch '{trimmed}'")))?;
     let day = day_text
-        .parse::<i32>()
+        .parse::<u32>()
         .map_err(|_| SpiceError::FormatParse(format!("bad LSK day in '{trimmed}'")))?;
+    let date = NaiveDate::from_ymd_opt(year, month, day)
+        .ok_or_else(|| SpiceError::FormatParse(format!("bad LSK date in '{trimmed}'")))?;
 
-    let jd = gregorian_to_jd(year, month, day);
-    Ok((jd - 2_451_545.0) * 86_400.0)
+    let days = date.num_days_from_ce() - J2000_DAYS_FROM_CE;
+    Ok((f64::from(days) - 0.5) * 86_400.0)
 }
 
-fn month_number(month: &str) -> Result<i32, SpiceError> {
+fn month_number(month: &str) -> Result<u32, SpiceError> {
     match month.trim().to_ascii_uppercase().as_str() {
         "JAN" => Ok(1),
         "FEB" => Ok(2),
@@ -163,13 +174,6 @@ fn month_number(month: &str) -> Result<i32, SpiceError> {
     }
 }
 
-fn gregorian_to_jd(year: i32, month: i32, day: i32) -> f64 {
-    let term1 = 367 * year;
-    let term2 = 7 * (year + (month + 9) / 12) / 4;
-    let term3 = 275 * month / 9;
-    (term1 - term2 + term3 + day + 1_721_013) as f64 + 0.5
-}
-
 #[cfg(test)]
 mod tests {
     use super::LeapSecondKernel;
-- 
2.43.0


From 14ae6c92ec18309b548cb58224607ab9e117891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 47/77] fix: PCK and FK rotations were mirrored or transposed,
 and incomplete kernels crashed the context

---
 src/formats/spice/fk.rs  |  7 ++++---
 src/formats/spice/pck.rs | 24 ++++++++++++++++++------
 src/spice/context.rs     | 18 ++++++++++++++----
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/formats/spice/fk.rs b/src/formats/spice/fk.rs
index 560757a..64968f6 100644
--- a/src/formats/spice/fk.rs
+++ b/src/formats/spice/fk.rs
@@ -138,10 +138,11 @@ impl FrameKernel {
                         )?
                         .to_ascii_uppercase();
                         Some((
+                            // The kernel lists the elements column by column.
                             TkSpec::Matrix([
-                                [values[0], values[1], values[2]],
-                                [values[3], values[4], values[5]],
-                                [values[6], values[7], values[8]],
+                                [values[0], values[3], values[6]],
+                                [values[1], values[4], values[7]],
+                                [values[2], values[5], values[8]],
                             ]),
                             relative,
                         ))
diff --git a/src/formats/spice/pck.rs b/src/formats/spice/pck.rs
index 42d20c8..eaf8af2 100644
--- a/src/formats/spice/pck.rs
+++ b/src/formats/spice/pck.rs
@@ -37,15 +37,21 @@ pub struct BodyOrientation {
 }
 
 impl BodyOrientation {
+    /// Whether the kernel gives this body a pole and a prime meridian.
+    pub fn has_orientation(&self) -> bool {
+        !(self.pole_ra.is_empty() || self.pole_dec.is_empty() || self.pm.is_empty())
+    }
+
     /// Rotation matrix from body-fixed frame to J2000 at epoch `tdb_s`.
     ///
-    /// Uses first-order IAU pole RA/Dec/PM, ignoring nutation terms.
+    /// Uses first-order IAU pole RA/Dec/PM, ignoring nutation terms. Missing
+    /// coefficients count as zero; see [`Self::has_orientation`].
     pub fn rotation_to_j2000(&self, tdb_s: f64) -> [[f64; 3]; 3] {
         let t = tdb_s / (36_525.0 * 86_400.0);
         let d = tdb_s / 86_400.0;
-        let ra_deg = self.pole_ra[0] + self.pole_ra.get(1).copied().unwrap_or(0.0) * t;
-        let dec_deg = self.pole_dec[0] + self.pole_dec.get(1).copied().unwrap_or(0.0) * t;
-        let w_deg = self.pm[0] + self.pm.get(1).copied().unwrap_or(0.0) * d;
+        let ra_deg = linear_at(&self.pole_ra, t);
+        let dec_deg = linear_at(&self.pole_dec, t);
+        let w_deg = linear_at(&self.pm, d);
 
         let ra = ra_deg.to_radians();
         let dec = dec_deg.to_radians();
@@ -53,8 +59,8 @@ impl BodyOrientation {
 
         mat3_mul(
             mat3_mul(
-                r3(std::f64::consts::FRAC_PI_2 + ra),
-                r1(std::f64::consts::FRAC_PI_2 - dec),
+                r3(-(std::f64::consts::FRAC_PI_2 + ra)),
+                r1(-(std::f64::consts::FRAC_PI_2 - dec)),
             ),
             r3(-w),
         )
@@ -108,6 +114,12 @@ impl PckKernel {
     }
 }
 
+/// Constant plus linear term of a coefficient list.
+fn linear_at(coefficients: &[f64], time: f64) -> f64 {
+    let term = |i: usize| coefficients.get(i).copied().unwrap_or(0.0);
+    term(0) + term(1) * time
+}
+
 fn value_as_f64_array(value: &TextValue, key: &str) -> Result<Vec<f64>, SpiceError> {
     match value {
         TextValue::Integer(number) => Ok(vec![*number as f64]),
diff --git a/src/spice/context.rs b/src/spice/context.rs
index 0dd4e1f..5d507fd 100644
--- a/src/spice/context.rs
+++ b/src/spice/context.rs
@@ -20,6 +20,9 @@ use crate::formats::spice::{
 
 use super::{FrameRegistry, KernelSet, SpiceContextError};
 
+/// Longest chain of fixed-offset frames followed towards J2000.
+const MAX_FRAME_CHAIN: usize = 64;
+
 /// High-level SPICE kernel context.
 ///
 /// `SpiceContext` owns a [`KernelSet`] and a [`FrameRegistry`]. It is the main
@@ -164,8 +167,8 @@ impl SpiceContext {
         if from_id == to_id {
             return Ok(identity_3x3());
         }
-        let from_to_j2000 = self.frame_to_j2000(from_id, epoch_tdb_s)?;
-        let to_to_j2000 = self.frame_to_j2000(to_id, epoch_tdb_s)?;
+        let from_to_j2000 = self.frame_to_j2000(from_id, epoch_tdb_s, MAX_FRAME_CHAIN)?;
+        let to_to_j2000 = self.frame_to_j2000(to_id, epoch_tdb_s, MAX_FRAME_CHAIN)?;
         Ok(mat3_mul(mat3_transpose(to_to_j2000), from_to_j2000))
     }
 
@@ -231,10 +234,16 @@ impl SpiceContext {
         &self,
         frame_id: i32,
         epoch_tdb_s: f64,
+        links_left: usize,
     ) -> Result<[[f64; 3]; 3], SpiceContextError> {
         if frame_id == 1 {
             return Ok(identity_3x3());
         }
+        if links_left == 0 {
+            return Err(SpiceContextError::UnknownFrame {
+                description: format!("frame ID {frame_id}: base-frame chain does not reach J2000"),
+            });
+        }
 
         let spec = self
             .frame_registry
@@ -246,7 +255,8 @@ impl SpiceContext {
                 .frame_registry
                 .frame_by_name(relative_name)
                 .map_err(spice_error_to_context)?;
-            let relative_to_j2000 = self.frame_to_j2000(relative.id, epoch_tdb_s)?;
+            let relative_to_j2000 =
+                self.frame_to_j2000(relative.id, epoch_tdb_s, links_left - 1)?;
             return Ok(mat3_mul(relative_to_j2000, *matrix));
         }
 
@@ -272,7 +282,7 @@ impl SpiceContext {
         epoch_tdb_s: f64,
     ) -> Result<[[f64; 3]; 3], SpiceContextError> {
         for pck in self.kernel_set.pck_text_kernels().rev() {
-            if let Some(orientation) = pck.body(body_id) {
+            if let Some(orientation) = pck.body(body_id).filter(|body| body.has_orientation()) {
                 return Ok(orientation.rotation_to_j2000(epoch_tdb_s));
             }
         }
-- 
2.43.0


From a4f285813958ef2bff22b746587651c6f99b59a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 48/77] fix: lunar spectral radiance was finite for infinite
 phase angles and wavelengths

---
 src/event/lunar/photometry.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/event/lunar/photometry.rs b/src/event/lunar/photometry.rs
index e1e575a..c746b0c 100644
--- a/src/event/lunar/photometry.rs
+++ b/src/event/lunar/photometry.rs
@@ -124,7 +124,13 @@ pub fn reflected_lunar_spectral_radiance_jones2013(
     moon_distance: Kilometers,
 ) -> WattsPerSquareMeterSteradianNanometer {
     let distance = moon_distance.value();
-    if !solar_irradiance_w_m2_nm.is_finite() || !distance.is_finite() || distance <= 0.0 {
+    let inputs = [
+        solar_irradiance_w_m2_nm,
+        wavelength.value(),
+        phase_angle.value(),
+        distance,
+    ];
+    if inputs.iter().any(|x| !x.is_finite()) || distance <= 0.0 {
         return WattsPerSquareMeterSteradianNanometer::new(f64::NAN);
     }
     let albedo = lunar_albedo_jones2013(phase_angle, wavelength).value();
-- 
2.43.0


From c31a0c35adc4ac1431552722563daab4dd0006af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 49/77] fix: read and write UTC leap-second epochs in SP3,
 RINEX, CPF and CRD files

---
 src/formats/mod.rs       | 19 ++++++++++++++-----
 src/formats/rinex/nav.rs |  2 +-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/formats/mod.rs b/src/formats/mod.rs
index 32b9a07..778d1dc 100644
--- a/src/formats/mod.rs
+++ b/src/formats/mod.rs
@@ -51,11 +51,19 @@ pub(crate) fn civil_to_utc(
     minute: u32,
     second: f64,
 ) -> Option<tempoch::Time<tempoch::UTC>> {
+    let date = chrono::NaiveDate::from_ymd_opt(year, month, day)?;
+    // 23:59:60 is valid on the days a leap second was inserted; the conversion
+    // to `Time` refuses it on any other.
+    if (60.0..61.0).contains(&second) && (hour, minute) == (23, 59) {
+        let nanos = ((second - 59.0) * 1e9).round().min(1_999_999_999.0);
+        let naive = date.and_hms_nano_opt(hour, minute, 59, nanos as u32)?;
+        let instant = chrono::DateTime::from_naive_utc_and_offset(naive, chrono::Utc);
+        return tempoch::Time::<tempoch::UTC>::try_from_chrono(instant).ok();
+    }
     if !(0.0..60.0).contains(&second) {
         return None;
     }
-    let minute_start =
-        chrono::NaiveDate::from_ymd_opt(year, month, day)?.and_hms_opt(hour, minute, 0)?;
+    let minute_start = date.and_hms_opt(hour, minute, 0)?;
     let nanos = chrono::Duration::nanoseconds((second * 1e9).round() as i64);
     let naive = minute_start.checked_add_signed(nanos)?;
     let instant = chrono::DateTime::from_naive_utc_and_offset(naive, chrono::Utc);
@@ -70,17 +78,18 @@ pub(crate) fn civil_date_sod_to_utc(
     second_of_day: f64,
 ) -> Option<tempoch::Time<tempoch::UTC>> {
     use chrono::Datelike;
-    if !(0.0..86_400.0).contains(&second_of_day) {
+    if !(0.0..86_401.0).contains(&second_of_day) {
         return None;
     }
-    let minute_of_day = (second_of_day / 60.0) as u32;
+    // An inserted leap second belongs to the last minute of its day.
+    let minute_of_day = ((second_of_day / 60.0) as u32).min(1439);
     civil_to_utc(
         date.year(),
         date.month(),
         date.day(),
         minute_of_day / 60,
         minute_of_day % 60,
-        second_of_day % 60.0,
+        second_of_day - f64::from(minute_of_day * 60),
     )
 }
 
diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index f2b447c..1057780 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -549,7 +549,7 @@ pub fn write_rinex_nav<W: Write>(w: &mut W, file: &RinexNavFile) -> Result<(), F
             dt.day(),
             dt.hour(),
             dt.minute(),
-            dt.second(),
+            dt.second() + dt.nanosecond() / 1_000_000_000,
             fmt_d(r.af0.value()),
             fmt_d(r.af1),
             fmt_d(r.af2),
-- 
2.43.0


From 6b87fbcd5d0be45410b9e83c98a55ad5eb387c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:18 +0000
Subject: [PATCH 50/77] fix: EOP C04 reader panicked on impossible day numbers
 and accepted non-finite values

---
 src/formats/iers/eop.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/formats/iers/eop.rs b/src/formats/iers/eop.rs
index b1e1798..580de90 100644
--- a/src/formats/iers/eop.rs
+++ b/src/formats/iers/eop.rs
@@ -85,9 +85,10 @@ pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
         {
             continue;
         }
+        // A day number no calendar date has (1e308, infinity) is not an MJD.
         let mjd_raw: f64 = match parts[3].parse() {
-            Ok(v) => v,
-            Err(_) => continue,
+            Ok(v) if (-1e9..=1e9).contains(&v) => v,
+            _ => continue,
         };
         let mjd = match ModifiedJulianDate::<UTC>::try_new(Day::new(mjd_raw)) {
             Ok(m) => m,
@@ -96,7 +97,11 @@ pub fn read_eop_c04<R: Read>(rdr: R) -> Result<Vec<EopRecord>, FormatError> {
         let field = |index: usize| -> Result<f64, FormatError> {
             parts[index]
                 .parse()
-                .map_err(|_| FormatError::Format(format!("eop_c04: invalid value in row: {line}")))
+                .ok()
+                .filter(|value: &f64| value.is_finite())
+                .ok_or_else(|| {
+                    FormatError::Format(format!("eop_c04: invalid value in row: {line}"))
+                })
         };
         let x = field(4)?;
         let y = field(5)?;
-- 
2.43.0


From 478323332795f590751f72a2abc16d95f77fbfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 51/77] fix: catalog cone searches missed the half angle in
 declination (stars up to 30 degrees outside were returned)

---
 src/catalogs/record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalogs/record.rs b/src/catalogs/record.rs
index fe25b16..eecc670 100644
--- a/src/catalogs/record.rs
+++ b/src/catalogs/record.rs
@@ -106,9 +106,9 @@ pub(super) fn inside_cone(
     radius: Radians,
 ) -> bool {
     let d_ra = ra.value() - c_ra.value();
-    let s = (dec.value() - c_dec.value()).sin();
+    let s1 = ((dec.value() - c_dec.value()) / 2.0).sin();
     let s2 = (d_ra / 2.0).sin();
-    let a = (s / 2.0).powi(2) + dec.value().cos() * c_dec.value().cos() * s2 * s2;
+    let a = s1 * s1 + dec.value().cos() * c_dec.value().cos() * s2 * s2;
     let c = 2.0 * a.sqrt().min(1.0).asin();
     c <= radius.value()
 }
-- 
2.43.0


From f0135e3115e0e15fd74d040e2363053d264f9d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:20 +0000
Subject: [PATCH 52/77] fix: terrain masks with azimuths outside [0, 2pi) were
 left unsorted and lost samples

---
 src/mission/geometry/terrain_mask.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mission/geometry/terrain_mask.rs b/src/mission/geometry/terrain_mask.rs
index 4d31e4d..bd822a2 100644
--- a/src/mission/geometry/terrain_mask.rs
+++ b/src/mission/geometry/terrain_mask.rs
@@ -19,13 +19,13 @@ pub struct TerrainMask {
 impl TerrainMask {
     /// Build a terrain mask from `(azimuth, elevation)` samples. Empty
     /// inputs produce a flat zero mask.
-    pub fn new(mut samples: Vec<(Radians, Radians)>) -> Self {
-        samples.sort_by(|a, b| a.0.value().partial_cmp(&b.0.value()).unwrap());
-        let s = samples
+    pub fn new(samples: Vec<(Radians, Radians)>) -> Self {
+        let mut samples: Vec<(f64, f64)> = samples
             .into_iter()
             .map(|(a, e)| (a.value().rem_euclid(core::f64::consts::TAU), e.value()))
             .collect();
-        Self { samples: s }
+        samples.sort_by(|a, b| a.0.total_cmp(&b.0));
+        Self { samples }
     }
 
     /// Elevation of the mask at the supplied azimuth.
-- 
2.43.0


From 046921468fd706f22c5ae76c8ad857853661fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:05 +0000
Subject: [PATCH 53/77] fix: apparent radii in occultation geometry used the
 arctangent, shrinking a low orbit's Earth shadow

---
 src/mission/geometry/occultation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mission/geometry/occultation.rs b/src/mission/geometry/occultation.rs
index b7463e6..181f63d 100644
--- a/src/mission/geometry/occultation.rs
+++ b/src/mission/geometry/occultation.rs
@@ -68,8 +68,9 @@ where
     if nt == 0.0 || no == 0.0 {
         return 0.0;
     }
-    let app_t = (tr / nt).atan(); // angular radius of target
-    let app_o = (or_ / no).atan(); // angular radius of occulter
+    // A sphere of radius R at distance d subtends an angular radius asin(R/d).
+    let app_t = (tr / nt).min(1.0).asin(); // angular radius of target
+    let app_o = (or_ / no).min(1.0).asin(); // angular radius of occulter
     let cos_sep = d_t.dot(&d_o).value() / (nt * no);
     let sep = cos_sep.clamp(-1.0, 1.0).acos();
     // Apparent target area
-- 
2.43.0


From 993ed681a211a7b703169c98a1282b891f38738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 54/77] fix: sky grids whose azimuth step divides the circle
 into n+1/2 cells emitted a cell at azimuth 360

---
 src/coordinates/sampling.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinates/sampling.rs b/src/coordinates/sampling.rs
index dbf7278..0ca81a2 100644
--- a/src/coordinates/sampling.rs
+++ b/src/coordinates/sampling.rs
@@ -219,7 +219,9 @@ impl SkyGrid {
         if self.az_step <= Degrees::new(0.0) {
             return 0;
         }
-        (Degrees::new(360.0) / self.az_step).round() as usize
+        // Round half down: a tie rounded up would put the last cell centre at 360°.
+        let n: f64 = Degrees::new(360.0) / self.az_step;
+        (n - 0.5).ceil() as usize
     }
 
     fn n_az_equal_area(&self, alt_center: Degrees) -> usize {
-- 
2.43.0


From 571eff2a3ab45aa77148e86544db488c79227e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 55/77] fix: PlanetBuilder::build_unchecked dropped the albedo

---
 src/bodies/planets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bodies/planets.rs b/src/bodies/planets.rs
index 87b9ac2..8bf57fc 100644
--- a/src/bodies/planets.rs
+++ b/src/bodies/planets.rs
@@ -187,7 +187,7 @@ impl PlanetBuilder {
                 mass,
                 radius,
                 orbit,
-                albedo: None,
+                albedo: self.albedo,
             },
             _ => panic!("PlanetBuilder::build_unchecked called with missing fields"),
         }
-- 
2.43.0


From bb92c412a3fdd022b554caeeccd423ae3736c805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 56/77] fix: Sun declination of -345 degrees and Sun-Earth L2
 placed on the far side of the Sun

---
 src/bodies/solar_system.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bodies/solar_system.rs b/src/bodies/solar_system.rs
index 6b4f470..dc706cf 100644
--- a/src/bodies/solar_system.rs
+++ b/src/bodies/solar_system.rs
@@ -234,7 +234,7 @@ pub const SUN: super::Star<'static> = super::Star::new_const(
     L_SUN,
     CoordinateWithPM::<EquatorialMeanJ2000<LightYear>>::new_static(
         EquatorialMeanJ2000::<LightYear>::new_unchecked(
-            HourAngles::from_hms(-23, 0, 0.0).to_const::<Degree>(), // Dec (polar) Approx at J2000
+            Degrees::new(-23.0), // Dec (polar) Approx at J2000
             HourAngles::from_hms(18, 44, 48.0).to_const::<Degree>(), // RA (azimuth) Approx at J2000
             LightYears::new(1.58125e-5), // 1 AstronomicalUnits in LightYears
         ),
@@ -731,8 +731,8 @@ const SUN_EARTH_L2: LagrangePoint = LagrangePoint {
     name: "Sun–Earth L2",
     parent_system: "Sun–Earth",
     position: EclipticMeanJ2000::<AstronomicalUnit>::new_unchecked(
-        Degrees::new(0.0),   // lat (polar)
-        Degrees::new(180.0), // lon (azimuth)
+        Degrees::new(0.0), // lat (polar)
+        Degrees::new(0.0), // lon (azimuth)
         AstronomicalUnits::new(1.01),
     ),
 };
-- 
2.43.0


From 784318737c9aafe8666ded1631162727e2eb6d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 57/77] fix: Hale-Bopp semi-major axis digit and Halley mean
 anomaly referred to J2000

---
 src/bodies/comet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bodies/comet.rs b/src/bodies/comet.rs
index c013212..eddf751 100644
--- a/src/bodies/comet.rs
+++ b/src/bodies/comet.rs
@@ -169,7 +169,8 @@ pub const HALLEY: Comet = Comet::new_const(
         Degrees::new(162.262_69),
         Degrees::new(58.42008),
         Degrees::new(111.33249),
-        Degrees::new(38.384),
+        // SBDB mean anomaly 38.384° is for JD 2449400.5; moved to J2000 here.
+        Degrees::new(66.448),
         crate::J2000,
     ),
     OrbitFrame::Heliocentric,
@@ -196,7 +197,7 @@ pub const HALE_BOPP: Comet = Comet::new_const(
     "C/1995 O1 (Hale‑Bopp)",
     Kilometers::new(1.0e8),
     KeplerianOrbit::new(
-        AstronomicalUnits::new(286.538),
+        AstronomicalUnits::new(186.538),
         0.995_086,
         Degrees::new(89.425),
         Degrees::new(282.472),
-- 
2.43.0


From 61b96405ea93cd0ff4005133ac47d1da39dee21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:53 +0000
Subject: [PATCH 58/77] fix: C horizontal transforms returned altitude and
 azimuth swapped

---
 siderust-ffi/src/coordinates.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/siderust-ffi/src/coordinates.rs b/siderust-ffi/src/coordinates.rs
index ec63a04..54d104f 100644
--- a/siderust-ffi/src/coordinates.rs
+++ b/siderust-ffi/src/coordinates.rs
@@ -333,7 +333,7 @@ pub extern "C" fn siderust_spherical_dir_to_horizontal(
         }
 
         let site = observer.to_rust();
-        let (az, alt) = match with_spherical_dir_in_frame!(
+        let (alt, az) = match with_spherical_dir_in_frame!(
             src_frame,
             polar_deg,
             azimuth_deg,
@@ -373,7 +373,7 @@ pub extern "C" fn siderust_spherical_dir_to_horizontal_precise(
         }
 
         let site = observer.to_rust();
-        let (az, alt) = match with_spherical_dir_in_frame!(
+        let (alt, az) = match with_spherical_dir_in_frame!(
             src_frame,
             polar_deg,
             azimuth_deg,
@@ -423,7 +423,7 @@ pub extern "C" fn siderust_spherical_dir_to_horizontal_precise_with_context(
         };
 
         let site = observer.to_rust();
-        let (az, alt) = match with_spherical_dir_in_frame!(
+        let (alt, az) = match with_spherical_dir_in_frame!(
             src_frame,
             polar_deg,
             azimuth_deg,
-- 
2.43.0


From 73fce66fe77707c5be2eac4aa95b0d8773396926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 59/77] fix: C orbit position functions accepted elements that
 are no ellipse

---
 siderust-ffi/src/coordinates.rs |  6 +++---
 siderust-ffi/src/types.rs       | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/siderust-ffi/src/coordinates.rs b/siderust-ffi/src/coordinates.rs
index 54d104f..5be1a0a 100644
--- a/siderust-ffi/src/coordinates.rs
+++ b/siderust-ffi/src/coordinates.rs
@@ -1095,7 +1095,7 @@ pub extern "C" fn siderust_kepler_position_ex(
             Some(c) => c,
             None => return SiderustStatus::InvalidCenter,
         };
-        let orbit = ffi_try!(orbit.try_to_rust());
+        let orbit = ffi_try!(orbit.try_to_rust_validated());
         let pos = orbit.kepler_position(ffi_try!(crate::ffi_utils::jd_from_f64(jd)));
         write_ecliptic_au_position(out, pos, center);
         SiderustStatus::Ok
@@ -1261,7 +1261,7 @@ pub extern "C" fn siderust_to_bodycentric(
         };
 
         // Keplerian position of the body in its own orbit's reference center
-        let orbit = ffi_try!(params.orbit.try_to_rust());
+        let orbit = ffi_try!(params.orbit.try_to_rust_validated());
         let body_kep = orbit.kepler_position(ffi_try!(crate::ffi_utils::jd_from_f64(jd)));
         let (bkx, bky, bkz) = (
             body_kep.x().value(),
@@ -1311,7 +1311,7 @@ pub extern "C" fn siderust_from_bodycentric(
         }
 
         // Keplerian position of the body in its own orbit's reference center
-        let orbit = ffi_try!(params.orbit.try_to_rust());
+        let orbit = ffi_try!(params.orbit.try_to_rust_validated());
         let body_kep = orbit.kepler_position(ffi_try!(crate::ffi_utils::jd_from_f64(jd)));
         let (bkx, bky, bkz) = (
             body_kep.x().value(),
diff --git a/siderust-ffi/src/types.rs b/siderust-ffi/src/types.rs
index 3dc43cf..22cef35 100644
--- a/siderust-ffi/src/types.rs
+++ b/siderust-ffi/src/types.rs
@@ -502,6 +502,24 @@ impl SiderustOrbit {
         ))
     }
 
+    /// Convert to the Rust domain type, rejecting elements that do not describe
+    /// an elliptic orbit and non-finite values.
+    pub fn try_to_rust_validated(
+        &self,
+    ) -> Result<siderust::astro::orbit::KeplerianOrbit, SiderustStatus> {
+        siderust::astro::orbit::KeplerianOrbit::try_new(
+            AstronomicalUnits::new(self.semi_major_axis_au),
+            self.eccentricity,
+            Degrees::new(self.inclination_deg),
+            Degrees::new(self.lon_ascending_node_deg),
+            Degrees::new(self.arg_periapsis_deg),
+            Degrees::new(self.mean_anomaly_deg),
+            crate::ffi_utils::jd_from_f64(self.epoch_jd)?,
+        )
+        .map_err(|_| SiderustStatus::InvalidArgument)?;
+        self.try_to_rust()
+    }
+
     /// Create from the Rust domain type.
     pub fn from_rust(o: &siderust::astro::orbit::KeplerianOrbit) -> Self {
         Self {
-- 
2.43.0


From f36ea310df02ef0089ce23ace8c405cbb9f02376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:19 +0000
Subject: [PATCH 60/77] fix: C lunar phase searches accepted a non-finite or
 non-positive tolerance

---
 siderust-ffi/src/phase.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/siderust-ffi/src/phase.rs b/siderust-ffi/src/phase.rs
index d25d50a..4507c86 100644
--- a/siderust-ffi/src/phase.rs
+++ b/siderust-ffi/src/phase.rs
@@ -8,7 +8,6 @@ use crate::error::SiderustStatus;
 use crate::ffi_utils::{free_boxed_slice, vec_to_c};
 use crate::types::*;
 use qtty::angular::Radians;
-use qtty::time::Days;
 use qtty::unit::Degree;
 use qtty::*;
 use siderust::ephemeris::Vsop87Ephemeris;
@@ -43,11 +42,11 @@ fn phase_kind_from_rust(k: PhaseKind) -> SiderustPhaseKind {
     }
 }
 
-fn search_opts_to_phase(opts: SiderustSearchOpts) -> PhaseSearchOpts {
-    PhaseSearchOpts {
-        time_tolerance: Days::new(opts.time_tolerance_days),
+fn search_opts_to_phase(opts: SiderustSearchOpts) -> Result<PhaseSearchOpts, SiderustStatus> {
+    Ok(PhaseSearchOpts {
+        time_tolerance: opts.try_to_rust()?.time_tolerance,
         scan_step: PhaseSearchOpts::default().scan_step,
-    }
+    })
 }
 
 // ═══════════════════════════════════════════════════════════════════════════
@@ -159,7 +158,8 @@ pub extern "C" fn siderust_find_phase_events(
             Ok(w) => w,
             Err(e) => return e,
         };
-        let events = find_phase_events::<Vsop87Ephemeris>(window, search_opts_to_phase(opts));
+        let opts = ffi_try!(search_opts_to_phase(opts));
+        let events = find_phase_events::<Vsop87Ephemeris>(window, opts);
         vec_to_c(
             events,
             |e| SiderustPhaseEvent {
@@ -192,11 +192,12 @@ pub extern "C" fn siderust_moon_illumination_above(
             Ok(w) => w,
             Err(e) => return e,
         };
+        let opts = ffi_try!(search_opts_to_phase(opts));
         periods_to_c(
             illumination_above::<Vsop87Ephemeris>(
                 window,
                 IlluminationFractions::new(k_min),
-                search_opts_to_phase(opts),
+                opts,
             ),
             out,
             count,
@@ -219,11 +220,12 @@ pub extern "C" fn siderust_moon_illumination_below(
             Ok(w) => w,
             Err(e) => return e,
         };
+        let opts = ffi_try!(search_opts_to_phase(opts));
         periods_to_c(
             illumination_below::<Vsop87Ephemeris>(
                 window,
                 IlluminationFractions::new(k_max),
-                search_opts_to_phase(opts),
+                opts,
             ),
             out,
             count,
@@ -247,12 +249,13 @@ pub extern "C" fn siderust_moon_illumination_range(
             Ok(w) => w,
             Err(e) => return e,
         };
+        let opts = ffi_try!(search_opts_to_phase(opts));
         periods_to_c(
             illumination_range::<Vsop87Ephemeris>(
                 window,
                 IlluminationFractions::new(k_min),
                 IlluminationFractions::new(k_max),
-                search_opts_to_phase(opts),
+                opts,
             ),
             out,
             count,
-- 
2.43.0


From 9929fc35a1b022eb86ced71207e075c2dc16ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:24 +0000
Subject: [PATCH 61/77] fix: C targets given in ICRF had latitude and longitude
 swapped

---
 siderust-ffi/src/target.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/siderust-ffi/src/target.rs b/siderust-ffi/src/target.rs
index a1dc157..9416390 100644
--- a/siderust-ffi/src/target.rs
+++ b/siderust-ffi/src/target.rs
@@ -81,8 +81,8 @@ fn icrs_direction_from_spherical_dir(
             Degrees::new(dir.polar_deg),
         )),
         SiderustFrame::ICRF => Ok(spherical::Direction::<ICRF>::new_unchecked(
-            Degrees::new(dir.azimuth_deg),
             Degrees::new(dir.polar_deg),
+            Degrees::new(dir.azimuth_deg),
         )
         .to_frame::<ICRS>(&jd)),
         SiderustFrame::EclipticMeanJ2000 => Ok(spherical::Direction::<EclipticMeanJ2000>::new(
-- 
2.43.0


From d60a5106a107ab74096be8a8d2918f3e4fc051ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:37 +0000
Subject: [PATCH 62/77] fix: SP3 position records fill the format's fixed
 columns

---
 src/formats/igs/sp3.rs | 96 +++++++++++++++++++++---------------------
 1 file changed, 49 insertions(+), 47 deletions(-)

diff --git a/src/formats/igs/sp3.rs b/src/formats/igs/sp3.rs
index 9a6a23c..095c570 100644
--- a/src/formats/igs/sp3.rs
+++ b/src/formats/igs/sp3.rs
@@ -188,33 +188,7 @@ pub fn read_sp3<R: Read>(r: R) -> Result<Sp3Record, Sp3Error> {
                 line: line_no,
                 message: "P record before any epoch".into(),
             })?;
-            // Columns are fixed-width in SP3, but split_whitespace is
-            // robust enough for the typical fixtures we ingest.
-            // Format: "PXXX  X.X         Y.Y         Z.Z         CLOCK"
-            let id = trimmed_eol
-                .get(1..4)
-                .ok_or_else(|| Sp3Error::Record {
-                    line: line_no,
-                    message: "P record too short for sat id".into(),
-                })?
-                .trim()
-                .to_string();
-            let rest: Vec<&str> = trimmed_eol[4..].split_whitespace().collect();
-            if rest.len() < 4 {
-                return Err(Sp3Error::Record {
-                    line: line_no,
-                    message: format!("P record needs 4 numeric fields, got {}", rest.len()),
-                });
-            }
-            epoch.positions.push(Sp3Position {
-                sat_id: id,
-                position: Position::<GCRS, Kilometer>::new(
-                    parse_field::<f64>(rest[0], line_no, "x")?,
-                    parse_field::<f64>(rest[1], line_no, "y")?,
-                    parse_field::<f64>(rest[2], line_no, "z")?,
-                ),
-                clock: Microseconds::new(parse_field(rest[3], line_no, "clock")?),
-            });
+            epoch.positions.push(parse_p_line(&trimmed_eol, line_no)?);
         } else if trimmed_eol.starts_with('V')
             || trimmed_eol.starts_with("EP")
             || trimmed_eol.starts_with("EV")
@@ -243,7 +217,8 @@ where
 }
 
 /// Write an SP3 record. The header lines are emitted verbatim, then each
-/// epoch as `* YYYY MM DD HH MM SS.SS...` followed by `PXXX X Y Z CLK` lines.
+/// epoch as `* YYYY MM DD HH MM SS.SS...` followed by `PXXX X Y Z CLK` lines in
+/// the format's fixed columns.
 pub fn write_sp3<W: Write>(w: &mut W, rec: &Sp3Record) -> Result<(), Sp3Error> {
     use chrono::{Datelike, Timelike};
     for h in &rec.header {
@@ -269,15 +244,23 @@ pub fn write_sp3<W: Write>(w: &mut W, rec: &Sp3Record) -> Result<(), Sp3Error> {
             second
         )?;
         for p in &e.positions {
-            writeln!(
-                w,
-                "P{:<3} {:14.6} {:14.6} {:14.6} {:14.6}",
-                p.sat_id,
+            write!(w, "P{:<3}", p.sat_id)?;
+            for value in [
                 p.position.x().value(),
                 p.position.y().value(),
                 p.position.z().value(),
-                p.clock.value()
-            )?;
+                p.clock.value(),
+            ] {
+                let field = format!("{value:14.6}");
+                if field.len() > 14 {
+                    return Err(Sp3Error::Record {
+                        line: 0,
+                        message: format!("{value} does not fit an F14.6 field"),
+                    });
+                }
+                w.write_all(field.as_bytes())?;
+            }
+            writeln!(w)?;
         }
     }
     writeln!(w, "EOF")?;
@@ -444,21 +427,40 @@ fn parse_p_line(line: &str, line_no: usize) -> Result<Sp3Position, Sp3Error> {
         })?
         .trim()
         .to_string();
-    let rest: Vec<&str> = line[4..].split_whitespace().collect();
-    if rest.len() < 4 {
-        return Err(Sp3Error::Record {
-            line: line_no,
-            message: format!("P record needs 4 numeric fields, got {}", rest.len()),
-        });
-    }
+    // The four values stand in F14.6 columns, which wide values fill so that
+    // neighbours touch; other spacing is accepted as long as it separates them.
+    let columns = || -> Option<[f64; 4]> {
+        let mut values = [0.0; 4];
+        for (i, value) in values.iter_mut().enumerate() {
+            let start = 4 + 14 * i;
+            let end = (start + 14).min(line.len());
+            *value = line.get(start..end)?.trim().parse().ok()?;
+        }
+        Some(values)
+    };
+    let separated = || -> Result<[f64; 4], Sp3Error> {
+        let rest: Vec<&str> = line[4..].split_whitespace().collect();
+        if rest.len() < 4 {
+            return Err(Sp3Error::Record {
+                line: line_no,
+                message: format!("P record needs 4 numeric fields, got {}", rest.len()),
+            });
+        }
+        Ok([
+            parse_field(rest[0], line_no, "x")?,
+            parse_field(rest[1], line_no, "y")?,
+            parse_field(rest[2], line_no, "z")?,
+            parse_field(rest[3], line_no, "clock")?,
+        ])
+    };
+    let [x, y, z, clock] = match separated() {
+        Ok(values) => values,
+        Err(e) => columns().ok_or(e)?,
+    };
     Ok(Sp3Position {
         sat_id: id,
-        position: Position::<GCRS, Kilometer>::new(
-            parse_field::<f64>(rest[0], line_no, "x")?,
-            parse_field::<f64>(rest[1], line_no, "y")?,
-            parse_field::<f64>(rest[2], line_no, "z")?,
-        ),
-        clock: Microseconds::new(parse_field(rest[3], line_no, "clock")?),
+        position: Position::<GCRS, Kilometer>::new(x, y, z),
+        clock: Microseconds::new(clock),
     })
 }
 
-- 
2.43.0


From 29d7c653e5098d20f588f15ac8464bd892ee123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 63/77] fix: SP3 product header states the epochs, time system
 and frame it carries

---
 src/pod/product/orbit.rs | 112 ++++++++++++++++++++++++++-------------
 1 file changed, 76 insertions(+), 36 deletions(-)

diff --git a/src/pod/product/orbit.rs b/src/pod/product/orbit.rs
index 5528b85..2054d5b 100644
--- a/src/pod/product/orbit.rs
+++ b/src/pod/product/orbit.rs
@@ -34,21 +34,31 @@ use crate::astro::dynamics::state::SpacecraftState;
 use crate::astro::dynamics::OrbitState;
 use crate::coordinates::frames::GCRS;
 use crate::formats::ccsds::oem::{write_oem, OemMetadata, OemState};
-use crate::formats::igs::sp3::{write_sp3, EarthCenter, Sp3Epoch, Sp3Position, Sp3Record};
+use crate::formats::igs::sp3::{
+    write_sp3, EarthCenter, Sp3Epoch, Sp3Error, Sp3Position, Sp3Record,
+};
 use crate::formats::FormatError;
-use crate::time::JulianDate;
 use affn::cartesian;
+use chrono::{DateTime, Datelike, Duration, Timelike};
 use qtty::time::Microseconds;
 use qtty::unit::Kilometer;
-use qtty::Day;
+use qtty::Second;
 use std::io::Write;
 use std::path::Path;
 use tempoch::{Time, UTC};
 
 use super::error::PodProductsError;
 
+/// Days from 1 January of year 1 (day 1) to MJD 0.
+const MJD_ZERO_FROM_CE: i64 = 678_576;
+/// MJD of 1980-01-06, the start of GPS week 0.
+const GPS_EPOCH_MJD: i64 = 44_244;
+
 /// Build an SP3 record from an in-memory state series and write it to `w`.
 ///
+/// The time tags are UTC and the positions stay in the inertial frame of the
+/// states; the header says so.
+///
 /// # Examples
 ///
 /// ```
@@ -74,50 +84,80 @@ pub fn write_sp3_from_states<W: Write>(
     sat_id: &str,
     states: &[OrbitState],
 ) -> Result<(), crate::formats::igs::sp3::Sp3Error> {
-    let header = vec![
+    let epochs: Vec<Sp3Epoch> = states
+        .iter()
+        .map(|s| Sp3Epoch {
+            time: s.epoch.to_scale::<UTC>().into(),
+            positions: vec![Sp3Position {
+                sat_id: sat_id.to_string(),
+                position: cartesian::Position::<EarthCenter, GCRS, Kilometer>::new(
+                    s.position.x().value(),
+                    s.position.y().value(),
+                    s.position.z().value(),
+                ),
+                clock: Microseconds::new(999_999.999_999),
+            }],
+        })
+        .collect();
+    let interval = match states {
+        [first, second, ..] => second.epoch - first.epoch,
+        _ => Second::new(0.0),
+    };
+    let header = sp3_header(sat_id, &epochs, interval)?;
+    let rec = Sp3Record { header, epochs };
+    write_sp3(w, &rec)
+}
+
+/// Header describing the epochs: UTC time tags, GCRF positions.
+fn sp3_header(
+    sat_id: &str,
+    epochs: &[Sp3Epoch],
+    interval: Second,
+) -> Result<Vec<String>, Sp3Error> {
+    let start = match epochs.first() {
+        // Rounded to the 10 ns the epoch lines are printed with.
+        Some(e) => {
+            e.time.try_to_chrono().map_err(|err| Sp3Error::Record {
+                line: 0,
+                message: format!("epoch to chrono: {err}"),
+            })? + Duration::nanoseconds(5)
+        }
+        None => DateTime::UNIX_EPOCH,
+    };
+    let second_of_day =
+        start.num_seconds_from_midnight() as f64 + (start.nanosecond() / 10) as f64 / 1e8;
+    let mjd = i64::from(start.num_days_from_ce()) - MJD_ZERO_FROM_CE;
+    let gps_day = mjd - GPS_EPOCH_MJD;
+    Ok(vec![
+        format!(
+            "#dP{:4} {:>2} {:>2} {:>2} {:>2} {:11.8} {:7} ORBIT GCRF  HLM  POD",
+            start.year(),
+            start.month(),
+            start.day(),
+            start.hour(),
+            start.minute(),
+            start.second() as f64 + (start.nanosecond() / 10) as f64 / 1e8,
+            epochs.len()
+        ),
         format!(
-            "#dP2024  1  1  0  0  0.00000000      {:5} ORBIT IGS20 HLM  POD",
-            states.len()
+            "## {:4} {:15.8} {:14.8} {:5} {:15.13}",
+            gps_day.div_euclid(7),
+            gps_day.rem_euclid(7) as f64 * 86_400.0 + second_of_day,
+            interval.value(),
+            mjd,
+            second_of_day / 86_400.0
         ),
-        "##  2295      0.00000000   900.00000000 60310 0.0000000000000".to_string(),
         format!("+    1   {sat_id:<3}                                                     "),
         "++         5                                                                  "
             .to_string(),
-        "%c L  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc".to_string(),
+        "%c L  cc UTC ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc".to_string(),
         "%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc".to_string(),
         "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000".to_string(),
         "%f  0.0000000  0.000000000  0.00000000000  0.000000000000000".to_string(),
         "%i    0    0    0    0      0      0      0      0         0".to_string(),
         "%i    0    0    0    0      0      0      0      0         0".to_string(),
         "/* siderust orbit product".to_string(),
-    ];
-    let epochs = states
-        .iter()
-        .map(|s| {
-            // SP3 epochs are UTC; orbit states carry TT internally.
-            let epoch_utc: Time<UTC> =
-                JulianDate::try_new(Day::new(s.epoch.to::<tempoch::JD>().value()))
-                    .expect("OrbitState epoch must be finite")
-                    .to_scale::<UTC>()
-                    .into();
-            Sp3Epoch {
-                time: epoch_utc,
-                positions: vec![Sp3Position {
-                    sat_id: sat_id.to_string(),
-                    // Sp3Position.position is cartesian::Position<EarthCenter, GCRS, Kilometer>
-                    // where EarthCenter is crate::formats::igs::sp3::EarthCenter (Params = ()).
-                    position: cartesian::Position::<EarthCenter, GCRS, Kilometer>::new(
-                        s.position.x().value(),
-                        s.position.y().value(),
-                        s.position.z().value(),
-                    ),
-                    clock: Microseconds::new(999_999.999_999),
-                }],
-            }
-        })
-        .collect();
-    let rec = Sp3Record { header, epochs };
-    write_sp3(w, &rec)
+    ])
 }
 
 /// Write an OEM product from an `OrbitState` series.
-- 
2.43.0


From 42660c38161f417860013c346587986b65934840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 64/77] fix: report culminations in the first and last scan
 step of the window

---
 src/event/search/extrema.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/event/search/extrema.rs b/src/event/search/extrema.rs
index b365a30..f733bf8 100644
--- a/src/event/search/extrema.rs
+++ b/src/event/search/extrema.rs
@@ -61,6 +61,9 @@ const MAX_ITER: usize = 100;
 /// Small probe offset for classification (in the caller's time unit).
 const PROBE_EPS: Days = Days::new(1e-7);
 
+/// Length of the first and last sampling steps of a window.
+const EDGE_STEP: Days = Days::new(1e-5);
+
 // ---------------------------------------------------------------------------
 // Types
 // ---------------------------------------------------------------------------
@@ -245,28 +248,28 @@ where
         return result;
     }
 
-    let mut t0 = t_start_v;
-    let mut f0 = f(t0);
-    let mut t1 = {
-        let t_next = crate::time::ModifiedJulianDate::new((t0.raw() + step_v).value());
-        if t_next.raw() <= t_end_v.raw() {
+    // The two short edge steps expose an extremum in the first or last step,
+    // which has a neighbour on one side only.
+    let inner_end = crate::time::ModifiedJulianDate::new((t_end_v.raw() - EDGE_STEP).value());
+    let next_sample = |t: Mjd, ahead: Days| -> Mjd {
+        let t_next = crate::time::ModifiedJulianDate::new((t.raw() + ahead).value());
+        if t_next < inner_end {
             t_next
+        } else if t < inner_end {
+            inner_end
         } else {
             t_end_v
         }
     };
+
+    let mut t0 = t_start_v;
+    let mut f0 = f(t0);
+    let mut t1 = next_sample(t0, EDGE_STEP);
     let mut f1 = f(t1);
     let mut prev_rising = f1 > f0;
 
     loop {
-        let t2 = {
-            let t_next = crate::time::ModifiedJulianDate::new((t1.raw() + step_v).value());
-            if t_next.raw() <= t_end_v.raw() {
-                t_next
-            } else {
-                t_end_v
-            }
-        };
+        let t2 = next_sample(t1, step_v);
         if t2 <= t1 {
             break;
         }
-- 
2.43.0


From e6b2dcd1396ef1e4d29f66aedcc03e6b1690c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:37 +0000
Subject: [PATCH 65/77] fix: refuse to format a TLE epoch outside 1957-2056

---
 src/formats/tle/builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/formats/tle/builder.rs b/src/formats/tle/builder.rs
index 04188b4..56f3f50 100644
--- a/src/formats/tle/builder.rs
+++ b/src/formats/tle/builder.rs
@@ -405,6 +405,13 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
         frac_1e8 = 0;
         date = date.succ_opt().unwrap_or(date);
     }
+    // Two digits of the year name the century 1957-2056 only.
+    if !(1957..=2056).contains(&date.year()) {
+        return Err(TleError::EpochConversion(format!(
+            "year {} has no two-digit form",
+            date.year()
+        )));
+    }
     let yy = date.year().rem_euclid(100);
     let doy = date.ordinal();
     let n_dot = format_signed_decimal(tle.mean_motion_dot);
-- 
2.43.0


From b97766bdd69084a241409896c768067beed9441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:30 +0000
Subject: [PATCH 66/77] fix: transform a zero-length horizontal or equatorial
 vector to zero, not NaN

---
 src/coordinates/transform/frames/to_horizontal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinates/transform/frames/to_horizontal.rs b/src/coordinates/transform/frames/to_horizontal.rs
index b5833de..7536cc6 100644
--- a/src/coordinates/transform/frames/to_horizontal.rs
+++ b/src/coordinates/transform/frames/to_horizontal.rs
@@ -160,7 +160,7 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, Horizontal, U>>
             Quantity::<Radian>::new(0.0)
         };
 
-        let ra: Radians = Quantity::<Radian>::new((self.y() / r).atan2(self.x() / r));
+        let ra: Radians = Quantity::<Radian>::new(self.y().value().atan2(self.x().value()));
 
         let site_trig = SiteTrig::from_site(site);
         let (alt, az) =
@@ -200,7 +200,7 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, EquatorialMeanOfD
             Quantity::<Radian>::new(0.0)
         };
         // atan2 on Quantity<U> values - extract raw values for atan2
-        let az: Radians = Quantity::<Radian>::new((self.y() / r).atan2(self.x() / r));
+        let az: Radians = Quantity::<Radian>::new(self.y().value().atan2(self.x().value()));
 
         let site_trig = SiteTrig::from_site(site);
         let (ra, dec) = horizontal_to_equatorial_angles(alt, az, site, &site_trig, jd);
-- 
2.43.0


From d513420840273c9b2f13b779d35b701fd139527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:23 +0000
Subject: [PATCH 67/77] fix: read and write TDM data lines as the standard's
 'timetag measurement'

---
 src/formats/ccsds/tdm.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/formats/ccsds/tdm.rs b/src/formats/ccsds/tdm.rs
index bcc6624..a533057 100644
--- a/src/formats/ccsds/tdm.rs
+++ b/src/formats/ccsds/tdm.rs
@@ -176,14 +176,18 @@ pub fn read_tdm<R: Read>(reader: R) -> Result<TdmMessage, FormatError> {
                     }
                 }
                 State::Data => {
-                    // val format: "epoch : value" — split on last " : " to avoid
-                    // colons in ISO 8601 epoch strings (e.g. "2024-001T12:00:00 : 23000.0")
-                    let sep = " : ";
-                    let colon = val.rfind(sep).ok_or_else(|| {
-                        FormatError::Format(format!("TDM: data line missing ' : ': {key} = {val}"))
-                    })?;
-                    let epoch = val[..colon].trim().to_string();
-                    let value_str = val[colon + sep.len()..].trim();
+                    // "timetag measurement" (CCSDS 503.0-B-2 §3.5), or the
+                    // "timetag : measurement" form earlier versions wrote.
+                    let (epoch, value_str) = val
+                        .rsplit_once(" : ")
+                        .or_else(|| val.split_once(char::is_whitespace))
+                        .ok_or_else(|| {
+                            FormatError::Format(format!(
+                                "TDM: data line missing its measurement: {key} = {val}"
+                            ))
+                        })?;
+                    let epoch = epoch.trim().to_string();
+                    let value_str = value_str.trim();
                     let value = value_str.parse::<f64>().map_err(|_| {
                         FormatError::Format(format!("TDM: cannot parse value: {value_str:?}"))
                     })?;
@@ -288,7 +292,7 @@ pub fn write_tdm<W: Write>(w: &mut W, msg: &TdmMessage) -> Result<(), FormatErro
     for obs in &msg.observations {
         writeln!(
             w,
-            "{} = {} : {}",
+            "{} = {} {}",
             obs_type_to_keyword(&obs.obs_type),
             obs.epoch,
             obs.value
-- 
2.43.0


From 05bf3ea1ab72aa86fede2336489c595d9b24a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:40 +0000
Subject: [PATCH 68/77] fix: quote residual CSV text fields that hold a comma,
 quote or line break

---
 src/pod/product/residuals_csv.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/pod/product/residuals_csv.rs b/src/pod/product/residuals_csv.rs
index 2ce7cca..b29575b 100644
--- a/src/pod/product/residuals_csv.rs
+++ b/src/pod/product/residuals_csv.rs
@@ -29,6 +29,7 @@
 
 use super::error::PodProductsError;
 use serde::{Deserialize, Serialize};
+use std::borrow::Cow;
 use std::io::Write;
 
 /// One residual record in the standard POD column format.
@@ -125,7 +126,12 @@ impl<W: Write> ResidualCsvWriter<W> {
         writeln!(
             self.writer,
             "{:.9},{},{},{:.6},{:.6},{}",
-            r.epoch_jd_tt, r.obs_type, r.satellite, r.residual_m, r.sigma_m, r.rejected,
+            r.epoch_jd_tt,
+            csv_field(&r.obs_type),
+            csv_field(&r.satellite),
+            r.residual_m,
+            r.sigma_m,
+            r.rejected,
         )?;
         self.writer.flush()?;
         Ok(())
@@ -145,6 +151,15 @@ impl<W: Write> ResidualCsvWriter<W> {
     }
 }
 
+/// Quote a text field that holds a separator, a quote or a line break (RFC 4180).
+fn csv_field(s: &str) -> Cow<'_, str> {
+    if s.contains([',', '"', '\n', '\r']) {
+        Cow::Owned(format!("\"{}\"", s.replace('"', "\"\"")))
+    } else {
+        Cow::Borrowed(s)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 86d2df7f7986ed195e72f43d22147ccbe92cf8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:20 +0000
Subject: [PATCH 69/77] fix: drop the import the SP3 header repair left unused

---
 src/pod/product/orbit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pod/product/orbit.rs b/src/pod/product/orbit.rs
index 2054d5b..0646a5e 100644
--- a/src/pod/product/orbit.rs
+++ b/src/pod/product/orbit.rs
@@ -45,7 +45,7 @@ use qtty::unit::Kilometer;
 use qtty::Second;
 use std::io::Write;
 use std::path::Path;
-use tempoch::{Time, UTC};
+use tempoch::UTC;
 
 use super::error::PodProductsError;
 
-- 
2.43.0


From fee828ea9d3aec400b911deab3c0947b0a3cc886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:44 +0000
Subject: [PATCH 70/77] fix: refuse OMM documents whose TIME_SYSTEM is not UTC

---
 src/formats/tle/omm/json.rs |  6 +++++-
 src/formats/tle/omm/kvn.rs  |  4 +++-
 src/formats/tle/omm/mod.rs  | 14 ++++++++++++++
 src/formats/tle/omm/xml.rs  |  4 +++-
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/formats/tle/omm/json.rs b/src/formats/tle/omm/json.rs
index 020c6df..cff75ee 100644
--- a/src/formats/tle/omm/json.rs
+++ b/src/formats/tle/omm/json.rs
@@ -9,7 +9,7 @@ use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 use serde::{Deserialize, Serialize};
 
-use super::{format_epoch, parse_epoch, Omm};
+use super::{format_epoch, parse_epoch, require_utc, Omm};
 use crate::formats::tle::TleError;
 use crate::formats::tle::{Classification, SatelliteNumber};
 
@@ -119,6 +119,8 @@ struct OmmDto {
     MEAN_MOTION_DDOT: f64,
     #[serde(default)]
     MEAN_ELEMENT_THEORY: Option<String>,
+    #[serde(default, skip_serializing)]
+    TIME_SYSTEM: Option<String>,
 }
 
 fn default_classification() -> String {
@@ -146,6 +148,7 @@ impl OmmDto {
             MEAN_MOTION_DOT: omm.mean_motion_dot,
             MEAN_MOTION_DDOT: omm.mean_motion_ddot,
             MEAN_ELEMENT_THEORY: Some("SGP4".to_string()),
+            TIME_SYSTEM: None,
         })
     }
 
@@ -155,6 +158,7 @@ impl OmmDto {
                 return Err(TleError::OmmUnsupportedTheory(t.clone()));
             }
         }
+        require_utc(self.TIME_SYSTEM.as_deref())?;
         let cls_char = self.CLASSIFICATION_TYPE.chars().next().unwrap_or('U');
         Ok(Omm {
             object_name: self.OBJECT_NAME,
diff --git a/src/formats/tle/omm/kvn.rs b/src/formats/tle/omm/kvn.rs
index 4ea88e4..9ea7684 100644
--- a/src/formats/tle/omm/kvn.rs
+++ b/src/formats/tle/omm/kvn.rs
@@ -8,7 +8,7 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, opt, parse_epoch, parse_norad_cat_id, unsigned, Omm};
+use super::{format_epoch, opt, parse_epoch, parse_norad_cat_id, require_utc, unsigned, Omm};
 use crate::formats::tle::Classification;
 use crate::formats::tle::TleError;
 
@@ -119,6 +119,8 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         return Err(TleError::OmmUnsupportedTheory(theory.to_string()));
     }
 
+    require_utc(kv.get("TIME_SYSTEM").map(String::as_str))?;
+
     let get = |k: &'static str| -> Result<&String, TleError> {
         kv.get(k).ok_or(TleError::OmmMissingField(k))
     };
diff --git a/src/formats/tle/omm/mod.rs b/src/formats/tle/omm/mod.rs
index 8dbf2cd..ab7b38a 100644
--- a/src/formats/tle/omm/mod.rs
+++ b/src/formats/tle/omm/mod.rs
@@ -240,6 +240,20 @@ pub(crate) fn parse_norad_cat_id(raw: &str) -> Result<SatelliteNumber, TleError>
     }
 }
 
+/// OMM epochs are read as UTC: refuse a document that declares another time
+/// system.
+pub(crate) fn require_utc(time_system: Option<&str>) -> Result<(), TleError> {
+    match time_system {
+        Some(system) if !system.trim().eq_ignore_ascii_case("UTC") => {
+            Err(TleError::OmmInvalidEpoch {
+                raw: system.to_string(),
+                reason: "epoch is not in UTC",
+            })
+        }
+        _ => Ok(()),
+    }
+}
+
 /// Format a [`Time<UTC>`] as the ISO-8601 fractional-second OMM epoch.
 pub(crate) fn format_epoch(t: Time<UTC>) -> Result<String, TleError> {
     let dt = t
diff --git a/src/formats/tle/omm/xml.rs b/src/formats/tle/omm/xml.rs
index 5c5674d..b6472ec 100644
--- a/src/formats/tle/omm/xml.rs
+++ b/src/formats/tle/omm/xml.rs
@@ -13,7 +13,7 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, opt, parse_epoch, parse_norad_cat_id, unsigned, Omm};
+use super::{format_epoch, opt, parse_epoch, parse_norad_cat_id, require_utc, unsigned, Omm};
 use crate::formats::tle::Classification;
 use crate::formats::tle::TleError;
 
@@ -114,6 +114,8 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
         return Err(TleError::OmmUnsupportedTheory(theory.to_string()));
     }
 
+    require_utc(kv.get("TIME_SYSTEM").map(String::as_str))?;
+
     let get = |k: &'static str| -> Result<&String, TleError> {
         kv.get(k).ok_or(TleError::OmmMissingField(k))
     };
-- 
2.43.0


From cd69bc00a91a11e8c539a30db8c54db25ccaaeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:08 +0000
Subject: [PATCH 71/77] fix: read OPM values that carry their unit in brackets

---
 src/formats/ccsds/opm.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/formats/ccsds/opm.rs b/src/formats/ccsds/opm.rs
index 48b7912..3c6ca05 100644
--- a/src/formats/ccsds/opm.rs
+++ b/src/formats/ccsds/opm.rs
@@ -202,7 +202,20 @@ pub fn read_opm<R: Read>(reader: R) -> Result<OpmMessage, FormatError> {
         let v = kv
             .get(k)
             .ok_or_else(|| FormatError::Format(format!("OPM: missing field {k}")))?;
-        v.parse::<f64>()
+        // The value may be followed by its unit in square brackets.
+        let unit = match k {
+            "X" | "Y" | "Z" | "SEMI_MAJOR_AXIS" => "km",
+            "X_DOT" | "Y_DOT" | "Z_DOT" => "km/s",
+            "ECCENTRICITY" => "",
+            _ => "deg",
+        };
+        let number = v
+            .strip_suffix(']')
+            .and_then(|s| s.strip_suffix(unit))
+            .and_then(|s| s.strip_suffix('['))
+            .map_or(v.as_str(), str::trim_end);
+        number
+            .parse::<f64>()
             .map_err(|_| FormatError::Format(format!("OPM: cannot parse {k}={v:?}")))
     };
 
-- 
2.43.0


From 06bdd73800df08f7728aa03bb9debc9ef9714a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:08 +0000
Subject: [PATCH 72/77] fix: read OMM values that carry their unit

---
 src/formats/tle/omm/kvn.rs | 12 ++++++++++--
 src/formats/tle/omm/mod.rs | 13 +++++++++++++
 src/formats/tle/omm/xml.rs | 28 +++++++++++++++++++++-------
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/formats/tle/omm/kvn.rs b/src/formats/tle/omm/kvn.rs
index 9ea7684..c00c634 100644
--- a/src/formats/tle/omm/kvn.rs
+++ b/src/formats/tle/omm/kvn.rs
@@ -8,7 +8,9 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, opt, parse_epoch, parse_norad_cat_id, require_utc, unsigned, Omm};
+use super::{
+    format_epoch, opt, parse_epoch, parse_norad_cat_id, require_utc, standard_unit, unsigned, Omm,
+};
 use crate::formats::tle::Classification;
 use crate::formats::tle::TleError;
 
@@ -126,7 +128,13 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
     };
     let getf = |k: &'static str| -> Result<f64, TleError> {
         let v = get(k)?;
-        v.parse::<f64>().map_err(|_| TleError::OmmMalformed {
+        // The value may be followed by its unit in square brackets.
+        let number = v
+            .strip_suffix(']')
+            .and_then(|s| s.strip_suffix(standard_unit(k)))
+            .and_then(|s| s.strip_suffix('['))
+            .map_or(v.as_str(), str::trim_end);
+        number.parse::<f64>().map_err(|_| TleError::OmmMalformed {
             format: "KVN",
             reason: format!("{k}={v:?} is not a float"),
         })
diff --git a/src/formats/tle/omm/mod.rs b/src/formats/tle/omm/mod.rs
index ab7b38a..a574dea 100644
--- a/src/formats/tle/omm/mod.rs
+++ b/src/formats/tle/omm/mod.rs
@@ -240,6 +240,19 @@ pub(crate) fn parse_norad_cat_id(raw: &str) -> Result<SatelliteNumber, TleError>
     }
 }
 
+/// Unit the CCSDS standard prescribes for an OMM keyword, as documents may
+/// print it (`[deg]` after a KVN value, a `units` attribute in XML).
+pub(crate) fn standard_unit(key: &str) -> &'static str {
+    match key {
+        "MEAN_MOTION" => "rev/day",
+        "INCLINATION" | "RA_OF_ASC_NODE" | "ARG_OF_PERICENTER" | "MEAN_ANOMALY" => "deg",
+        "BSTAR" => "1/ER",
+        "MEAN_MOTION_DOT" => "rev/day**2",
+        "MEAN_MOTION_DDOT" => "rev/day**3",
+        _ => "",
+    }
+}
+
 /// OMM epochs are read as UTC: refuse a document that declares another time
 /// system.
 pub(crate) fn require_utc(time_system: Option<&str>) -> Result<(), TleError> {
diff --git a/src/formats/tle/omm/xml.rs b/src/formats/tle/omm/xml.rs
index b6472ec..386acf9 100644
--- a/src/formats/tle/omm/xml.rs
+++ b/src/formats/tle/omm/xml.rs
@@ -13,7 +13,9 @@ use qtty::angular::Turn;
 use qtty::angular_rate::AngularRate;
 use qtty::time::Day;
 
-use super::{format_epoch, opt, parse_epoch, parse_norad_cat_id, require_utc, unsigned, Omm};
+use super::{
+    format_epoch, opt, parse_epoch, parse_norad_cat_id, require_utc, standard_unit, unsigned, Omm,
+};
 use crate::formats::tle::Classification;
 use crate::formats::tle::TleError;
 
@@ -101,7 +103,16 @@ pub fn read(input: &str) -> Result<Omm, TleError> {
     use std::collections::HashMap;
     let mut kv: HashMap<String, String> = HashMap::new();
     for tag in TLE_TAGS {
-        if let Some(v) = extract_tag(input, tag) {
+        if let Some((attributes, v)) = extract_tag(input, tag) {
+            let units = attributes
+                .strip_prefix("units=")
+                .map(|u| u.trim_matches(['"', '\'']));
+            if units.is_some_and(|u| u != standard_unit(tag)) {
+                return Err(TleError::OmmMalformed {
+                    format: "XML",
+                    reason: format!("<{tag}> is in an unsupported unit: {attributes}"),
+                });
+            }
             kv.insert((*tag).to_string(), v);
         }
     }
@@ -187,13 +198,16 @@ const TLE_TAGS: &[&str] = &[
     "MEAN_MOTION_DDOT",
 ];
 
-fn extract_tag(input: &str, tag: &str) -> Option<String> {
-    let open = format!("<{tag}>");
+fn extract_tag(input: &str, tag: &str) -> Option<(String, String)> {
+    let open = format!("<{tag}");
     let close = format!("</{tag}>");
-    let i = input.find(&open)?;
-    let after = &input[i + open.len()..];
+    let (attributes, after) = input
+        .match_indices(&open)
+        .map(|(i, _)| &input[i + open.len()..])
+        .find(|rest| rest.starts_with(|c: char| c == '>' || c.is_whitespace()))?
+        .split_once('>')?;
     let j = after.find(&close)?;
-    Some(after[..j].trim().to_string())
+    Some((attributes.trim().to_string(), after[..j].trim().to_string()))
 }
 
 fn xml_escape(s: &str) -> String {
-- 
2.43.0


From 33fee82435c5c3aa81f812348b7f3141995c85ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 73/77] fix: refuse ORBEX records without a readable epoch

---
 src/formats/igs/orbex.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/formats/igs/orbex.rs b/src/formats/igs/orbex.rs
index 34ede0f..0498bb7 100644
--- a/src/formats/igs/orbex.rs
+++ b/src/formats/igs/orbex.rs
@@ -140,7 +140,7 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
     }
 
     let mut section = Section::None;
-    let mut current_epoch_mjd: Option<f64> = Some(0.0);
+    let mut current_epoch_mjd: Option<f64> = None;
 
     for (lineno, result) in buf.lines().enumerate() {
         let line = result.map_err(FormatError::Io)?;
@@ -168,20 +168,21 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
         if line.starts_with("##") {
             let rest = line.trim_start_matches('#').trim();
             let parts: Vec<&str> = rest.split_whitespace().collect();
-            if parts.len() >= 3 {
-                let epoch_mjd = match (parts[0].parse(), parts[1].parse(), parts[2].parse()) {
+            let epoch_mjd = match parts[..] {
+                [year, doy, sod, ..] => match (year.parse(), doy.parse(), sod.parse()) {
                     (Ok(year), Ok(doy), Ok(sod)) => orbex_epoch_to_mjd(year, doy, sod),
                     _ => None,
-                };
-                if epoch_mjd.is_none() && mode == ParseMode::Strict {
-                    return Err(FormatError::located(
-                        "ORBEX §3",
-                        FileLocation::at_line(lineno),
-                        format!("invalid epoch: {rest:?}"),
-                    ));
-                }
-                current_epoch_mjd = epoch_mjd;
+                },
+                _ => None,
+            };
+            if epoch_mjd.is_none() && mode == ParseMode::Strict {
+                return Err(FormatError::located(
+                    "ORBEX §3",
+                    FileLocation::at_line(lineno),
+                    format!("invalid epoch: {rest:?}"),
+                ));
             }
+            current_epoch_mjd = epoch_mjd;
             continue;
         }
 
@@ -212,8 +213,16 @@ pub fn read_orbex<R: Read>(reader: R, mode: ParseMode) -> Result<OrbexProduct, F
         if parts.is_empty() {
             continue;
         }
-        // Records under an unreadable epoch line have no epoch of their own.
+        // Records before any epoch line, or under an unreadable one, have no
+        // epoch of their own.
         let Some(current_epoch_mjd) = current_epoch_mjd else {
+            if mode == ParseMode::Strict && section != Section::None {
+                return Err(FormatError::located(
+                    "ORBEX §3",
+                    FileLocation::at_line(lineno),
+                    "record before any epoch line".to_string(),
+                ));
+            }
             continue;
         };
 
@@ -334,7 +343,7 @@ fn orbex_epoch_to_mjd(year: i32, doy: u32, sod: f64) -> Option<f64> {
     if !sod.is_finite() {
         return None;
     }
-    let epoch = chrono::NaiveDate::from_yo_opt(year, doy.max(1))?;
+    let epoch = chrono::NaiveDate::from_yo_opt(year, doy)?;
     let mjd_ref = chrono::NaiveDate::from_ymd_opt(1858, 11, 17).expect("valid MJD epoch");
     let days = (epoch - mjd_ref).num_days() as f64;
     Some(days + sod / 86400.0)
-- 
2.43.0


From 7eb140a05c8658379edeea713fafa33eded044ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:43 +0000
Subject: [PATCH 74/77] fix: RINEX observation events, crowded and damaged
 epochs were misread

---
 src/formats/rinex/obs.rs | 52 ++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index 4ca509c..9df0e76 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -149,24 +149,52 @@ pub fn read_rinex_obs<R: Read>(rdr: R) -> Result<RinexObs, FormatError> {
             continue;
         }
         let parts: Vec<&str> = trimmed.split_whitespace().collect();
-        if parts.len() < 9 {
+        // An event record may leave its epoch blank.
+        if trimmed
+            .get(1..29)
+            .is_some_and(|epoch| epoch.trim().is_empty())
+        {
+            continue;
+        }
+        let malformed = || FormatError::Format(format!("rinex_obs: malformed epoch: {trimmed}"));
+        let field = |i: usize| parts[i].parse::<u32>().map_err(|_| malformed());
+        // A count of 100 or more touches the flag before it.
+        let (flag, n_sat) = match parts.get(7) {
+            Some(flag) if parts.len() > 8 => (*flag, parts[8]),
+            Some(joined) => joined.split_at_checked(1).ok_or_else(malformed)?,
+            None => return Err(malformed()),
+        };
+        let flag: u32 = flag.parse().map_err(|_| malformed())?;
+        let n_sat: usize = n_sat.parse().map_err(|_| malformed())?;
+        let second_f: f64 = parts[6].parse().map_err(|_| malformed())?;
+        let epoch_time = civil_to_utc(
+            parts[1].parse().map_err(|_| malformed())?,
+            field(2)?,
+            field(3)?,
+            field(4)?,
+            field(5)?,
+            second_f,
+        )
+        .ok_or_else(|| FormatError::Format("rinex_obs: invalid epoch date".into()))?;
+
+        // Flags 2 to 6 announce event records, not observations.
+        if flag > 1 {
+            for _ in 0..n_sat {
+                line.clear();
+                if br.read_line(&mut line)? == 0 {
+                    break;
+                }
+            }
             continue;
         }
-        let year: i32 = parts[1].parse().unwrap_or(0);
-        let month: u32 = parts[2].parse().unwrap_or(0);
-        let day: u32 = parts[3].parse().unwrap_or(0);
-        let hour: u32 = parts[4].parse().unwrap_or(0);
-        let minute: u32 = parts[5].parse().unwrap_or(0);
-        let second_f: f64 = parts[6].parse().unwrap_or(0.0);
-        let epoch_time = civil_to_utc(year, month, day, hour, minute, second_f)
-            .ok_or_else(|| FormatError::Format("rinex_obs: invalid epoch date".into()))?;
-        let n_sat: usize = parts[8].parse().unwrap_or(0);
 
         let mut sats = HashMap::new();
         for _ in 0..n_sat {
             line.clear();
-            if br.read_line(&mut line)? == 0 {
-                break;
+            if br.read_line(&mut line)? == 0 || line.starts_with('>') {
+                return Err(FormatError::Format(
+                    "rinex_obs: epoch holds fewer satellites than announced".into(),
+                ));
             }
             let row = line.trim_end();
             let Some((sat, payload)) = row.split_at_checked(3) else {
-- 
2.43.0


From 93faa8f09da4826a8cecb3e1cfcfda295e023c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:23 +0000
Subject: [PATCH 75/77] fix: refuse ANTEX phase-centre offsets that cannot be
 read

---
 src/formats/igs/antex.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/formats/igs/antex.rs b/src/formats/igs/antex.rs
index ebadcc6..fb0fbef 100644
--- a/src/formats/igs/antex.rs
+++ b/src/formats/igs/antex.rs
@@ -95,9 +95,13 @@ pub fn read_antex<R: Read>(rdr: R) -> Result<AntexCatalog, FormatError> {
                         .split_whitespace()
                         .filter_map(|s| s.parse().ok())
                         .collect();
-                    if parts.len() == 3 {
-                        current_pcos.insert(freq.clone(), Pco::new(parts[0], parts[1], parts[2]));
-                    }
+                    let &[north, east, up] = parts.as_slice() else {
+                        return Err(FormatError::Format(format!(
+                            "antex: malformed phase-centre offset: {}",
+                            body.trim()
+                        )));
+                    };
+                    current_pcos.insert(freq.clone(), Pco::new(north, east, up));
                 }
             }
             "END OF FREQUENCY" => {
-- 
2.43.0


From 03b4ee0b0ed92fa5e850b8067369830a6ec1a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:01 +0000
Subject: [PATCH 76/77] fix: refuse SP3 satellite identifiers wider than their
 column

---
 src/formats/igs/sp3.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/formats/igs/sp3.rs b/src/formats/igs/sp3.rs
index 095c570..0d2205b 100644
--- a/src/formats/igs/sp3.rs
+++ b/src/formats/igs/sp3.rs
@@ -244,6 +244,12 @@ pub fn write_sp3<W: Write>(w: &mut W, rec: &Sp3Record) -> Result<(), Sp3Error> {
             second
         )?;
         for p in &e.positions {
+            if p.sat_id.len() > 3 {
+                return Err(Sp3Error::Record {
+                    line: 0,
+                    message: format!("{:?} does not fit an A3 field", p.sat_id),
+                });
+            }
             write!(w, "P{:<3}", p.sat_id)?;
             for value in [
                 p.position.x().value(),
-- 
2.43.0


From c9749d5c69a89e070678c6777a32979050fe2b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:08 +0000
Subject: [PATCH 77/77] fix: RINEX writers refuse values their fields cannot
 hold

---
 src/formats/rinex/nav.rs | 40 ++++++++++++++++++++++------------------
 src/formats/rinex/obs.rs | 11 ++++++++++-
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index 1057780..debdafe 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -471,14 +471,18 @@ fn numeric_fields(line: &str) -> Vec<&str> {
 
 /// Format an `f64` as a Fortran `D19.12` field (e.g. `1.234567890123D+02`),
 /// as used by RINEX NAV body lines.
-fn fmt_d(v: f64) -> String {
-    if !v.is_finite() {
-        return format!("{:>19}", "0.000000000000000D+00");
-    }
+fn fmt_d(v: f64) -> Result<String, FormatError> {
     let s = format!("{v:.12E}");
-    let (mantissa, exponent) = s.split_once('E').unwrap_or((&s, "0"));
-    let exponent: i32 = exponent.parse().unwrap_or(0);
-    format!("{:>19}", format!("{mantissa}D{exponent:+03}"))
+    let (mantissa, exponent) = s.split_once('E').unwrap_or((&s, ""));
+    let field = exponent
+        .parse::<i32>()
+        .map_or(s.clone(), |exponent| format!("{mantissa}D{exponent:+03}"));
+    if !v.is_finite() || field.len() > 19 {
+        return Err(FormatError::Format(format!(
+            "rinex_nav: {v} does not fit a D19.12 field"
+        )));
+    }
+    Ok(format!("{field:>19}"))
 }
 
 /// Write a RINEX 3.04 NAV file matching the layout consumed by
@@ -496,7 +500,7 @@ fn fmt_d(v: f64) -> String {
 /// # Errors
 ///
 /// Returns [`FormatError::Io`] on write failures and [`FormatError::Format`]
-/// on epoch projection failures.
+/// on epoch projection failures or values the fields cannot hold.
 ///
 /// # Examples
 ///
@@ -550,19 +554,19 @@ pub fn write_rinex_nav<W: Write>(w: &mut W, file: &RinexNavFile) -> Result<(), F
             dt.hour(),
             dt.minute(),
             dt.second() + dt.nanosecond() / 1_000_000_000,
-            fmt_d(r.af0.value()),
-            fmt_d(r.af1),
-            fmt_d(r.af2),
+            fmt_d(r.af0.value())?,
+            fmt_d(r.af1)?,
+            fmt_d(r.af2)?,
         )?;
-        let cont = |w: &mut W, vs: [f64; 4]| -> std::io::Result<()> {
-            writeln!(
+        let cont = |w: &mut W, vs: [f64; 4]| -> Result<(), FormatError> {
+            Ok(writeln!(
                 w,
                 "    {}{}{}{}",
-                fmt_d(vs[0]),
-                fmt_d(vs[1]),
-                fmt_d(vs[2]),
-                fmt_d(vs[3])
-            )
+                fmt_d(vs[0])?,
+                fmt_d(vs[1])?,
+                fmt_d(vs[2])?,
+                fmt_d(vs[3])?
+            )?)
         };
         cont(w, [r.iode, r.crs.value(), r.delta_n.value(), r.m0.value()])?;
         cont(w, [r.cuc.value(), r.e, r.cus.value(), r.sqrt_a])?;
diff --git a/src/formats/rinex/obs.rs b/src/formats/rinex/obs.rs
index 9df0e76..2836e7a 100644
--- a/src/formats/rinex/obs.rs
+++ b/src/formats/rinex/obs.rs
@@ -351,7 +351,16 @@ pub fn write_rinex_obs<W: Write>(w: &mut W, obs: &RinexObs) -> Result<(), Format
             let mut row = format!("{:<3}", sat);
             for ty in &types {
                 match vals.get(ty) {
-                    Some(v) => row.push_str(&format!("{:14.3}  ", v)),
+                    Some(v) => {
+                        let field = format!("{v:14.3}");
+                        if field.len() > 14 {
+                            return Err(FormatError::Format(format!(
+                                "rinex_obs: {v} does not fit an F14.3 field"
+                            )));
+                        }
+                        row.push_str(&field);
+                        row.push_str("  ");
+                    }
                     None => row.push_str(&" ".repeat(16)),
                 }
             }
-- 
2.43.0

