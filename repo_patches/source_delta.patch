From afcf2e4762154c2946bb65acb6b534c869ed29dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:38 +0000
Subject: [PATCH 1/7] fix: report a bad checksum when the checksum character is
 not a digit

A checksum character below '0' (for example a space) made the subtraction
overflow and panic in debug builds.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 496ded3..5896aab 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -640,7 +640,7 @@ impl Elements {
                     _ => accumulator,
                 })
                 % 10) as u8
-                != content[68] - b'0'
+                != content[68].wrapping_sub(b'0')
             {
                 return Err(Error {
                     what: ErrorWhat::BadChecksum,
-- 
2.43.0


From 4f4e79b8826cc8f2ec19e6a3ec0365137069498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:38 +0000
Subject: [PATCH 2/7] fix: refuse OMM ephemeris types that do not fit in a byte

Numbers above 255 were silently truncated, whereas the same value given as
a string was refused.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 5896aab..3cd0552 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -424,7 +424,7 @@ where
 {
     match serde_json::value::Value::deserialize(deserializer)? {
         serde_json::value::Value::Number(number) => match number.as_u64() {
-            Some(value) => Ok(value as u8),
+            Some(value) => u8::try_from(value).map_err(serde::de::Error::custom),
             None => Err(serde::de::Error::custom("parsing the number as u64 failed")),
         },
         serde_json::value::Value::String(string) => {
-- 
2.43.0


From 32b58e1b8ee23933103fed60dbd84a7cd56d6e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:38 +0000
Subject: [PATCH 3/7] fix: refuse to convert NaN minutes to a datetime

NaN passed both range comparisons and was converted to the epoch itself.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 3cd0552..0db3abc 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -915,7 +915,7 @@ impl Elements {
         minutes_since_epoch: &MinutesSinceEpoch,
     ) -> core::result::Result<chrono::NaiveDateTime, MinutesSinceEpochToDatetimeError> {
         let nanoseconds = minutes_since_epoch.0 * 60e9;
-        if nanoseconds > i64::MAX as f64 || nanoseconds < i64::MIN as f64 {
+        if !(i64::MIN as f64..=i64::MAX as f64).contains(&nanoseconds) {
             Err(MinutesSinceEpochToDatetimeError::MinutesToNanoseconds(
                 minutes_since_epoch.0,
             ))
-- 
2.43.0


From 60f367efb76af90f926b82597dd16621d72f1d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:38 +0000
Subject: [PATCH 4/7] fix: refuse a NaN epoch eccentricity

NaN is not in the range [0, 1[ but passed both range comparisons.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2760f85..deb9224 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -291,7 +291,7 @@ impl Constants {
         drag_term: f64,
         orbit_0: propagator::Orbit,
     ) -> core::result::Result<Self, OutOfRangeEpochEccentricity> {
-        if orbit_0.eccentricity < 0.0 || orbit_0.eccentricity >= 1.0 {
+        if !(0.0..1.0).contains(&orbit_0.eccentricity) {
             Err(OutOfRangeEpochEccentricity(orbit_0.eccentricity))
         } else {
             // p₁ = cos I₀
-- 
2.43.0


From 1526f9d542281961f482a71f50fab52230289a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:38 +0000
Subject: [PATCH 5/7] fix: return an error when the semi-latus rectum is not a
 number

The resonance integrator can drive the mean motion of near-parabolic orbits
below zero, which makes the semi-major axis NaN. The range check did not
catch it and the prediction was returned as Ok with NaN components.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index deb9224..86a57d1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -706,7 +706,7 @@ impl Constants {
 
         // pₗ = a (1 - p₃₉)
         let pl = a * (1.0 - p39);
-        if pl < 0.0 {
+        if pl < 0.0 || pl.is_nan() {
             Err(gp::Error::NegativeSemiLatusRectum { t: t.0 })
         } else {
             // p₄₀ = aₓₙ sin(E + ω) - aᵧₙ cos(E + ω)
-- 
2.43.0


From caa458d0a145a1bf2cd62845ab280a1a046799b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:38 +0000
Subject: [PATCH 6/7] fix: do not loop forever when propagating resonant orbits
 to NaN or infinity

The integrator never reached a non-finite target time. Other orbits return
an error for such times, and so do resonant ones now.
---
 src/deep_space.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/deep_space.rs b/src/deep_space.rs
index 1ff5c48..15ad7b8 100644
--- a/src/deep_space.rs
+++ b/src/deep_space.rs
@@ -181,10 +181,11 @@ impl ResonanceState {
                     )
                 }
             };
-            if (t - delta_t)
-                .partial_cmp(&self.t)
-                .unwrap_or(Ordering::Equal)
-                == ordering
+            if !t.is_finite()
+                || (t - delta_t)
+                    .partial_cmp(&self.t)
+                    .unwrap_or(Ordering::Equal)
+                    == ordering
             {
                 return (
                     // p₂₈ = (kₑ / (nᵢ + ṅᵢ (t - tᵢ) + ¹/₂ n̈ᵢ (t - tᵢ)²))²ᐟ³
-- 
2.43.0


From dc50ed5fe2817ffb3356001a040f0226912cd715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:23 +0000
Subject: [PATCH 7/7] fix: refuse OMM strings that do not hold a finite number

---
 src/tle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 0db3abc..53ca56b 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -444,7 +444,10 @@ where
             .as_f64()
             .ok_or_else(|| serde::de::Error::custom("parsing the number as f64 failed")),
         serde_json::value::Value::String(string) => {
-            string.parse().map_err(serde::de::Error::custom)
+            match string.parse::<f64>().map_err(serde::de::Error::custom)? {
+                number if number.is_finite() => Ok(number),
+                _ => Err(serde::de::Error::custom("expected a finite number")),
+            }
         }
         _ => Err(serde::de::Error::custom("expected a f64 or string")),
     }
-- 
2.43.0

