From 1e9ef3f623321e0d7a9cda7f8a2913039e80c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:57 +0000
Subject: [PATCH 01/13] fix: compare headings modulo 2*pi in configuration and
 state tests

A heading just below zero and one just above it are the same direction, but
the tests for equal, aligned and on-circle configurations subtracted the two
values in [0, 2*pi) directly. Coincident start and goal states with headings
0 and -1e-9 gave paths of several metres instead of none.
---
 src/hc_cc_state_space/configuration.cpp | 6 +++---
 src/hc_cc_state_space/hc_cc_circle.cpp  | 2 +-
 src/hc_cc_state_space/paths.cpp         | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hc_cc_state_space/configuration.cpp b/src/hc_cc_state_space/configuration.cpp
index 6dd7a4f..1f7b3e2 100644
--- a/src/hc_cc_state_space/configuration.cpp
+++ b/src/hc_cc_state_space/configuration.cpp
@@ -58,17 +58,17 @@ double configuration_distance(const Configuration &q1, const Configuration &q2)
 
 bool configuration_aligned(const Configuration &q1, const Configuration &q2)
 {
-  if (fabs(q2.theta - q1.theta) > get_epsilon())
+  if (fabs(pify(q2.theta - q1.theta)) > get_epsilon())
   {
     return false;
   }
   double angle = twopify(atan2(q2.y - q1.y, q2.x - q1.x));
-  return fabs(angle - q1.theta) <= get_epsilon();
+  return fabs(pify(angle - q1.theta)) <= get_epsilon();
 }
 
 bool configuration_equal(const Configuration &q1, const Configuration &q2)
 {
-  if (fabs(q2.theta - q1.theta) > get_epsilon())
+  if (fabs(pify(q2.theta - q1.theta)) > get_epsilon())
     return false;
   if (configuration_distance(q1, q2) > get_epsilon())
     return false;
diff --git a/src/hc_cc_state_space/hc_cc_circle.cpp b/src/hc_cc_state_space/hc_cc_circle.cpp
index 5d6b6a5..4a26d2b 100644
--- a/src/hc_cc_state_space/hc_cc_circle.cpp
+++ b/src/hc_cc_state_space/hc_cc_circle.cpp
@@ -334,7 +334,7 @@ bool configuration_on_hc_cc_circle(const HC_CC_Circle &c, const Configuration &q
     angle = angle - HALF_PI - c.mu;
   }
   angle = twopify(angle);
-  return fabs(q.theta - angle) < get_epsilon();
+  return fabs(pify(q.theta - angle)) < get_epsilon();
 }
 
 } // namespace steering
diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index 8cb2ff8..a3bce1e 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -264,7 +264,7 @@ bool state_equal(const State &state1, const State &state2)
 {
   if (fabs(state2.kappa - state1.kappa) > get_epsilon())
     return false;
-  if (fabs(twopify(state2.theta) - twopify(state1.theta)) > get_epsilon())
+  if (fabs(pify(state2.theta - state1.theta)) > get_epsilon())
     return false;
   if (point_distance(state1.x, state1.y, state2.x, state2.y) > get_epsilon())
     return false;
-- 
2.43.0


From d5eec860d594ecbf859cbb77b11e5d0c70944940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:51 +0000
Subject: [PATCH 02/13] fix: no full circle from rounding errors in Dubins
 turns

A turn angle that is zero up to rounding was mapped to 2*pi, and the heading
of a vanishing straight segment is undefined. Goals on a single arc, and
coincident states with headings on both sides of 2*pi, gave paths that are
one full circle too long.
---
 src/dubins_state_space/dubins_state_space.cpp | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index 405e5e6..81b9558 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -73,16 +73,23 @@ namespace /* helper */
 const double DUBINS_EPS = 1e-6;
 const double DUBINS_ZERO = -1e-9;
 
+// angle of a turn in [0, 2*pi) next to a segment of length p, rounding errors below zero do not make a full circle
+double turn_angle(double alpha, double p)
+{
+  double v = twopify(alpha);
+  return (v > TWO_PI - .2 * DUBINS_EPS / (1. + p)) ? 0.0 : v;
+}
+
 Dubins_State_Space::Dubins_Path dubinsLSL(double d, double alpha, double beta)
 {
   double ca = cos(alpha), sa = sin(alpha), cb = cos(beta), sb = sin(beta);
   double tmp = 2. + d * d - 2. * (ca * cb + sa * sb - d * (sa - sb));
   if (tmp >= DUBINS_ZERO)
   {
-    double theta = atan2(cb - ca, d + sa - sb);
-    double t = twopify(-alpha + theta);
     double p = sqrt(max(tmp, 0.));
-    double q = twopify(beta - theta);
+    double theta = (p < .4 * DUBINS_EPS) ? alpha : atan2(cb - ca, d + sa - sb);
+    double t = turn_angle(-alpha + theta, p);
+    double q = turn_angle(beta - theta, p);
     assert(fabs(p * cos(alpha + t) - sa + sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha + t) + ca - cb) < DUBINS_EPS);
     assert(twopify(alpha + t + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -97,10 +104,10 @@ Dubins_State_Space::Dubins_Path dubinsRSR(double d, double alpha, double beta)
   double tmp = 2. + d * d - 2. * (ca * cb + sa * sb - d * (sb - sa));
   if (tmp >= DUBINS_ZERO)
   {
-    double theta = atan2(ca - cb, d - sa + sb);
-    double t = twopify(alpha - theta);
     double p = sqrt(max(tmp, 0.));
-    double q = twopify(-beta + theta);
+    double theta = (p < .4 * DUBINS_EPS) ? alpha : atan2(ca - cb, d - sa + sb);
+    double t = turn_angle(alpha - theta, p);
+    double q = turn_angle(-beta + theta, p);
     assert(fabs(p * cos(alpha - t) + sa - sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha - t) - ca + cb) < DUBINS_EPS);
     assert(twopify(alpha - t - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -117,8 +124,8 @@ Dubins_State_Space::Dubins_Path dubinsRSL(double d, double alpha, double beta)
   {
     double p = sqrt(max(tmp, 0.));
     double theta = atan2(ca + cb, d - sa - sb) - atan2(2., p);
-    double t = twopify(alpha - theta);
-    double q = twopify(beta - theta);
+    double t = turn_angle(alpha - theta, p);
+    double q = turn_angle(beta - theta, p);
     assert(fabs(p * cos(alpha - t) - 2. * sin(alpha - t) + sa + sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha - t) + 2. * cos(alpha - t) - ca - cb) < DUBINS_EPS);
     assert(twopify(alpha - t + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -135,8 +142,8 @@ Dubins_State_Space::Dubins_Path dubinsLSR(double d, double alpha, double beta)
   {
     double p = sqrt(max(tmp, 0.));
     double theta = atan2(-ca - cb, d + sa + sb) - atan2(-2., p);
-    double t = twopify(-alpha + theta);
-    double q = twopify(-beta + theta);
+    double t = turn_angle(-alpha + theta, p);
+    double q = turn_angle(-beta + theta, p);
     assert(fabs(p * cos(alpha + t) + 2. * sin(alpha + t) - sa - sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha + t) - 2. * cos(alpha + t) + ca + cb) < DUBINS_EPS);
     assert(twopify(alpha + t - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -153,8 +160,8 @@ Dubins_State_Space::Dubins_Path dubinsRLR(double d, double alpha, double beta)
   {
     double p = TWO_PI - acos(tmp);
     double theta = atan2(ca - cb, d - sa + sb);
-    double t = twopify(alpha - theta + .5 * p);
-    double q = twopify(alpha - beta - t + p);
+    double t = turn_angle(alpha - theta + .5 * p, p);
+    double q = turn_angle(alpha - beta - t + p, p);
     assert(fabs(2. * sin(alpha - t + p) - 2. * sin(alpha - t) - d + sa - sb) < DUBINS_EPS);
     assert(fabs(-2. * cos(alpha - t + p) + 2. * cos(alpha - t) - ca + cb) < DUBINS_EPS);
     assert(twopify(alpha - t + p - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -171,8 +178,8 @@ Dubins_State_Space::Dubins_Path dubinsLRL(double d, double alpha, double beta)
   {
     double p = TWO_PI - acos(tmp);
     double theta = atan2(-ca + cb, d + sa - sb);
-    double t = twopify(-alpha + theta + .5 * p);
-    double q = twopify(beta - alpha - t + p);
+    double t = turn_angle(-alpha + theta + .5 * p, p);
+    double q = turn_angle(beta - alpha - t + p, p);
     assert(fabs(-2. * sin(alpha + t - p) + 2. * sin(alpha + t) - d - sa + sb) < DUBINS_EPS);
     assert(fabs(2. * cos(alpha + t - p) - 2. * cos(alpha + t) + ca - cb) < DUBINS_EPS);
     assert(twopify(alpha + t - p + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -183,7 +190,7 @@ Dubins_State_Space::Dubins_Path dubinsLRL(double d, double alpha, double beta)
 
 Dubins_State_Space::Dubins_Path dubins(double d, double alpha, double beta)
 {
-  if (d < DUBINS_EPS && fabs(alpha - beta) < DUBINS_EPS)
+  if (d < DUBINS_EPS && fabs(pify(alpha - beta)) < DUBINS_EPS)
     return Dubins_State_Space::Dubins_Path(Dubins_State_Space::dubins_path_type[0], 0, d, 0);
 
   Dubins_State_Space::Dubins_Path path(dubinsLSL(d, alpha, beta)), tmp(dubinsRSR(d, alpha, beta));
-- 
2.43.0


From c9e0798ad9960fd48ae6d1f2a11f556dcd5ba331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:33 +0000
Subject: [PATCH 03/13] fix: integrate clothoids of small sharpness

Elementary paths have a sharpness far below the maximum sharpness. Below
1e-4 it was taken as zero, so that the sampled and interpolated path
missed the goal by up to metres.
---
 src/hc_cc_state_space/hc_cc_state_space.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hc_cc_state_space/hc_cc_state_space.cpp b/src/hc_cc_state_space/hc_cc_state_space.cpp
index a8e1533..6c24bab 100644
--- a/src/hc_cc_state_space/hc_cc_state_space.cpp
+++ b/src/hc_cc_state_space/hc_cc_state_space.cpp
@@ -283,7 +283,8 @@ inline State HC_CC_State_Space::integrate_ODE(const State &state, const Control
   State state_next;
   double sigma(control.sigma);
   double d(sgn(control.delta_s));
-  if (fabs(sigma) > get_epsilon())
+  // elementary paths are less sharp than the epsilon on lengths and angles
+  if (fabs(sigma) > 1e-8)
   {
     end_of_clothoid(state.x, state.y, state.theta, state.kappa, sigma, d, integration_step, &state_next.x,
                     &state_next.y, &state_next.theta, &state_next.kappa);
-- 
2.43.0


From a8ac11ea4de827d103e5dc090aecd8078b7aa9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 04/13] fix: join predicted start and end controls only on the
 same clothoid

If the predicted start and end states coincide, the two controls were always
subtracted, although this is only valid if they lie on one clothoid, and
without adjusting the sharpness if the difference changes the driving
direction. The returned control then missed the goal, and the distance
was wrong.
---
 .../cc_dubins_state_space.cpp                 | 26 ++++++++++++++++---
 .../hc_reeds_shepp_state_space.cpp            | 26 ++++++++++++++++---
 src/hc_cc_state_space/paths.cpp               |  3 ++-
 3 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/hc_cc_state_space/cc_dubins_state_space.cpp b/src/hc_cc_state_space/cc_dubins_state_space.cpp
index 92d8044..39a49db 100644
--- a/src/hc_cc_state_space/cc_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc_dubins_state_space.cpp
@@ -113,8 +113,16 @@ double CC_Dubins_State_Space::get_distance(const State &state1, const State &sta
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          distances.push_back(fabs(control.delta_s));
+        }
+        // the two controls do not belong to the same clothoid
+        else
+        {
+          distances.push_back(fabs(start_control.delta_s) + fabs(end_control.delta_s));
+        }
       }
       // call appropriate state space
       else
@@ -166,8 +174,18 @@ vector<Control> CC_Dubins_State_Space::get_controls(const State &state1, const S
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        cc_dubins_controls.push_back(control);
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          cc_dubins_controls.push_back(control);
+        }
+        // the two controls do not belong to the same clothoid
+        else
+        {
+          reverse_control(end_control);
+          cc_dubins_controls.push_back(start_control);
+          cc_dubins_controls.push_back(end_control);
+        }
       }
       // call the appropriate state space
       else
diff --git a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
index 16c16db..2954df6 100644
--- a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
@@ -108,8 +108,16 @@ double HC_Reeds_Shepp_State_Space::get_distance(const State &state1, const State
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          distances.push_back(fabs(control.delta_s));
+        }
+        // the two controls do not belong to the same clothoid
+        else
+        {
+          distances.push_back(fabs(start_control.delta_s) + fabs(end_control.delta_s));
+        }
       }
       // call appropriate state space
       else
@@ -161,8 +169,18 @@ vector<Control> HC_Reeds_Shepp_State_Space::get_controls(const State &state1, co
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        hc_rs_controls.push_back(control);
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          hc_rs_controls.push_back(control);
+        }
+        // the two controls do not belong to the same clothoid
+        else
+        {
+          reverse_control(end_control);
+          hc_rs_controls.push_back(start_control);
+          hc_rs_controls.push_back(end_control);
+        }
       }
       // call the appropriate state space
       else
diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index a3bce1e..0a76160 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -284,7 +284,8 @@ Control subtract_control(const Control &control1, const Control &control2)
   Control control;
   control.delta_s = control1.delta_s - control2.delta_s;
   control.kappa = control1.kappa;
-  control.sigma = control1.sigma;
+  // the curvature changes with the sharpness over the signed arc length
+  control.sigma = sgn(control.delta_s) * sgn(control1.delta_s) * control1.sigma;
   return control;
 }
 
-- 
2.43.0


From 44271a0758933ae2de7180fbd1f0423927097ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 05/13] fix: initialize curvature and direction of an
 interpolated start state

Interpolating a Dubins or Reeds-Shepp path at t <= 0 returned a state with
uninitialized curvature and driving direction.
---
 src/dubins_state_space/dubins_state_space.cpp           | 2 ++
 src/reeds_shepp_state_space/reeds_shepp_state_space.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index 81b9558..e6a0c24 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -432,6 +432,8 @@ State Dubins_State_Space::interpolate(const State &state, const vector<Control>
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.empty() ? 0.0 : controls.front().kappa;
+  state_curr.d = controls.empty() ? 0.0 : sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
diff --git a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
index 787dedb..b4607b6 100644
--- a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
+++ b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
@@ -714,6 +714,8 @@ State Reeds_Shepp_State_Space::interpolate(const State &state, const vector<Cont
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.empty() ? 0.0 : controls.front().kappa;
+  state_curr.d = controls.empty() ? 0.0 : sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
-- 
2.43.0


From 318e6498ee3a86be12cef0e9b93f6f39cd515df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:44 +0000
Subject: [PATCH 06/13] fix: tolerate rounding errors in the Reeds-Shepp sign
 conditions

The sign conditions of the path families were evaluated with a slack of ten
machine epsilons, less than the rounding error of the angles. Goals on the
boundary of a family, e.g. at the end of a single arc, were
missed by it and got a longer path.
---
 src/reeds_shepp_state_space/reeds_shepp_state_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
index b4607b6..ad74ccb 100644
--- a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
+++ b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
@@ -71,7 +71,7 @@ namespace /* helper */
 {
 // The comments, variable names, etc. use the nomenclature from the Reeds & Shepp paper.
 const double RS_EPS = 1e-6;
-const double RS_ZERO = 10 * numeric_limits<double>::epsilon();
+const double RS_ZERO = 1e-9;
 
 inline void tauOmega(double u, double v, double xi, double eta, double phi, double &tau, double &omega)
 {
-- 
2.43.0


From 984effdbdf18c1ab9f977311907a9a6e1f9c376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:44 +0000
Subject: [PATCH 07/13] fix: no full circle from rounding errors in the
 deflection of turns

A circular arc that vanishes up to rounding had a deflection of almost 2*pi
in regular turns, which adds a full circle to the path.
---
 src/hc_cc_state_space/hc_cc_circle.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/hc_cc_state_space/hc_cc_circle.cpp b/src/hc_cc_state_space/hc_cc_circle.cpp
index 4a26d2b..eaf81cd 100644
--- a/src/hc_cc_state_space/hc_cc_circle.cpp
+++ b/src/hc_cc_state_space/hc_cc_circle.cpp
@@ -135,11 +135,17 @@ double HC_CC_Circle::D1(double alpha) const
   return cos(alpha) * fresnel_c + sin(alpha) * fresnel_s;
 }
 
+// rounding errors in the deflection do not make a full circle
+static double snap_full_circle(double delta)
+{
+  return (delta > TWO_PI - 1e-6) ? 0.0 : delta;
+}
+
 double HC_CC_Circle::rs_circular_deflection(double delta) const
 {
   // regular rs-turn
   if (this->regular)
-    return delta;
+    return snap_full_circle(delta);
   // irregular rs-turn
   else
     return (delta <= PI) ? delta : delta - TWO_PI;
@@ -160,9 +166,9 @@ double HC_CC_Circle::hc_circular_deflection(double delta) const
   if (this->regular)
   {
     if (delta < delta_min_twopified)
-      return TWO_PI + delta - delta_min_twopified;
+      return snap_full_circle(TWO_PI + delta - delta_min_twopified);
     else
-      return delta - delta_min_twopified;
+      return snap_full_circle(delta - delta_min_twopified);
   }
   // irregular hc-turn
   else
@@ -213,9 +219,9 @@ double HC_CC_Circle::cc_circular_deflection(double delta) const
   if (this->regular)
   {
     if (delta < two_delta_min_twopified)
-      return TWO_PI + delta - two_delta_min_twopified;
+      return snap_full_circle(TWO_PI + delta - two_delta_min_twopified);
     else
-      return delta - two_delta_min_twopified;
+      return snap_full_circle(delta - two_delta_min_twopified);
   }
   // irregular cc-turn
   else
-- 
2.43.0


From b341020d456256faaa4d44bba7c9df6a8ed322df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 08/13] fix: no shared scratch state in const path queries

The center distance and angle of the current pair of circles were stored in
the state space by const queries, so that concurrent queries on one state
space corrupted each other.
---
 src/hc_cc_state_space/cc00_dubins_state_space.cpp        | 8 ++++++--
 src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp   | 8 ++++++--
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp       | 8 ++++++--
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp       | 8 ++++++--
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp      | 8 ++++++--
 src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp   | 8 ++++++--
 src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp  | 8 ++++++--
 src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp  | 8 ++++++--
 src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp | 8 ++++++--
 9 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/src/hc_cc_state_space/cc00_dubins_state_space.cpp b/src/hc_cc_state_space/cc00_dubins_state_space.cpp
index 0b23902..393e1d4 100644
--- a/src/hc_cc_state_space/cc00_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // center distance and angle of the current pair of circles, one pair per thread as queries are const
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -309,6 +310,9 @@ public:
   }
 };
 
+thread_local double CC00_Dubins_State_Space::CC00_Dubins::distance = 0.0;
+thread_local double CC00_Dubins_State_Space::CC00_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CC00_Dubins_State_Space::CC00_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
index 3ad8e05..f2b0140 100644
--- a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
@@ -48,8 +48,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // center distance and angle of the current pair of circles, one pair per thread as queries are const
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1405,6 +1406,9 @@ public:
   }
 };
 
+thread_local double CC00_Reeds_Shepp_State_Space::CC00_Reeds_Shepp::distance = 0.0;
+thread_local double CC00_Reeds_Shepp_State_Space::CC00_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 CC00_Reeds_Shepp_State_Space::CC00_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index 6f9c270..28c797e 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // center distance and angle of the current pair of circles, one pair per thread as queries are const
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -331,6 +332,9 @@ public:
   }
 };
 
+thread_local double CC0pm_Dubins_State_Space::CC0pm_Dubins::distance = 0.0;
+thread_local double CC0pm_Dubins_State_Space::CC0pm_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CC0pm_Dubins_State_Space::CC0pm_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index 518c131..bad8a4e 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // center distance and angle of the current pair of circles, one pair per thread as queries are const
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -331,6 +332,9 @@ public:
   }
 };
 
+thread_local double CCpm0_Dubins_State_Space::CCpm0_Dubins::distance = 0.0;
+thread_local double CCpm0_Dubins_State_Space::CCpm0_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CCpm0_Dubins_State_Space::CCpm0_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index 34672e9..a11eb42 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // center distance and angle of the current pair of circles, one pair per thread as queries are const
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -453,6 +454,9 @@ public:
   }
 };
 
+thread_local double CCpmpm_Dubins_State_Space::CCpmpm_Dubins::distance = 0.0;
+thread_local double CCpmpm_Dubins_State_Space::CCpmpm_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CCpmpm_Dubins_State_Space::CCpmpm_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
index c742b1d..2327494 100644
--- a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
@@ -48,8 +48,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // center distance and angle of the current pair of circles, one pair per thread as queries are const
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1489,6 +1490,9 @@ public:
   }
 };
 
+thread_local double HC00_Reeds_Shepp_State_Space::HC00_Reeds_Shepp::distance = 0.0;
+thread_local double HC00_Reeds_Shepp_State_Space::HC00_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HC00_Reeds_Shepp_State_Space::HC00_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index d69eed3..ac59f4a 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -49,8 +49,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // center distance and angle of the current pair of circles, one pair per thread as queries are const
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1518,6 +1519,9 @@ public:
   }
 };
 
+thread_local double HC0pm_Reeds_Shepp_State_Space::HC0pm_Reeds_Shepp::distance = 0.0;
+thread_local double HC0pm_Reeds_Shepp_State_Space::HC0pm_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HC0pm_Reeds_Shepp_State_Space::HC0pm_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index 59b7c3b..6749587 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -49,8 +49,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // center distance and angle of the current pair of circles, one pair per thread as queries are const
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1518,6 +1519,9 @@ public:
   }
 };
 
+thread_local double HCpm0_Reeds_Shepp_State_Space::HCpm0_Reeds_Shepp::distance = 0.0;
+thread_local double HCpm0_Reeds_Shepp_State_Space::HCpm0_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HCpm0_Reeds_Shepp_State_Space::HCpm0_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index d76f184..81909c5 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -49,8 +49,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // center distance and angle of the current pair of circles, one pair per thread as queries are const
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1550,6 +1551,9 @@ public:
   }
 };
 
+thread_local double HCpmpm_Reeds_Shepp_State_Space::HCpmpm_Reeds_Shepp::distance = 0.0;
+thread_local double HCpmpm_Reeds_Shepp_State_Space::HCpmpm_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HCpmpm_Reeds_Shepp_State_Space::HCpmpm_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
-- 
2.43.0


From 6b13c6e47c53934798c5403aef9dfdedd5c48ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:15 +0000
Subject: [PATCH 09/13] fix: tangent configuration of TcT paths in
 CC-Reeds-Shepp

TcT paths exist if the center distance equals 2 * r * cos(mu) up to epsilon.
The offset of the cusp was computed from the distance itself, as the root of a
small difference, which is not a number or up to centimetres wrong
instead of r * sin(mu).
---
 src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
index f2b0140..5240c77 100644
--- a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
@@ -121,7 +121,7 @@ public:
   {
     double distance = center_distance(c1, c2);
     double delta_x = 0.5 * distance;
-    double delta_y = sqrt(pow(c1.radius, 2) - pow(delta_x, 2));
+    double delta_y = c1.radius * c1.sin_mu;
     double angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
     double x, y, theta;
     if (c1.left)
-- 
2.43.0


From 6595cfba5884ce8958d8238fda8b95dbbdce1e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:20 +0000
Subject: [PATCH 10/13] fix: single turn only between circles of the same
 rotation

The centers of a left and a right circle coincide for some goals, e.g. with
kappa^2/(2*sigma) = pi/4 for a goal at the start position with opposite heading.
The path then turned to the wrong side and missed the goal by two radii. Between
states of maximum curvature a turn ended with the opposite of the goal curvature.
---
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp       | 2 +-
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp       | 2 +-
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp      | 2 +-
 src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp  | 2 +-
 src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp  | 2 +-
 src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index 28c797e..3433f5b 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -379,7 +379,7 @@ CC_Dubins_Path *CC0pm_Dubins_State_Space::cc0pm_circles_dubins_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (cc0pm_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && cc0pm_dubins_->distance < get_epsilon())
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index bad8a4e..649099d 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -379,7 +379,7 @@ CC_Dubins_Path *CCpm0_Dubins_State_Space::ccpm0_circles_dubins_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (ccpm0_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && ccpm0_dubins_->distance < get_epsilon())
   {
     cend[cc_dubins::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cend[cc_dubins::T]->hc_turn_length(c1.start);
diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index a11eb42..eb3645c 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -507,7 +507,7 @@ CC_Dubins_Path *CCpmpm_Dubins_State_Space::ccpmpm_circles_dubins_path(const HC_C
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->rs_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index ac59f4a..6fc8586 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -1569,7 +1569,7 @@ HC_CC_RS_Path *HC0pm_Reeds_Shepp_State_Space::hc0pm_circles_rs_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (hc0pm_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hc0pm_reeds_shepp_->distance < get_epsilon())
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index 6749587..0a8e714 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -1569,7 +1569,7 @@ HC_CC_RS_Path *HCpm0_Reeds_Shepp_State_Space::hcpm0_circles_rs_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (hcpm0_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hcpm0_reeds_shepp_->distance < get_epsilon())
   {
     cend[hc_cc_rs::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cend[hc_cc_rs::T]->hc_turn_length(c1.start);
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index 81909c5..3365100 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -1603,7 +1603,7 @@ HC_CC_RS_Path *HCpmpm_Reeds_Shepp_State_Space::hcpmpm_circles_rs_path(const HC_C
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->rs_turn_length(c2.start);
-- 
2.43.0


From 2ae8af5dc26a97083bf1512503b4c9a0780f10e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:54 +0000
Subject: [PATCH 11/13] fix: configurations of different curvature are not
 equal

Coincident poses with different curvature, e.g. zero and maximum curvature, were
connected by an empty path, which does not lead to the curvature of the goal.
---
 src/hc_cc_state_space/configuration.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hc_cc_state_space/configuration.cpp b/src/hc_cc_state_space/configuration.cpp
index 1f7b3e2..e9bf0a2 100644
--- a/src/hc_cc_state_space/configuration.cpp
+++ b/src/hc_cc_state_space/configuration.cpp
@@ -68,6 +68,8 @@ bool configuration_aligned(const Configuration &q1, const Configuration &q2)
 
 bool configuration_equal(const Configuration &q1, const Configuration &q2)
 {
+  if (fabs(q2.kappa - q1.kappa) > get_epsilon())
+    return false;
   if (fabs(pify(q2.theta - q1.theta)) > get_epsilon())
     return false;
   if (configuration_distance(q1, q2) > get_epsilon())
-- 
2.43.0


From 724fe439e23a310265b6e883383fc7c7c26daa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:54 +0000
Subject: [PATCH 12/13] fix: no loop between equal states in CC-Dubins

A start state of intermediate curvature was connected with itself by a loop.
---
 src/hc_cc_state_space/cc_dubins_state_space.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/hc_cc_state_space/cc_dubins_state_space.cpp b/src/hc_cc_state_space/cc_dubins_state_space.cpp
index 39a49db..e846bbf 100644
--- a/src/hc_cc_state_space/cc_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc_dubins_state_space.cpp
@@ -96,6 +96,10 @@ vector<pair<State, Control>> CC_Dubins_State_Space::predict_state(const State &s
 
 double CC_Dubins_State_Space::get_distance(const State &state1, const State &state2) const
 {
+  // the predicted states of equal states are not equal
+  if (state_equal(state1, state2))
+    return 0.0;
+
   vector<pair<State, Control>> start_states_controls = this->predict_state(state1, forwards_);
   vector<pair<State, Control>> end_states_controls = this->predict_state(state2, !forwards_);
   vector<double> distances;
@@ -156,6 +160,14 @@ double CC_Dubins_State_Space::get_distance(const State &state1, const State &sta
 
 vector<Control> CC_Dubins_State_Space::get_controls(const State &state1, const State &state2) const
 {
+  // the predicted states of equal states are not equal
+  if (state_equal(state1, state2))
+  {
+    vector<Control> controls;
+    empty_controls(controls);
+    return controls;
+  }
+
   vector<pair<State, Control>> start_states_controls = this->predict_state(state1, forwards_);
   vector<pair<State, Control>> end_states_controls = this->predict_state(state2, !forwards_);
   vector<pair<vector<Control>, double>> cc_dubins_controls_distance_pairs;
-- 
2.43.0


From 8f7a3aa890525e479591217151b8a2c939a70473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:00 +0000
Subject: [PATCH 13/13] fix: vanishing segments do not hide the cusp at a jump
 of the curvature

A straight line that vanishes up to rounding had an arbitrary direction, and a
snapped arc lost the direction of its turn, such that the curvature of a hybrid
curvature path could jump between two states of the same driving direction.
---
 src/hc_cc_state_space/paths.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index 0a76160..2dcd3ae 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -298,11 +298,26 @@ void empty_controls(vector<Control> &controls)
   controls.push_back(control);
 }
 
+// a length of zero has no sign that could carry the driving direction
+static double directed_length(double length)
+{
+  return (fabs(length) < numeric_limits<double>::epsilon()) ? numeric_limits<double>::epsilon() : length;
+}
+
 void straight_controls(const Configuration &q1, const Configuration &q2, vector<Control> &controls)
 {
   double length = point_distance(q1.x, q1.y, q2.x, q2.y);
   double dot_product = cos(q1.theta) * (q2.x - q1.x) + sin(q1.theta) * (q2.y - q1.y);
   int d = sgn(dot_product);
+  // the direction of a straight line that vanishes up to rounding follows from the previous segment:
+  // it is reversed after an arc (cusp) and kept otherwise
+  if (length < 1e-9 && !controls.empty())
+  {
+    const Control &last = controls.back();
+    double kappa = last.kappa + last.sigma * fabs(last.delta_s);
+    d = (fabs(kappa) > get_epsilon()) ? -sgn(last.delta_s) : sgn(last.delta_s);
+    length = directed_length(length);
+  }
   Control control;
   control.delta_s = d * length;
   control.kappa = 0.0;
@@ -323,7 +338,7 @@ void rs_turn_controls(const HC_CC_Circle &c, const Configuration &q, bool order,
   assert(fabs(fabs(c.kappa) - fabs(q.kappa)) < get_epsilon() &&
          fabs(fabs(c.sigma) - numeric_limits<double>::max()) < get_epsilon());
   double delta = c.deflection(q);
-  double length_arc = fabs(c.kappa_inv) * c.rs_circular_deflection(delta);
+  double length_arc = directed_length(fabs(c.kappa_inv) * c.rs_circular_deflection(delta));
   int d = direction(c.forward, order);
 
   Control arc;
@@ -339,7 +354,7 @@ void hc_turn_controls(const HC_CC_Circle &c, const Configuration &q, bool order,
   assert(fabs(fabs(c.kappa) - fabs(q.kappa)) < get_epsilon());
   double delta = c.deflection(q);
   double length_min = fabs(c.kappa / c.sigma);
-  double length_arc = fabs(c.kappa_inv) * c.hc_circular_deflection(delta);
+  double length_arc = directed_length(fabs(c.kappa_inv) * c.hc_circular_deflection(delta));
   int d = direction(c.forward, order);
 
   Control clothoid, arc;
-- 
2.43.0

