From dbbe14f240421e25224ae6f4807d2e12f7921f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 01/63] fix: score-first matcher looked up matching weights by
 subset position

MatchingWeight takes indices into the full prediction / ground truth lists, but
ScoreFirstMatcher passed positions within the subsets, so with any proper or
reordered subset the 'best' ground truth was chosen by the weight of an
unrelated pair.
---
 src/waymo_open_dataset/metrics/matcher.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index d1c7a17..5ab7ff0 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -280,9 +280,9 @@ void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
       const int pd_idx = prediction_subset()[pd_subset_idx];
       const int gt_idx = ground_truth_subset()[gt_subset_idx];
       if (CanMatch(pd_idx, gt_idx)) {
-        if (MatchingWeight(pd_subset_idx, gt_subset_idx) >
-            best_gt_match_weight) {
-          best_gt_match_weight = MatchingWeight(pd_subset_idx, gt_subset_idx);
+        const int weight = MatchingWeight(pd_idx, gt_idx);
+        if (weight > best_gt_match_weight) {
+          best_gt_match_weight = weight;
           best_gt_match = gt_subset_idx;
         }
       }
-- 
2.43.0


From 8707a60b0d9a3e463b02c7b71e16704e42028290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 02/63] fix: score-first matcher kept stale results and
 rejected null outputs

Match() documents that either output may be null and that unmatched entries are
set to -1. ScoreFirstMatcher CHECK-failed on a null output and only resized the
vectors, so entries left by a previous call were treated as existing matches.
---
 src/waymo_open_dataset/metrics/matcher.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/matcher.cc b/src/waymo_open_dataset/metrics/matcher.cc
index 5ab7ff0..05e7bcf 100644
--- a/src/waymo_open_dataset/metrics/matcher.cc
+++ b/src/waymo_open_dataset/metrics/matcher.cc
@@ -251,13 +251,18 @@ void HungarianMatcher::Match(std::vector<int>* prediction_matches,
 
 void ScoreFirstMatcher::Match(std::vector<int>* prediction_matches,
                               std::vector<int>* ground_truth_matches) {
-  CHECK(prediction_matches);
-  CHECK(ground_truth_matches);
+  if (prediction_matches == nullptr && ground_truth_matches == nullptr) return;
+
+  // Either output may be null, see Matcher::Match().
+  std::vector<int> unused_matches;
+  if (prediction_matches == nullptr) prediction_matches = &unused_matches;
+  if (ground_truth_matches == nullptr) ground_truth_matches = &unused_matches;
 
   const int prediction_subset_size = prediction_subset().size();
   const int ground_truth_subset_size = ground_truth_subset().size();
-  prediction_matches->resize(prediction_subset_size, -1);
-  ground_truth_matches->resize(ground_truth_subset_size, -1);
+  // The caller may reuse the output vectors: drop any previous content.
+  prediction_matches->assign(prediction_subset_size, -1);
+  ground_truth_matches->assign(ground_truth_subset_size, -1);
 
   std::vector<int> sorted_pred_subset_idx(prediction_subset_size);
   // Sort predictions by score in descending order.
-- 
2.43.0


From 5e7aef8d266105d59d672878185da398484e1d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 03/63] fix: LET matcher functions kept references to the
 caller's config

GetComputeLetIoUFunc and GetComputeLongitudinalAffinityFunc returned closures
that captured the configuration by reference, so a matcher created from a
config that goes out of scope (or changes) computed with dangling data.
---
 src/waymo_open_dataset/metrics/iou.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/iou.cc b/src/waymo_open_dataset/metrics/iou.cc
index 6ee60d5..c722417 100644
--- a/src/waymo_open_dataset/metrics/iou.cc
+++ b/src/waymo_open_dataset/metrics/iou.cc
@@ -285,8 +285,8 @@ double ComputeLongitudinalAffinity(
 ComputeLongitudinalAffinityFunc GetComputeLongitudinalAffinityFunc(
     const Config::LongitudinalErrorTolerantConfig& let_metric_config) {
   ComputeLongitudinalAffinityFunc let_compute_longitudinal_affinity_func =
-      [&let_metric_config](const Label::Box& prediction_box,
-                           const Label::Box& ground_truth_box) {
+      [let_metric_config](const Label::Box& prediction_box,
+                          const Label::Box& ground_truth_box) {
         return ComputeLongitudinalAffinity(prediction_box, ground_truth_box,
                                            let_metric_config);
       };
@@ -386,7 +386,7 @@ ComputeIoUFunc GetComputeLetIoUFunc(
     Config::LongitudinalErrorTolerantConfig::AlignType align_type,
     Label::Box::Type box_type) {
   ComputeIoUFunc compute_let_iou_func =
-      [&sensor_location, align_type, box_type](
+      [sensor_location, align_type, box_type](
           const Label::Box& prediction_box,
           const Label::Box& ground_truth_box) {
         return ComputeLetIoU(prediction_box, ground_truth_box, sensor_location,
-- 
2.43.0


From 9c4c7cae5012adb5a00ac5271448eb55fcc223f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 04/63] fix: polygon intersection area was wrong when polygons
 have (almost) colinear edges

---
 src/waymo_open_dataset/math/polygon2d.cc | 149 ++++-------------------
 1 file changed, 23 insertions(+), 126 deletions(-)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index 31ed180..0f29293 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -363,136 +363,33 @@ std::vector<Vec2d> Polygon2d::ComputeIntersectionVertices(
     return {};
   }
 
-  // This algorithm is from the following paper:
-  //
-  // O'Rourke, Joseph, et al. "A new linear algorithm for intersecting convex
-  // polygons." Computer Graphics and Image Processing 19.4 (1982): 384-391.
-  //
-  // The algorithm can be viewed as a geometric generalization of merging two
-  // sorted lists. It performs a counter-clockwise traversal of the boundaries
-  // of the two polygons. The algorithm maintains a pair of edges, one from each
-  // polygon. From a consideration of the relative positions of these edges the
-  // algorithm advances one of them to the next edge in counterclockwise order
-  // around its polygon. Intuitively, this is done in such a way that these two
-  // edges effectively “chase” each other around the boundary of the
-  // intersection polygon.
-
-  // We use P and Q to represent this polygon and the other one.
-  const std::vector<Vec2d>& other_points = other.points();
-  bool p_inside = false, q_inside = false;
-  const int total_num_points = NumPoints() + other.NumPoints();
-  std::vector<Vec2d> convex_points;
-  convex_points.reserve(total_num_points);
-
-  // A lambda that is used to append a new convex point to the list. We ignore
-  // the point that is identical to either the first or the last convex point in
-  // the list to handle corner cases, in which two polygons may "intersect" with
-  // either a point or an edge.
-  const auto append_convex_point = [](Vec2d p, std::vector<Vec2d>* convex_pts) {
-    if (convex_pts->empty() ||
-        (p != convex_pts->front() && p != convex_pts->back())) {
-      convex_pts->push_back(p);
-    }
-  };
-
-  int p_idx = 0, q_idx = 0;
-  int p_idx_next = 1, q_idx_next = 1;
-  Vec2d p0 = points_[p_idx];
-  Vec2d p1 = points_[p_idx_next];
-  Vec2d q0 = other_points[q_idx];
-  Vec2d q1 = other_points[q_idx_next];
-
-  for (int i = 0; i < total_num_points * 2; ++i) {
-    // If we found a intersection between <p0, p1> and <q0, q1>, put the
-    // intersection into the convex points list, and check that after the
-    // intersection whose points will be inside and hence recorded. If we reach
-    // the first intersection point, we are done.
-    Vec2d inter;
-    const double det = CrossMaybeExact(p0, p1, q1, q0);
-    if (ExactIntersection(p0, p1, q0, q1, det, &inter)) {
-      if (convex_points.size() > 2 && inter == convex_points[0]) {
-        return convex_points;
-      }
-      if (convex_points.empty()) {
-        // When we found the first intersection, we only need to iterate this
-        // loop at most total_num_points + 1 times to get back to this
-        // intersection.
-        i = total_num_points - 1;
-      }
-      append_convex_point(inter, &convex_points);
-      // If p1 is on the left of <q0, q1>, mark P as inside; otherwise mark Q as
-      // inside.
-      if (CrossMaybeExact(q1, q0, p1, q0) >= 0.0) {
-        p_inside = true;
-        q_inside = false;
-      } else {
-        p_inside = false;
-        q_inside = true;
-      }
-    }
-
-    // Determine in which polygon we would like to advance according to the
-    // "advance rule" in the algorithm.
-    const bool advance_p = (det >= 0.0)
-                               ? CrossMaybeExact(q1, q0, p1, q0) < 0.0
-                               : CrossMaybeExact(p1, p0, q1, p0) >= 0.0;
-
-    if (advance_p) {
-      if (p_inside) {
-        append_convex_point(p1, &convex_points);
+  // Clip this polygon with one edge of the other one at a time (the
+  // Sutherland-Hodgman algorithm). Rounding errors can only move the resulting
+  // vertices slightly, also if edges of the two polygons are (almost) colinear.
+  std::vector<Vec2d> convex_points = points_;
+  for (int q_idx = 0; q_idx < other.NumPoints(); ++q_idx) {
+    const Vec2d q0 = other.points_[q_idx];
+    const Vec2d q1 = other.points_[other.Next(q_idx)];
+    std::vector<Vec2d> clipped_points;
+    clipped_points.reserve(convex_points.size() + 1);
+    for (int i = 0, n = convex_points.size(); i < n; ++i) {
+      const Vec2d p0 = convex_points[i];
+      const Vec2d p1 = convex_points[i + 1 == n ? 0 : i + 1];
+      // Positive if the point is on the left of <q0, q1>, i.e. inside.
+      const double p0_side = Cross(q0, q1, p0);
+      const double p1_side = Cross(q0, q1, p1);
+      if (p0_side >= 0.0) {
+        clipped_points.push_back(p0);
       }
-      p_idx = p_idx_next;
-      p0 = p1;
-      p_idx_next = Next(p_idx_next);
-      p1 = points_[p_idx_next];
-    } else {
-      if (q_inside) {
-        append_convex_point(q1, &convex_points);
+      if ((p0_side > 0.0 && p1_side < 0.0) ||
+          (p0_side < 0.0 && p1_side > 0.0)) {
+        clipped_points.push_back(p0 +
+                                 (p1 - p0) * (p0_side / (p0_side - p1_side)));
       }
-      q_idx = q_idx_next;
-      q0 = q1;
-      q_idx_next = other.Next(q_idx_next);
-      q1 = other_points[q_idx_next];
     }
+    convex_points = std::move(clipped_points);
   }
-
-  // Handle the case that those two polygons share one vertex or (part of) one
-  // edge, in which case the intersection is empty.
-  if (!convex_points.empty()) {
-    return {};
-  }
-
-  // Now we have three cases:
-  //   1. P is inside of Q.
-  //   2. Q is inside of P.
-  //   3. P and Q don't intersect.
-
-  // Check the case 1.
-  bool p_is_inside = true;
-  for (const auto& point : points_) {
-    if (!other.PointInside(point)) {
-      p_is_inside = false;
-      break;
-    }
-  }
-  if (p_is_inside) {
-    return points_;
-  }
-
-  // Check the case 2.
-  bool q_is_inside = true;
-  for (const auto& point : other_points) {
-    if (!PointInside(point)) {
-      q_is_inside = false;
-      break;
-    }
-  }
-  if (q_is_inside) {
-    return other.points_;
-  }
-
-  // P and Q don't intersect.
-  return {};
+  return convex_points;
 }
 
 double Polygon2d::ComputeIntersectionArea(const Polygon2d& other) const {
-- 
2.43.0


From 7135dd12c43f4ed0cb23fc012a1edaab322e429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 05/63] fix: Polygon2d::IsConvexHull accepted self-intersecting
 polygons

---
 src/waymo_open_dataset/math/polygon2d.cc | 37 ++++++++----------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/waymo_open_dataset/math/polygon2d.cc b/src/waymo_open_dataset/math/polygon2d.cc
index 0f29293..2051667 100644
--- a/src/waymo_open_dataset/math/polygon2d.cc
+++ b/src/waymo_open_dataset/math/polygon2d.cc
@@ -492,31 +492,18 @@ bool Polygon2d::IsConvexHull(const std::vector<Vec2d>& points,
     if (has_ccw_direction && has_cw_direction) return false;
   }
 
-  // Conclusive means every edge's cross product have a large enough absolute
-  // value for us to confidently tell its sign.
-  bool conclusive = false;
-  for (int ref = 0; ref < n && !conclusive; ++ref) {
-    conclusive = true;
-    const Vec2d ref_point = points[ref];
-    for (int ii = 0; ii < n; ++ii) {
-      // Still need the following checks since convex polygons must be simple
-      // polygons.
-      // For convex polygon, after shifting the polygon to one of its points,
-      // all the points should lie in either clockwise or counter-clockwise
-      // direction.
-      // We choose this arbitrary point to be the origin points_[0].
-      if (ii >= 2) {
-        const double shift_prod = Cross(ref_point, points[ii - 1], points[ii]);
-        if (shift_prod > kEpsilon) {
-          has_ccw_direction = true;
-        } else if (shift_prod < -kEpsilon) {
-          has_cw_direction = true;
-        } else {
-          // In this inconclusive case, we switch to the next vertex as the ref
-          // point.
-          conclusive = false;
-          break;
-        }
+  // Still need the following checks since convex polygons must be simple
+  // polygons.
+  // For convex polygon, after shifting the polygon to any one of its points, all
+  // the points should lie in either clockwise or counter-clockwise direction.
+  for (int ref = 0; ref < n; ++ref) {
+    for (int ii = 2; ii < n; ++ii) {
+      const double shift_prod =
+          Cross(points[ref], points[(ref + ii - 1) % n], points[(ref + ii) % n]);
+      if (shift_prod > kEpsilon) {
+        has_ccw_direction = true;
+      } else if (shift_prod < -kEpsilon) {
+        has_cw_direction = true;
       }
       if (has_ccw_direction && has_cw_direction) return false;
     }
-- 
2.43.0


From e5c66b6a22f4f70d2cdb27cf0608aebf9b26b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 06/63] fix: ExactFloat(INT_MIN) had a 33-bit wrong mantissa

std::abs(INT_MIN) stays negative and sign-extends to the 64-bit BN_ULONG.
---
 src/waymo_open_dataset/math/exactfloat.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/math/exactfloat.cc b/src/waymo_open_dataset/math/exactfloat.cc
index 2d2d684..b1549b1 100644
--- a/src/waymo_open_dataset/math/exactfloat.cc
+++ b/src/waymo_open_dataset/math/exactfloat.cc
@@ -106,9 +106,8 @@ ExactFloat::ExactFloat(double v) {
 
 ExactFloat::ExactFloat(int v) {
   sign_ = (v >= 0) ? 1 : -1;
-  // Note that this works even for INT_MIN because the parameter type for
-  // BN_set_word() is unsigned.
-  CHECK(BN_set_word(bn_.get(), std::abs(v)));
+  // Note that the magnitude of INT_MIN does not fit in an int.
+  CHECK(BN_set_word(bn_.get(), std::abs(static_cast<int64>(v))));
   bn_exp_ = 0;
   Canonicalize();
 }
-- 
2.43.0


From d1be322415a66ba5030ab0896c5bff50a1306897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 07/63] fix: ExactFloat ldexp clamped large negative shifts to
 the wrong value

The lower clamp must keep a_exp + exp >= kMinExp - 1, i.e. subtract a_exp; with
the sign wrong, values that underflow came back as tiny non-zero numbers and
values with a large exponent were scaled by too little.
---
 src/waymo_open_dataset/math/exactfloat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/math/exactfloat.cc b/src/waymo_open_dataset/math/exactfloat.cc
index b1549b1..c291ae8 100644
--- a/src/waymo_open_dataset/math/exactfloat.cc
+++ b/src/waymo_open_dataset/math/exactfloat.cc
@@ -712,7 +712,7 @@ ExactFloat ldexp(const ExactFloat& a, int exp) {
   // (kMinExp - 1) <= (a_exp + exp) <= (kMaxExp + 1).
   int a_exp = a.exp();
   exp = min(ExactFloat::kMaxExp + 1 - a_exp,
-            max(ExactFloat::kMinExp - 1 + a_exp, exp));
+            max(ExactFloat::kMinExp - 1 - a_exp, exp));
 
   // Now modify the exponent and check for overflow/underflow.
   ExactFloat r = a;
-- 
2.43.0


From 86cc83731f2ec5ad1eb81b0f3341c9eb4cbb2643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 08/63] fix: ExactFloat::ToDouble rounded twice for subnormal
 results

---
 src/waymo_open_dataset/math/exactfloat.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/waymo_open_dataset/math/exactfloat.cc b/src/waymo_open_dataset/math/exactfloat.cc
index c291ae8..1f0acc0 100644
--- a/src/waymo_open_dataset/math/exactfloat.cc
+++ b/src/waymo_open_dataset/math/exactfloat.cc
@@ -161,13 +161,15 @@ void ExactFloat::set_nan() {
 }
 
 double ExactFloat::ToDouble() const {
-  // If the mantissa has too many bits, we need to round it.
-  if (prec() <= kDoubleMantissaBits) {
-    return ToDoubleHelper();
-  } else {
-    ExactFloat r = RoundToMaxPrec(kDoubleMantissaBits, kRoundTiesToEven);
-    return r.ToDoubleHelper();
-  }
+  if (!is_normal()) return ToDoubleHelper();
+  // If the mantissa has too many bits, we need to round it.  Subnormal doubles
+  // have fewer mantissa bits: round to their spacing directly, since rounding
+  // first to kDoubleMantissaBits and again in ldexp() would round twice.
+  const int kMinDoubleBitExp = std::numeric_limits<double>::min_exponent -
+                               kDoubleMantissaBits;
+  ExactFloat r = RoundToPowerOf2(
+      max(exp() - kDoubleMantissaBits, kMinDoubleBitExp), kRoundTiesToEven);
+  return r.ToDoubleHelper();
 }
 
 double ExactFloat::ToDoubleHelper() const {
-- 
2.43.0


From 77530782b6b00b266d405a2a6e73c301840785ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 09/63] fix: ExactFloat printed 68 with one digit as 6e+1

A single discarded digit above 5 was treated as a tie.
---
 src/waymo_open_dataset/math/exactfloat.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/math/exactfloat.cc b/src/waymo_open_dataset/math/exactfloat.cc
index 1f0acc0..41f5920 100644
--- a/src/waymo_open_dataset/math/exactfloat.cc
+++ b/src/waymo_open_dataset/math/exactfloat.cc
@@ -392,9 +392,10 @@ int ExactFloat::GetDecimalDigits(int max_digits, std::string* digits) const {
     // that we round up (away from zero) if highest discarded digit is '5' or
     // more, unless all other discarded digits are zero in which case we round
     // up only if the lowest kept digit is odd.
-    if (all_digits[max_digits] >= '5' &&
-        ((all_digits[max_digits - 1] & 1) == 1 ||
-         strpbrk(all_digits + max_digits + 1, "123456789") != nullptr)) {
+    if (all_digits[max_digits] > '5' ||
+        (all_digits[max_digits] == '5' &&
+         ((all_digits[max_digits - 1] & 1) == 1 ||
+          strpbrk(all_digits + max_digits + 1, "123456789") != nullptr))) {
       // This can increase the number of digits by 1, but in that case at
       // least one trailing zero will be stripped off below.
       IncrementDecimalDigits(digits);
-- 
2.43.0


From 05a76eb849f76f498eda1a91cecc281b0c66d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:29 +0000
Subject: [PATCH 10/63] fix: AABox2dTree::BuildTree read past the end for an
 empty collection

---
 src/waymo_open_dataset/math/aabox2d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/waymo_open_dataset/math/aabox2d.h b/src/waymo_open_dataset/math/aabox2d.h
index 7c25ce5..9b53a45 100644
--- a/src/waymo_open_dataset/math/aabox2d.h
+++ b/src/waymo_open_dataset/math/aabox2d.h
@@ -165,6 +165,8 @@ class AABox2dTree {
       boxes_[i] = boxes[i];
     }
     nodes_.clear();
+    // There is nothing to index (and no valid index to query).
+    if (boxes.empty()) return;
     AABoxNode node;
     nodes_.push_back(node);
     std::vector<int> idx(boxes.size());
-- 
2.43.0


From 65c64adf7178033eb8e96fb2f1f5c9d867eec625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:46 +0000
Subject: [PATCH 11/63] fix: camera breakdown aborted on objects seen by a rear
 or unknown camera

Shard() documents -1 for objects in no shard and already tests for it, but the
helper died before it could return; ShardsForMatching() passed -1 on.
---
 src/waymo_open_dataset/metrics/breakdown_generator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/breakdown_generator.cc b/src/waymo_open_dataset/metrics/breakdown_generator.cc
index ea1e39e..3643e9f 100644
--- a/src/waymo_open_dataset/metrics/breakdown_generator.cc
+++ b/src/waymo_open_dataset/metrics/breakdown_generator.cc
@@ -341,7 +341,8 @@ class BreakdownGeneratorCamera : public BreakdownGenerator {
       return std::vector<int>();
     }
     if (Is2DCamera(object)) {
-      return std::vector<int>({Shard(object)});
+      const int shard = Shard(object);
+      return shard < 0 ? std::vector<int>() : std::vector<int>({shard});
     }
     // For 3D detections, we estimate the camera breakdowns by FOV.
     const int shard_offset = kNumCameras * (object.object().type() - 1);
@@ -404,7 +405,8 @@ class BreakdownGeneratorCamera : public BreakdownGenerator {
       case CameraName::SIDE_RIGHT:
         return 4;
       default:
-        LOG(FATAL) << "Code should not reach here.";
+        // Unknown cameras and rear cameras are not in any shard.
+        return -1;
     }
   }
 
-- 
2.43.0


From 744eea7932951c22f90448ef696a84fa891c163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:47 +0000
Subject: [PATCH 12/63] fix: merging detection measurements dropped details
 when both sides had several frames

---
 src/waymo_open_dataset/metrics/detection_metrics.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/detection_metrics.cc b/src/waymo_open_dataset/metrics/detection_metrics.cc
index 777c5b6..722cd65 100644
--- a/src/waymo_open_dataset/metrics/detection_metrics.cc
+++ b/src/waymo_open_dataset/metrics/detection_metrics.cc
@@ -208,12 +208,10 @@ DetectionMeasurement MergeDetectionMeasurement(const DetectionMeasurement& m1,
   ADD_FIELD(sum_longitudinal_affinity);
 #undef ADD_FIELD
 
-  // If we enables details population, appends it as a new frame. The new
-  // frame's `details()` size should be 1.
-  if (m1.details_size() == 1 || m2.details_size() == 1) {
-    *m.mutable_details() = m1.details();
-    m.mutable_details()->MergeFrom(m2.details());
-  }
+  // If we enables details population, keeps the frames of both sides. Either
+  // side can already be the result of merging any number of frames.
+  *m.mutable_details() = m1.details();
+  m.mutable_details()->MergeFrom(m2.details());
 
   m.set_score_cutoff(m1.score_cutoff());
   return m;
-- 
2.43.0


From 13af7e89ad237337b8d59c0236e24afa2ef628cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:03 +0000
Subject: [PATCH 13/63] fix: tracking score cutoffs were estimated from the
 wrong number of predictions

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 0df0db7..6bbf4d1 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -303,8 +303,8 @@ Config EstimateScoreCutoffs(
     for (int scene_idx = 0; scene_idx < num_scenes; ++scene_idx) {
       const int num_frames = pds[scene_idx].size();
       for (int frame_idx = 0; frame_idx < num_frames; ++frame_idx) {
-        for (int pd_idx = 0, num_pds = pds[frame_idx].size(); pd_idx < num_pds;
-             ++pd_idx) {
+        for (int pd_idx = 0, num_pds = pds[scene_idx][frame_idx].size();
+             pd_idx < num_pds; ++pd_idx) {
           pd_scores.push_back(pds[scene_idx][frame_idx][pd_idx].score());
         }
       }
-- 
2.43.0


From 155af523a54ffaebccc5d7a31fe1fd58aa8d1560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:03 +0000
Subject: [PATCH 14/63] fix: merging tracking measurements of several scenes
 dropped the details

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 6bbf4d1..4990b1b 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -104,6 +104,9 @@ TrackingMeasurement MergeTrackingMeasurement(const TrackingMeasurement& m1,
   ADD_FIELD(num_matches);
   ADD_FIELD(num_objects_gt);
 #undef ADD_FIELD
+  // Keeps the per-frame details of both sides.
+  *m.mutable_details() = m1.details();
+  m.mutable_details()->MergeFrom(m2.details());
   m.set_score_cutoff(m1.score_cutoff());
   return m;
 }
-- 
2.43.0


From c929701d1174382e9afbf8fd7dd233019d9c40bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:04 +0000
Subject: [PATCH 15/63] fix: speeds were not estimated for scenes without
 predictions in the first frame

---
 src/waymo_open_dataset/metrics/tracking_metrics.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tracking_metrics.cc b/src/waymo_open_dataset/metrics/tracking_metrics.cc
index 4990b1b..10bcde8 100644
--- a/src/waymo_open_dataset/metrics/tracking_metrics.cc
+++ b/src/waymo_open_dataset/metrics/tracking_metrics.cc
@@ -205,9 +205,15 @@ std::vector<TrackingMeasurements> ComputeTrackingMeasurements(
   for (int i = 0; i < num_frames; ++i) {
     matchers.push_back(Matcher::Create(config));
   }
-  const bool need_to_estimate_speed =
-      internal::HasVelocityBreakdown(config) && !pds.empty() &&
-      !pds[0].empty() && !pds[0][0].object().metadata().has_speed_x();
+  // The first prediction of the scene tells whether predictions have speeds.
+  // Its first frames can be without predictions.
+  bool need_to_estimate_speed = false;
+  for (int i = 0; i < num_frames; ++i) {
+    if (pds[i].empty()) continue;
+    need_to_estimate_speed = internal::HasVelocityBreakdown(config) &&
+                             !pds[i][0].object().metadata().has_speed_x();
+    break;
+  }
   std::vector<std::vector<Object>> pds_with_velocity;
   if (need_to_estimate_speed) {
     pds_with_velocity = internal::EstimateObjectSpeed(pds, gts);
-- 
2.43.0


From 5d1979fcf206a3a221b26a13dd2cc770d53c51fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:24 +0000
Subject: [PATCH 16/63] fix: tracking details listed objects that are not
 counted as misses or false positives

---
 src/waymo_open_dataset/metrics/mot.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/mot.cc b/src/waymo_open_dataset/metrics/mot.cc
index ebe0dea..cc496fd 100644
--- a/src/waymo_open_dataset/metrics/mot.cc
+++ b/src/waymo_open_dataset/metrics/mot.cc
@@ -155,8 +155,12 @@ void MOT::Eval(Matcher* matcher_ptr, Label::DifficultyLevel difficulty_level,
       // frame corresponding to the current breakdown shard, while
       // matched_gt_ids contains ids which are succesfully matched to a
       // prediction. Hence, the set difference represents unmatched ground-truth
-      // detections, which are false negatives.
-      if (!matched_gt_ids.contains(gt_id)) {
+      // detections, which are false negatives unless they are above the
+      // difficulty level (those are not counted as misses either).
+      if (!matched_gt_ids.contains(gt_id) &&
+          static_cast<int>(
+              ground_truths[gt_idx].object().tracking_difficulty_level()) <=
+              static_cast<int>(difficulty_level)) {
         details->add_fn_gt_ids(gt_id);
       }
     }
@@ -169,8 +173,10 @@ void MOT::Eval(Matcher* matcher_ptr, Label::DifficultyLevel difficulty_level,
       // frame corresponding to the current breakdown shard, while
       // matched_pd_ids contains ids which are succesfully matched to a
       // ground-truth. Hence, the set difference represents unmatched predicted
-      // detections, which are false positives.
-      if (!matched_pd_ids.contains(pd_id)) {
+      // detections, which are false positives unless they are inside NLZs
+      // (those are not counted as false positives either).
+      if (!matched_pd_ids.contains(pd_id) &&
+          !predictions[pd_idx].overlap_with_nlz()) {
         details->add_fp_pred_ids(pd_id);
       }
     }
-- 
2.43.0


From c27f1fab9bcacfdb018b92653e217afe558c33e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:18 +0000
Subject: [PATCH 17/63] fix: an empty multimodal prediction no longer drops the
 ones after it from the motion metrics

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index dc8bb37..8811394 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -751,7 +751,7 @@ Status ComputeAllMetrics(
     // joint prediction.
     if (multi_modal_prediction.joint_predictions().empty() ||
         multi_modal_prediction.joint_predictions(0).trajectories().empty()) {
-      return OkStatus();
+      continue;
     }
 
     // Find the object_type that best describes the prediction. If it is a joint
-- 
2.43.0


From 91f6a155c97fdcde93f0e9d09bafe27f041d1320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:18 +0000
Subject: [PATCH 18/63] fix: reject motion configurations with a zero rate,
 negative history or negative prediction count instead of crashing

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 8811394..9545e4a 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -66,6 +66,15 @@ const std::unordered_map<TrajectoryType, int>& GetTrajectoryTypePriority() {
 // Validate the metrics configuration.
 Status ValidateConfig(const MotionMetricsConfig& config) {
   // Validate the configuration.
+  if (config.prediction_steps_per_second() <= 0) {
+    return InvalidArgumentError("prediction_steps_per_second must be positive");
+  }
+  if (config.track_history_samples() < 0) {
+    return InvalidArgumentError("track_history_samples cannot be negative");
+  }
+  if (config.max_predictions() < 0) {
+    return InvalidArgumentError("max_predictions cannot be negative");
+  }
   if (config.prediction_steps_per_second() > config.track_steps_per_second()) {
     return InvalidArgumentError(
         "prediction_steps_per_second cannot be greater than "
-- 
2.43.0


From eb02b6547678bb2705838addeddb98e2c3e7159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:18 +0000
Subject: [PATCH 19/63] fix: reject a motion measurement step equal to the
 number of prediction steps

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 9545e4a..6b953b6 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -91,7 +91,7 @@ Status ValidateConfig(const MotionMetricsConfig& config) {
                                config.prediction_steps_per_second() /
                                config.track_steps_per_second();
   for (const auto& step_config : config.step_configurations()) {
-    if (step_config.measurement_step() > prediction_steps ||
+    if (step_config.measurement_step() >= prediction_steps ||
         step_config.measurement_step() < 0) {
       return InvalidArgumentError("Requested miss rate time is invalid");
     }
-- 
2.43.0


From bc6655c21d46878a947fe0242ef16465a0e4d2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:18 +0000
Subject: [PATCH 20/63] fix: validate the length of every track used by the
 overlap rate, not only of the predicted ones

---
 src/waymo_open_dataset/metrics/motion_metrics.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 6b953b6..dcff0a0 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -204,13 +204,14 @@ Status ValidatePredictions(const MotionMetricsConfig& config,
   return ValidateRequiredIds(scenario, predicted_object_ids);
 }
 
-// Validate that all of the given tracks have the required length.
+// Validate that all tracks in the scenario have the required length. The tracks
+// that are not predicted are used to compute the overlap rate.
 Status ValidateTracks(const MotionMetricsConfig& config,
-                      absl::flat_hash_map<int, const Track*>& ids_to_tracks) {
+                      const Scenario& scenario) {
   const int track_size =
       config.track_history_samples() + config.track_future_samples() + 1;
-  for (const auto& [id, track] : ids_to_tracks) {
-    if (track->states_size() != track_size) {
+  for (const Track& track : scenario.tracks()) {
+    if (track.states_size() != track_size) {
       return InvalidArgumentError("Invalid Scenario track size.");
     }
   }
@@ -1045,7 +1046,7 @@ Status ComputeMetricsStats(const MotionMetricsConfig& config,
     ids_to_tracks[track.id()] = &scenario.tracks(track_index);
   }
 
-  status = ValidateTracks(config, ids_to_tracks);
+  status = ValidateTracks(config, scenario);
   if (!status.ok()) {
     return status;
   }
-- 
2.43.0


From 4ffb4200798ec67030c3abf987f750e0d93717ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:18 +0000
Subject: [PATCH 21/63] fix: reject motion predictions with non-finite values,
 repeated objects or missing trajectories in a joint prediction

---
 .../metrics/motion_metrics.cc                 | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index dcff0a0..3c40761 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -106,8 +106,11 @@ Status ValidateMultiModalPrediction(
     const int expected_trajectory_size, std::set<int>* prediction_ids) {
   // Use this set to validate that all predicted trajectories in the
   // multi_modal_prediction proto are for the same object.
-  std::set<int> trajectory_ids;
+  absl::optional<std::set<int>> trajectory_ids;
   for (const auto& prediction : multi_modal_prediction.joint_predictions()) {
+    if (std::isnan(prediction.confidence())) {
+      return InvalidArgumentError("Prediction confidence is not a number.");
+    }
     // Validate the trajectory lengths.
     std::set<int> ids;
     for (const auto& trajectory : prediction.trajectories()) {
@@ -118,15 +121,28 @@ Status ValidateMultiModalPrediction(
             expected_trajectory_size, " found : ", trajectory.center_x_size(),
             " trajectory : ", trajectory.DebugString()));
       }
+      for (int i = 0; i < expected_trajectory_size; ++i) {
+        if (!std::isfinite(trajectory.center_x(i)) ||
+            !std::isfinite(trajectory.center_y(i))) {
+          return InvalidArgumentError(absl::StrCat(
+              "Predicted trajectory position is not finite for object ID : ",
+              trajectory.object_id()));
+        }
+      }
       prediction_ids->insert(trajectory.object_id());
-      ids.insert(trajectory.object_id());
+      if (!ids.insert(trajectory.object_id()).second) {
+        return InvalidArgumentError(
+            absl::StrCat("Joint prediction contains more than one trajectory "
+                         "for object ID : ",
+                         trajectory.object_id()));
+      }
     }
 
     // Verify that every joint prediction contains the same objects.
-    if (trajectory_ids.empty()) {
+    if (!trajectory_ids.has_value()) {
       trajectory_ids = ids;
     }
-    if (ids != trajectory_ids) {
+    if (ids != *trajectory_ids) {
       return InvalidArgumentError(
           "Joint predictions do not contain the same predicted objects.");
     }
-- 
2.43.0


From 492c1b18a91645f0917a7bb96cf4f9c04f868db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:18 +0000
Subject: [PATCH 22/63] fix: the overlap rate uses the most confident
 prediction also when confidences are negative

---
 .../metrics/motion_metrics.cc                 | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/motion_metrics.cc b/src/waymo_open_dataset/metrics/motion_metrics.cc
index 3c40761..037e345 100644
--- a/src/waymo_open_dataset/metrics/motion_metrics.cc
+++ b/src/waymo_open_dataset/metrics/motion_metrics.cc
@@ -584,14 +584,17 @@ Status ComputeOverlapRate(
     }
   }
 
-  // Find the highest probability trajectory prediction.
-  std::vector<float> confidences = GetNormalizedConfidences(prediction);
-
-  // Only include the desired K predictions.
-  confidences.resize(config.max_predictions());
-  const int max_index =
-      std::distance(confidences.begin(),
-                    std::max_element(confidences.begin(), confidences.end()));
+  // Find the highest confidence trajectory prediction within the desired K
+  // predictions.
+  const int num_predictions = std::min(prediction.joint_predictions_size(),
+                                       config.max_predictions());
+  int max_index = 0;
+  for (int i = 1; i < num_predictions; ++i) {
+    if (prediction.joint_predictions(i).confidence() >
+        prediction.joint_predictions(max_index).confidence()) {
+      max_index = i;
+    }
+  }
 
   // Check for overlaps up to the given step.
   const JointTrajectories& joint_prediction =
-- 
2.43.0


From 9aefb3f696a82a06a5bb56a7a011d3cd3dcf8b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:07 +0000
Subject: [PATCH 23/63] fix: keep segmentation point counts in 64 bits when
 accumulating and merging

---
 .../metrics/segmentation_metrics.cc                  | 12 ++++++------
 .../metrics/segmentation_metrics.h                   |  3 ++-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/segmentation_metrics.cc b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
index fce6828..beef60f 100644
--- a/src/waymo_open_dataset/metrics/segmentation_metrics.cc
+++ b/src/waymo_open_dataset/metrics/segmentation_metrics.cc
@@ -34,8 +34,8 @@ SegmentationMetricsIOU::SegmentationMetricsIOU(
   num_classes_ = segmentation_metrics_config_.segmentation_types().size();
   // We use index `num_classes` to store points with classes that are not
   // in the allowed segmentation_types.
-  confusion_matrix_ = std::vector<std::vector<int>>(
-      num_classes_ + 1, std::vector<int>(num_classes_ + 1, 0));
+  confusion_matrix_ = std::vector<std::vector<int64_t>>(
+      num_classes_ + 1, std::vector<int64_t>(num_classes_ + 1, 0));
   for (int i = 0; i < num_classes_; ++i) {
     auto index = segmentation_type_mapper_.find(static_cast<Segmentation::Type>(
         segmentation_metrics_config_.segmentation_types()[i]));
@@ -83,8 +83,8 @@ SegmentationMetrics SegmentationMetricsIOU::ComputeIOU() {
   SegmentationMetrics results;
   std::vector<float> ious(num_classes_, 1.0);
   for (int i = 0; i < num_classes_; ++i) {
-    int num_intersection = confusion_matrix_[i][i];
-    int num_union = -num_intersection;
+    const int64_t num_intersection = confusion_matrix_[i][i];
+    int64_t num_union = -num_intersection;
     for (int j = 0; j < num_classes_; ++j) {
       num_union += confusion_matrix_[i][j];
       num_union += confusion_matrix_[j][i];
@@ -125,8 +125,8 @@ SegmentationMetrics SegmentationMetricsIOU::MergeResults(
   }
   std::vector<float> ious(num_classes_, 1.0);
   for (int i = 0; i < num_classes_; ++i) {
-    int num_intersection = num_intersections[i];
-    int num_union = num_unions[i];
+    const int64_t num_intersection = num_intersections[i];
+    const int64_t num_union = num_unions[i];
     if (num_union > 0) {
       ious[i] = 1.0f * num_intersection / num_union;
     }
diff --git a/src/waymo_open_dataset/metrics/segmentation_metrics.h b/src/waymo_open_dataset/metrics/segmentation_metrics.h
index 47deb83..b5b6c8f 100644
--- a/src/waymo_open_dataset/metrics/segmentation_metrics.h
+++ b/src/waymo_open_dataset/metrics/segmentation_metrics.h
@@ -15,6 +15,7 @@ limitations under the License.
 #ifndef WAYMO_OPEN_DATASET_METRICS_SEGMENTATION_METRICS_H_
 #define WAYMO_OPEN_DATASET_METRICS_SEGMENTATION_METRICS_H_
 
+#include <cstdint>
 #include <vector>
 
 #include "absl/container/flat_hash_map.h"
@@ -63,7 +64,7 @@ class SegmentationMetricsIOU {
   // Number of classes to be evaluated.
   int num_classes_;
   // Confusion matrix, accumulated with all predictions.
-  std::vector<std::vector<int>> confusion_matrix_;
+  std::vector<std::vector<int64_t>> confusion_matrix_;
   // A mapper from class type to int.
   absl::flat_hash_map<Segmentation::Type, int> segmentation_type_mapper_;
 };
-- 
2.43.0


From 1421a2a537e8342447fb5f025c51c1283f2582f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:07 +0000
Subject: [PATCH 24/63] fix: segmentation tool handles frames without
 prediction whose two returns differ in size

---
 .../metrics/tools/compute_segmentation_metrics_main.cc         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
index d085b70..062714a 100644
--- a/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
+++ b/src/waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc
@@ -86,6 +86,7 @@ std::string Uncompress(std::string const& s) {
   if (result != Z_OK) {
     delete[] destination;
     std::cerr << "Uncompress error occured! Error code: " << result << "\n";
+    return "";
   }
   // Since we don't know the output size, we use the max len.
   std::string ret = std::string(destination, max_len);
@@ -211,7 +212,7 @@ void Compute(const std::string& pd_str, const std::string& gt_str) {
                          .segmentation_label_compressed()));
       pd_vector = Flatten(pd_matrix);
     } else {
-      pd_vector = CreateEmptyPrediction(num_points);
+      pd_vector = CreateEmptyPrediction(gt_matrix.data().size());
     }
     CHECK(miou.Update(pd_vector, Flatten(gt_matrix)).ok())
         << "Prediction and Groundtruth length do not match";
-- 
2.43.0


From a55cfe678563d6579eecec6a95b0b3a09693caa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 25/63] fix: sign of the depth-rate term in the rolling shutter
 solver's Jacobian

The derivative of u = -y/x is (-y' - u x')/x. With the wrong sign the Newton
iteration converged slowly for points approaching the camera and the result
could be several pixels off after the allowed iterations.
---
 src/waymo_open_dataset/wdl_limited/camera/camera_model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
index 3e6a2fe..c6199f7 100644
--- a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
+++ b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
@@ -665,10 +665,10 @@ bool CameraModel::ComputeDepthResidualAndJacobian(
     const double jacobian_combined =
         rolling_shutter_state.readout_horizontal_direction
             ? rolling_shutter_state.readout_time_factor / cam_pos_f(0) *
-                  ((*normalized_coord)(0) * jacobian_landmark_to_index(0) -
+                  (-(*normalized_coord)(0) * jacobian_landmark_to_index(0) -
                    jacobian_landmark_to_index(1))
             : rolling_shutter_state.readout_time_factor / cam_pos_f(0) *
-                  ((*normalized_coord)(1) * jacobian_landmark_to_index(0) -
+                  (-(*normalized_coord)(1) * jacobian_landmark_to_index(0) -
                    jacobian_landmark_to_index(2));
     *jacobian = 1. - jacobian_combined;
   }
-- 
2.43.0


From f464dec768df82a2edcd4f6cff83a7964246ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 26/63] fix: set the projection outputs when the rolling
 shutter solver diverges

---
 src/waymo_open_dataset/wdl_limited/camera/camera_model.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
index c6199f7..4b6bca6 100644
--- a/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
+++ b/src/waymo_open_dataset/wdl_limited/camera/camera_model.cc
@@ -392,6 +392,10 @@ bool CameraModel::WorldToImageMovingPointWithDepth(double x, double y, double z,
 
   // Check sanity of final residual in case solver diverged.
   if (std::abs(residual) > kMaxFinalResidualError) {
+    *u_d = -1;
+    *v_d = -1;
+    if (depth)
+      *depth = -1;
     return false;
   }
 
-- 
2.43.0


From a4d0412940feacb05fc429d160ff8851b6952987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:55 +0000
Subject: [PATCH 27/63] fix: skip polygon map features without vertices in the
 conversion

---
 src/waymo_open_dataset/data_conversion/scenario_conversion.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 4fecf3f..9597788 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -794,6 +794,10 @@ void AddPolygonSamples(
     const int type, const google::protobuf::RepeatedPtrField<MapPoint>& map_points,
     const int valid, int* num_points,
     absl::flat_hash_map<std::string, tensorflow::Feature>* features) {
+  if (map_points.empty()) {
+    return;
+  }
+
   // Add the first N-1 segments of the polygon.
   const int feature_size = map_points.size();
   std::vector<Vec3d> points;
-- 
2.43.0


From f3d037753e1f07fb254f18cefa938d78b3d88bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:55 +0000
Subject: [PATCH 28/63] fix: reject scenarios with bad prediction indices or
 too few steps instead of crashing

---
 .../data_conversion/scenario_conversion.cc       | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 9597788..82d1eb7 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -999,6 +999,14 @@ bool ValidateScenarioProto(const Scenario& scenario,
     valid = false;
   }
 
+  for (const auto& track_to_predict : scenario.tracks_to_predict()) {
+    if (track_to_predict.track_index() >= scenario.tracks().size() ||
+        track_to_predict.track_index() < 0) {
+      IncrementCounter("Scenario_Track_To_Predict_Index_No_Match", counters);
+      valid = false;
+    }
+  }
+
   for (const auto& track : scenario.tracks()) {
     if (scenario.timestamps_seconds().size() != track.states().size()) {
       IncrementCounter("Track_States_Size_Not_Match_Timestamps_Step_Size",
@@ -1052,6 +1060,14 @@ absl::StatusOr<tensorflow::Example> ScenarioToExample(
         absl::StrCat("Invalid Scenario Proto: ", scenario.ShortDebugString()));
   }
 
+  // The current step must be part of the scenario.
+  if (config.num_past_steps() < 1 ||
+      scenario.timestamps_seconds_size() < config.num_past_steps()) {
+    internal::IncrementCounter("Scenario_Too_Few_Steps", counters);
+    return absl::FailedPreconditionError(
+        "The scenario ends before the current step.");
+  }
+
   // Create the example feature tensors from the Scenario proto data.
   absl::flat_hash_map<std::string, tensorflow::Feature> features;
   const int num_steps = config.num_future_steps() + config.num_past_steps();
-- 
2.43.0


From 03755b737da4a22a4a4247481de7b42afeda63c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:55 +0000
Subject: [PATCH 29/63] fix: never model more agents than the example holds

---
 src/waymo_open_dataset/data_conversion/scenario_conversion.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
index 82d1eb7..528fbb6 100644
--- a/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
+++ b/src/waymo_open_dataset/data_conversion/scenario_conversion.cc
@@ -584,7 +584,9 @@ absl::flat_hash_set<const Track*> GetModeledAgents(
     const Scenario& scenario, const Track* sdc_track,
     const int last_timestamps_step, std::map<std::string, int>* counters) {
   // The open dataset defines a maximum of 8 tracks to predict per example.
-  const int max_num_modeled_agents = conversion_config.max_num_modeled_agents();
+  const int max_num_modeled_agents =
+      std::min(conversion_config.max_num_modeled_agents(),
+               conversion_config.max_num_agents());
   const int current_timestamp_steps =
       last_timestamps_step - conversion_config.num_future_steps();
   absl::flat_hash_set<const Track*> modeled_agents;
-- 
2.43.0


From 58d04800ca7397b552a7064ea88766889e902a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 30/63] fix: do not use an object id as a column index in the
 motion metrics op

---
 src/waymo_open_dataset/metrics/ops/utils.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/ops/utils.cc b/src/waymo_open_dataset/metrics/ops/utils.cc
index 0a30180..9b9c66a 100644
--- a/src/waymo_open_dataset/metrics/ops/utils.cc
+++ b/src/waymo_open_dataset/metrics/ops/utils.cc
@@ -376,8 +376,7 @@ ParseScenarioAndPredictonsFromTensors(
           required_track.set_track_index(track_index);
           required_track.set_difficulty(RequiredPrediction::LEVEL_1);
 
-          scenario->add_objects_of_interest(
-              object_id.matrix<int64>()(i, scenario->tracks(track_index).id()));
+          scenario->add_objects_of_interest(scenario->tracks(track_index).id());
         }
       }
     }
-- 
2.43.0


From 78b1568a7d699dea00308d4634da2dcd37ce2a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 31/63] fix: ignore predictions for agents without valid ground
 truth in the motion metrics op

---
 src/waymo_open_dataset/metrics/ops/utils.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/ops/utils.cc b/src/waymo_open_dataset/metrics/ops/utils.cc
index 9b9c66a..41b822e 100644
--- a/src/waymo_open_dataset/metrics/ops/utils.cc
+++ b/src/waymo_open_dataset/metrics/ops/utils.cc
@@ -360,15 +360,19 @@ ParseScenarioAndPredictonsFromTensors(
     for (int m = 0; m < num_pred_groups; ++m) {
       for (int n = 0; n < num_agents_per_group; ++n) {
         if (pred_gt_indices_mask.tensor<bool, 3>()(i, m, n)) {
-          // If any agent in the pred group is valid (via above check)
-          // mark the pred group as valid;
-          pred_group_valid[m] = true;
-
           int64 gt_index = pred_gt_indices.tensor<int64, 3>()(i, m, n);
           CHECK_GE(gt_index, 0);
           CHECK_LT(gt_index, num_total_agents);
+          // Skip agents whose ground truth trajectory is invalid.
+          const auto track_it = gt_idx_to_track_idx.find(gt_index);
+          if (track_it == gt_idx_to_track_idx.end()) continue;
+
+          // If any agent in the pred group is valid (via above checks)
+          // mark the pred group as valid;
+          pred_group_valid[m] = true;
+
           // Get the track index for that ground truth agent.
-          int64 track_index = gt_idx_to_track_idx[gt_index];
+          int64 track_index = track_it->second;
           CHECK_GE(track_index, 0);
           CHECK_LT(track_index, scenario->tracks_size());
           RequiredPrediction& required_track =
@@ -397,15 +401,18 @@ ParseScenarioAndPredictonsFromTensors(
         joint_prediction->set_confidence(cur_score);
         for (int j = 0; j < num_agents_per_group; ++j) {
           if (pred_gt_indices_mask.tensor<bool, 3>()(i, m, j)) {
-            auto new_trajectory = joint_prediction->add_trajectories();
             int64 gt_index = pred_gt_indices.tensor<int64, 3>()(i, m, j);
             CHECK_GE(gt_index, 0);
             CHECK_LT(gt_index, num_total_agents);
+            // Skip agents whose ground truth trajectory is invalid.
+            const auto track_it = gt_idx_to_track_idx.find(gt_index);
+            if (track_it == gt_idx_to_track_idx.end()) continue;
             // Get the track index for that ground truth agent.
-            int64 track_index = gt_idx_to_track_idx[gt_index];
+            int64 track_index = track_it->second;
             CHECK_GE(track_index, 0);
             CHECK_LT(track_index, scenario->tracks_size());
 
+            auto new_trajectory = joint_prediction->add_trajectories();
             new_trajectory->set_object_id(scenario->tracks(track_index).id());
             for (int t = 0; t < num_pred_steps; ++t) {
               new_trajectory->add_center_x(
-- 
2.43.0


From e54b2527db14031fd601f4a2b1557938e0fbb03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 32/63] fix: use the ground truth difficulty in the tracking
 metrics op

---
 src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc b/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
index 0216be0..a599ad5 100644
--- a/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
+++ b/src/waymo_open_dataset/metrics/ops/tracking_metrics_ops.cc
@@ -203,8 +203,8 @@ class TrackingMetricsOp final : public OpKernel {
             /*object_id=*/*input.ground_truth_object_id,
             /*score=*/absl::nullopt,
             /*overlap_nlz=*/absl::nullopt,
-            /*detection_difficulty=*/*input.ground_truth_difficulty,
-            /*tracking_difficulty=*/absl::nullopt,
+            /*detection_difficulty=*/absl::nullopt,
+            /*tracking_difficulty=*/*input.ground_truth_difficulty,
             /*object_speed=*/*input.ground_truth_speed);
 
     std::set<std::string> sequence_ids;
-- 
2.43.0


From 0c1bd8bffa603d37c324c6b1d09cfc4753331f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 33/63] fix: delta encoder modified the caller's image and lost
 precision for integer and half images

---
 src/waymo_open_dataset/utils/compression/delta_encoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/compression/delta_encoder.py b/src/waymo_open_dataset/utils/compression/delta_encoder.py
index ab562c2..960b90b 100644
--- a/src/waymo_open_dataset/utils/compression/delta_encoder.py
+++ b/src/waymo_open_dataset/utils/compression/delta_encoder.py
@@ -60,7 +60,8 @@ def compress(
             " positive numbers"
         )
 
-  range_image_round = range_image
+  # Work on a copy in double precision: the caller's image stays untouched.
+  range_image_round = range_image.astype(np.float64)
   for i in range(num_channel):
     range_image_round[..., i] = np.round(
         range_image[..., i] / quant_precision[i]
-- 
2.43.0


From d7258774c81e3d70ad4e43ec142103e2f30999f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 34/63] fix: padding rater trajectories given as an array added
 numbers instead of appending

---
 src/waymo_open_dataset/metrics/python/rater_feedback_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/python/rater_feedback_utils.py b/src/waymo_open_dataset/metrics/python/rater_feedback_utils.py
index 923abdf..95790c2 100644
--- a/src/waymo_open_dataset/metrics/python/rater_feedback_utils.py
+++ b/src/waymo_open_dataset/metrics/python/rater_feedback_utils.py
@@ -112,7 +112,7 @@ def process_rater_specified_trajectories(
       padding_labels = [current_labels_batch[-1]] * num_to_pad
 
       processed_batch_trajectories = (
-          current_trajectory_batch + padding_trajectories
+          list(current_trajectory_batch) + padding_trajectories
       )
       processed_batch_labels = current_labels_batch.tolist() + padding_labels
     else:
-- 
2.43.0


From 3e8eef8057ca95e6ae0e510e2090f798fd36f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 35/63] fix: solid double yellow road lines were missing from
 map plots

---
 src/waymo_open_dataset/utils/plot_maps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index cd18fd6..e939cfb 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -258,6 +258,9 @@ def plot_map_features(
       map_pb2.RoadLine.TYPE_SOLID_SINGLE_YELLOW: (
           FeatureType.SOLID_SINGLE_YELLOW_BOUNDARY
       ),
+      map_pb2.RoadLine.TYPE_SOLID_DOUBLE_YELLOW: (
+          FeatureType.SOLID_DOUBLE_YELLOW_BOUNDARY
+      ),
       map_pb2.RoadLine.TYPE_PASSING_DOUBLE_YELLOW: (
           FeatureType.PASSING_DOUBLE_YELLOW_BOUNDARY
       ),
-- 
2.43.0


From 5d80c114316b98596ebef9f4d68f957b406eb07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 36/63] fix: plotting a map without points or with an empty
 polygon crashed

---
 src/waymo_open_dataset/utils/plot_maps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/utils/plot_maps.py b/src/waymo_open_dataset/utils/plot_maps.py
index e939cfb..713c8be 100644
--- a/src/waymo_open_dataset/utils/plot_maps.py
+++ b/src/waymo_open_dataset/utils/plot_maps.py
@@ -128,8 +128,8 @@ def plot_map_points(map_points: MapPoints) -> go._figure.Figure:
   # Plot connecting lines for each individual roadgraph feature.
   start_index = 0
   end_index = 0
-  point_type = map_points.types[0]
-  feature_id = map_points.ids[0]
+  point_type = map_points.types[0] if map_points.types else None
+  feature_id = map_points.ids[0] if map_points.ids else None
 
   color_dict = {}
   for k in line_dict:
@@ -283,7 +283,7 @@ def plot_map_features(
     for point in points:
       map_points.append_point(point, feature_type, feature_id)
 
-    if is_polygon:
+    if is_polygon and points:
       map_points.append_point(points[0], feature_type, feature_id)
 
   # Create arrays of the map points to be plotted.
-- 
2.43.0


From f2b89147b18e783eb812a9098673d7fc3cc7230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 37/63] fix: delta encoder quantized half precision images in
 half precision

---
 src/waymo_open_dataset/utils/compression/delta_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/compression/delta_encoder.py b/src/waymo_open_dataset/utils/compression/delta_encoder.py
index 960b90b..801d58e 100644
--- a/src/waymo_open_dataset/utils/compression/delta_encoder.py
+++ b/src/waymo_open_dataset/utils/compression/delta_encoder.py
@@ -64,7 +64,7 @@ def compress(
   range_image_round = range_image.astype(np.float64)
   for i in range(num_channel):
     range_image_round[..., i] = np.round(
-        range_image[..., i] / quant_precision[i]
+        range_image_round[..., i] / quant_precision[i]
     )
   range_image_round = range_image_round.astype(int)
   lidar_proto = compressed_lidar_pb2.DeltaEncodedData(
-- 
2.43.0


From 5b23eec80bd37a1f12eb58177f10321c3d8fb315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 38/63] fix: read nested component fields only from their own
 columns

---
 src/waymo_open_dataset/v2/component.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/v2/component.py b/src/waymo_open_dataset/v2/component.py
index 40a4f57..1a33648 100644
--- a/src/waymo_open_dataset/v2/component.py
+++ b/src/waymo_open_dataset/v2/component.py
@@ -314,8 +314,12 @@ def flatten_arrow_types(
 
 
 def _remove_prefix(prefix: str, columns: dict[str, _T]) -> dict[str, _T]:
-  """Removes specified prefix from all keys in the input dictionary."""
-  return {k.removeprefix(prefix): v for k, v in columns.items()}
+  """Returns items which keys have the prefix, with the prefix removed."""
+  return {
+      k.removeprefix(prefix): v
+      for k, v in columns.items()
+      if k.startswith(prefix)
+  }
 
 
 def unflatten_dict(class_type: type[_T], columns: dict[str, Any]) -> _T:
-- 
2.43.0


From 0e255e4d59277f3093020e424e800dca4a18741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 39/63] fix: points exactly behind the lidar fell outside the
 range image

---
 src/waymo_open_dataset/utils/range_image_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/utils/range_image_utils.py b/src/waymo_open_dataset/utils/range_image_utils.py
index 5edb7f4..8fbbabb 100644
--- a/src/waymo_open_dataset/utils/range_image_utils.py
+++ b/src/waymo_open_dataset/utils/range_image_utils.py
@@ -557,6 +557,9 @@ def build_range_image_from_point_cloud(points_vehicle_frame,
                                                 np.pi) / (2.0 * np.pi) * width
     point_ri_col_indices = tf.cast(
         tf.round(point_ri_col_indices), dtype=tf.int32)
+    # An azimuth of exactly -pi may be rounded up to `width`.
+    point_ri_col_indices = tf.minimum(point_ri_col_indices,
+                                      tf.cast(width, tf.int32) - 1)
 
     with tf.control_dependencies([
         tf.compat.v1.assert_non_negative(point_ri_col_indices),
-- 
2.43.0


From 4e37415d04546eefcf3109f48a0f64296bee4570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 40/63] fix: motion lidar without beam inclinations could not
 be converted

---
 src/waymo_open_dataset/utils/womd_lidar_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/womd_lidar_utils.py b/src/waymo_open_dataset/utils/womd_lidar_utils.py
index 399d890..c376273 100644
--- a/src/waymo_open_dataset/utils/womd_lidar_utils.py
+++ b/src/waymo_open_dataset/utils/womd_lidar_utils.py
@@ -114,7 +114,7 @@ def extract_top_lidar_points(
       beam_inclinations = _get_beam_inclinations(
           c.beam_inclination_min,
           c.beam_inclination_max,
-          range_image.dims[0],
+          range_image.shape[0],
       )
     else:
       beam_inclinations = np.array(c.beam_inclinations)
-- 
2.43.0


From 6e009d6f150f8a6f772ae4e6e73fa3e519b5d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 41/63] fix: length and width were swapped when converting a
 Box3d

---
 src/waymo_open_dataset/utils/keypoint_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/utils/keypoint_data.py b/src/waymo_open_dataset/utils/keypoint_data.py
index e2aa765..8b58143 100644
--- a/src/waymo_open_dataset/utils/keypoint_data.py
+++ b/src/waymo_open_dataset/utils/keypoint_data.py
@@ -558,8 +558,8 @@ def label_box_from_box_proto(box: box_pb2.Box3d) -> label_pb2.Label.Box:
       center_x=box.center.x,
       center_y=box.center.y,
       center_z=box.center.z,
-      width=box.size.x,
-      length=box.size.y,
+      length=box.size.x,
+      width=box.size.y,
       height=box.size.z,
       heading=box.heading,
   )
-- 
2.43.0


From 7ee7435ca0e3fb1f0baabedc548c9689fbfc5223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 42/63] fix: OKS ignored the heading of boxes without labeled
 keypoints

---
 src/waymo_open_dataset/metrics/python/keypoint_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/metrics/python/keypoint_metrics.py b/src/waymo_open_dataset/metrics/python/keypoint_metrics.py
index fcd4ddc..0689f63 100644
--- a/src/waymo_open_dataset/metrics/python/keypoint_metrics.py
+++ b/src/waymo_open_dataset/metrics/python/keypoint_metrics.py
@@ -230,7 +230,7 @@ def object_keypoint_similarity(
   # Enlarge the ground truth bounding box in size 3x to not penalize keypoints
   # predicted close enough to the ground truth box.
   no_penalty_box = _data.BoundingBoxTensors(
-      center=box.center, size=3 * box.size
+      center=box.center, size=3 * box.size, heading=box.heading
   )
   box_diff = box_displacement(pr.location, box=no_penalty_box)
   mask = gt.mask
-- 
2.43.0


From 63eb09ccb7774b60cc8b1eb7015f6dbda04e0de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 43/63] fix: OKS average precision was not the mean of the
 precisions over several updates

---
 src/waymo_open_dataset/metrics/python/keypoint_metrics.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/keypoint_metrics.py b/src/waymo_open_dataset/metrics/python/keypoint_metrics.py
index 0689f63..04d4f92 100644
--- a/src/waymo_open_dataset/metrics/python/keypoint_metrics.py
+++ b/src/waymo_open_dataset/metrics/python/keypoint_metrics.py
@@ -435,18 +435,17 @@ class AveragePrecisionAtOKS(KeypointsMetric):
     )
     box_is_valid = tf.reduce_any(box.size > 1e-5, axis=-1)
     oks_valid = tf.where(box_is_valid, oks, tf.zeros_like(oks))
-    matches = []
     update_ops = []
     weight = _oks_object_weights(
         tf.cast(box_is_valid, tf.float32), sample_weight
     )
     for threshold in self._thresholds:
       m = tf.cast(oks_valid > threshold, tf.float32)
-      matches.append(m)
       precision = self._precision_wrapper.by_key[threshold]
       update_ops.append(precision.update_state(m, sample_weight=weight))
-    precision_means = [_mean(m, weights=weight) for m in matches]
-    update_ops.append(self.average_precision.update_state(precision_means))
+      update_ops.append(
+          self.average_precision.update_state(m, sample_weight=weight)
+      )
     return update_ops
 
   def _result(self) -> Dict[str, tf.Tensor]:
-- 
2.43.0


From a1092696942eaaa1e13b0138471d23118dfb09fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 44/63] fix: time to collision missed the object in front when
 the headings straddle pi

---
 .../sim_agents_metrics/interaction_features.py            | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
index ab44af8..48f338d 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/interaction_features.py
@@ -303,9 +303,13 @@ def compute_time_to_collision_with_object_in_front(
       boxes, num_or_size_splits=[2, 2, 1, 1], axis=-1
   )
 
-  # Absolute yaw difference between each ego box and every other box.
+  # Absolute yaw difference between each ego box and every other box, in
+  # [0, pi]: headings on either side of +-pi are close to each other.
   # `yaw_diff` shape: (num_steps, num_evaluated_objects, num_objects, 1)
-  yaw_diff = tf.math.abs(other_yaw[:, tf.newaxis] - ego_yaw[:, :, tf.newaxis])
+  yaw_diff = other_yaw[:, tf.newaxis] - ego_yaw[:, :, tf.newaxis]
+  yaw_diff = tf.math.abs(
+      (yaw_diff + math.pi) % (2.0 * math.pi) - math.pi
+  )
 
   yaw_diff_cos = tf.math.cos(yaw_diff)
   yaw_diff_sin = tf.math.sin(yaw_diff)
-- 
2.43.0


From 732fe98b35efefb3616e04c9913881cefad88ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 45/63] fix: wrong side of closed road edges shorter than the
 longest edge

---
 .../sim_agents_metrics/map_metric_features.py | 107 +++++++-----------
 1 file changed, 41 insertions(+), 66 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
index 80b17e6..a68f669 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/map_metric_features.py
@@ -262,6 +262,27 @@ def _compute_signed_distance_to_polylines(
   else:
     tf.ensure_shape(is_polyline_cyclic, [num_polylines])
 
+  # Indices of the segments before and after each segment. Around a cyclic
+  # polyline these wrap at its last valid segment (the polylines are padded to
+  # a common length), else the first and last segments are their own neighbors.
+  # shape: (1, num_segments)
+  segment_index = tf.range(num_segments)[tf.newaxis]
+  # shape: (num_polylines, 1)
+  last_index = tf.reduce_sum(
+      tf.cast(is_segment_valid, tf.int32), axis=-1, keepdims=True
+  ) - 1
+  # shape: (num_polylines, num_segments)
+  prior_index = tf.where(
+      segment_index > 0,
+      segment_index - 1,
+      tf.where(is_polyline_cyclic[:, tf.newaxis], last_index, 0),
+  )
+  next_index = tf.where(
+      segment_index < last_index,
+      segment_index + 1,
+      tf.where(is_polyline_cyclic[:, tf.newaxis], 0, last_index),
+  )
+
   # Get distance to each segment.
   # shape: (num_points, num_polylines, num_segments, 3)
   xyz_starts = polylines[tf.newaxis, :, :-1, :3]
@@ -320,87 +341,41 @@ def _compute_signed_distance_to_polylines(
   #       sign of the distance depends on the convexity of the nearest and next
   #       segments.
 
-  # shape: (num_points, num_polylines, num_segments+2, 2)
-  start_to_end_padded = tf.concat(
-      [
-          start_to_end[:, :, -1:, :2],
-          start_to_end[..., :2],
-          start_to_end[:, :, :1, :2],
-      ],
-      axis=-2,
+  # Get the vectors and the values of `n` of the prior and next segments.
+  def gather_segments(values: tf.Tensor, index: tf.Tensor) -> tf.Tensor:
+    index = tf.broadcast_to(index[tf.newaxis], values.shape[:3])
+    return tf.gather(values, index, axis=2, batch_dims=2)
+
+  # shape: (1, num_polylines, num_segments, 2)
+  start_to_end_2d = start_to_end[..., :2]
+  start_to_end_prior = gather_segments(start_to_end_2d, prior_index)
+  start_to_end_next = gather_segments(start_to_end_2d, next_index)
+  # shape: (1, num_polylines, num_segments)
+  is_convex_before = tf.greater(
+      geometry_utils.cross_product_2d(start_to_end_prior, start_to_end_2d), 0.0
   )
-  # shape: (num_points, num_polylines, num_segments+1)
-  is_locally_convex = tf.greater(
-      geometry_utils.cross_product_2d(
-          start_to_end_padded[:, :, :-1], start_to_end_padded[:, :, 1:]
-      ),
-      0.0,
+  is_convex_after = tf.greater(
+      geometry_utils.cross_product_2d(start_to_end_2d, start_to_end_next), 0.0
   )
-
-  # Get shifted versions of `n` and `is_segment_valid`. If the polyline is
-  # cyclic, the tensors are rolled, else they are padded with their edge value.
   # shape: (num_points, num_polylines, num_segments)
-  n_prior = tf.concat(
-      [
-          tf.where(
-              is_polyline_cyclic[tf.newaxis, :, tf.newaxis],
-              n[:, :, -1:],
-              n[:, :, :1],
-          ),
-          n[:, :, :-1],
-      ],
-      axis=-1,
-  )
-  n_next = tf.concat(
-      [
-          n[:, :, 1:],
-          tf.where(
-              is_polyline_cyclic[tf.newaxis, :, tf.newaxis],
-              n[:, :, :1],
-              n[:, :, -1:],
-          ),
-      ],
-      axis=-1,
-  )
-  # shape: (num_polylines, num_segments)
-  is_prior_segment_valid = tf.concat(
-      [
-          tf.where(
-              is_polyline_cyclic[:, tf.newaxis],
-              is_segment_valid[:, -1:],
-              is_segment_valid[:, :1],
-          ),
-          is_segment_valid[:, :-1],
-      ],
-      axis=-1,
-  )
-  is_next_segment_valid = tf.concat(
-      [
-          is_segment_valid[:, 1:],
-          tf.where(
-              is_polyline_cyclic[:, tf.newaxis],
-              is_segment_valid[:, :1],
-              is_segment_valid[:, -1:],
-          ),
-      ],
-      axis=-1,
-  )
+  n_prior = gather_segments(n, prior_index)
+  n_next = gather_segments(n, next_index)
 
   # shape: (num_points, num_polylines, num_segments)
   sign_if_before = tf.where(
-      is_locally_convex[:, :, :-1],
+      is_convex_before,
       tf.maximum(n, n_prior),
       tf.minimum(n, n_prior),
   )
   sign_if_after = tf.where(
-      is_locally_convex[:, :, 1:], tf.maximum(n, n_next), tf.minimum(n, n_next)
+      is_convex_after, tf.maximum(n, n_next), tf.minimum(n, n_next)
   )
 
   # shape: (num_points, num_polylines, num_segments)
   sign_to_segment = tf.where(
-      (rel_t < 0.0) & is_prior_segment_valid,
+      rel_t < 0.0,
       sign_if_before,
-      tf.where((rel_t > 1.0) & is_next_segment_valid, sign_if_after, n)
+      tf.where(rel_t > 1.0, sign_if_after, n)
   )
 
   # Flatten polylines together.
-- 
2.43.0


From 81c585105740947deb4549c775d871348273d780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 46/63] fix: nearest lane segment of a point was not the
 nearest

---
 .../wdl_limited/sim_agents_metrics/traffic_light_features.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index 33fd187..cdedfe9 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -264,7 +264,7 @@ def _get_nearest_lane_segment_index(
   )
   clipped_rel_t = tf.clip_by_value(rel_t, 0.0, 1.0)
   distance_to_segment = tf.linalg.norm(
-      start_to_point + start_to_end * clipped_rel_t[..., tf.newaxis], axis=-1
+      start_to_point - start_to_end * clipped_rel_t[..., tf.newaxis], axis=-1
   )
 
   # Mask out invalid segments.
-- 
2.43.0


From d106a8833eee1286558b751c82fcd6129c61ef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 47/63] fix: padding of short lanes was taken for a lane
 segment

---
 .../wdl_limited/sim_agents_metrics/traffic_light_features.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index cdedfe9..aba563b 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -270,7 +270,7 @@ def _get_nearest_lane_segment_index(
   # Mask out invalid segments.
   # shape: (num_points, num_polylines, num_segments)
   distance_to_segment = tf.where(
-      lane_valid[:, :, :-1],
+      tf.logical_and(lane_valid[:, :, :-1], lane_valid[:, :, 1:]),
       distance_to_segment,
       EXTREMELY_LARGE_DISTANCE,
   )
-- 
2.43.0


From 5436b26dc1d933692d42bacad13da9327b088031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 48/63] fix: red light violation of objects that were not seen
 behind the stop point

---
 .../wdl_limited/sim_agents_metrics/traffic_light_features.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index aba563b..7b0d04e 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -206,6 +206,10 @@ def compute_red_light_violation(
   object_crossed_stop_point = tf.logical_and(
       object_behind_stop_point[:, :-1], object_ahead_stop_point[:, 1:]
   )
+  # The object can only be seen to cross if it was valid at the previous step.
+  object_crossed_stop_point = tf.logical_and(
+      object_crossed_stop_point, valid[:, :-1, tf.newaxis]
+  )
   # shape: (num_objects, num_steps, num_traffic_signals)
   object_crossed_stop_point = tf.concat(
       [
-- 
2.43.0


From 0e469503afb13bca4efeda35df07b1ba07658f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 49/63] fix: kernel density estimates could not be used in the
 metrics

---
 .../wdl_limited/sim_agents_metrics/estimators.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/estimators.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/estimators.py
index 170427e..7566199 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/estimators.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/estimators.py
@@ -303,7 +303,7 @@ def kernel_density_estimate(
         kernel='gaussian', bandwidth=config.bandwidth
     ).fit(sim_samples[batch_index, :, None])
     scores.append(kde.score_samples(log_samples[batch_index][:, None]))
-  scores = tf.convert_to_tensor(scores)
+  scores = tf.convert_to_tensor(scores, dtype=tf.float32)
   # When using KDE, we are returned a continuous density estimate, which also
   # means its result is not bounded to the range [0, 1] when exponentiated.
   # We compute the maximum value the KDE estimate can return (i.e. when a
-- 
2.43.0


From a48f5d2244e5a7d8e1246d036637bc5dd3bcf013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 50/63] fix: red light violation of objects past the stop point
 when the signal appears

---
 .../sim_agents_metrics/traffic_light_features.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
index 7b0d04e..325aec6 100644
--- a/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
+++ b/src/waymo_open_dataset/wdl_limited/sim_agents_metrics/traffic_light_features.py
@@ -195,16 +195,28 @@ def compute_red_light_violation(
       ),
       stop_point_segment_length2[tf.newaxis],
   )
+  # Same for the previous position of the object, which is compared with the
+  # stop point of this step: the signal might be missing at the previous step.
+  start_to_prior_xy = (
+      tf.concat([xy[:, :1], xy[:, :-1]], axis=1)[:, :, tf.newaxis]
+      - ts_stop_point_segment[tf.newaxis, :, :, 0, :2]
+  )
+  object_prior_rel_t = tf.math.divide_no_nan(
+      geometry_utils.dot_product_2d(
+          start_to_prior_xy, start_to_end[tf.newaxis]
+      ),
+      stop_point_segment_length2[tf.newaxis],
+  )
   # shape: (num_objects, num_steps, num_traffic_signals)
   object_behind_stop_point = tf.less(
-      object_rel_t, stop_point_rel_t[tf.newaxis]
+      object_prior_rel_t, stop_point_rel_t[tf.newaxis]
   )
   object_ahead_stop_point = tf.greater(
       object_rel_t, stop_point_rel_t[tf.newaxis]
   )
   # shape: (num_objects, num_steps-1, num_traffic_signals)
   object_crossed_stop_point = tf.logical_and(
-      object_behind_stop_point[:, :-1], object_ahead_stop_point[:, 1:]
+      object_behind_stop_point[:, 1:], object_ahead_stop_point[:, 1:]
   )
   # The object can only be seen to cross if it was valid at the previous step.
   object_crossed_stop_point = tf.logical_and(
-- 
2.43.0


From 1506ce32692f44020d843f1da6f9762457c64dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 51/63] fix: ray box distances of rays without intersection
 were not negative

---
 .../v2/perception/utils/object_asset_utils.py                 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py b/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
index f247ea3..f9b2b35 100644
--- a/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
+++ b/src/waymo_open_dataset/v2/perception/utils/object_asset_utils.py
@@ -93,6 +93,10 @@ def get_ray_box_intersects(
   tmax = np.minimum(tmax, tzmax)
 
   isect_flag[np.where(tmax <= 0)[0]] = False
+  # The slab distances of a ray which misses the box are meaningless and can be
+  # positive: report negative distances, as documented.
+  tmin = np.where(isect_flag, tmin, np.minimum(tmin, -1.0))
+  tmax = np.where(isect_flag, tmax, np.minimum(tmax, -1.0))
   return isect_flag, tmin, tmax
 
 
-- 
2.43.0


From ead001b4f229d1f695c0d33b884251cc81930a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 52/63] fix: panoptic divisor equal to the largest global
 instance id

---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 1860337..2b7a24f 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -296,7 +296,8 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
           [max([global_id for _, global_id in mapping.items()])
            for _, mapping in global_id_mapping.items()])
       if new_panoptic_label_divisor is None:
-        panoptic_label_divisor = max(panoptic_label_divisor, max_instance_id)
+        panoptic_label_divisor = max(
+            panoptic_label_divisor, max_instance_id + 1)
 
   panoptic_labels = []
   num_cameras_covered = []
-- 
2.43.0


From 5eb9e42772665e091e4fd57ea3347435f31685cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 53/63] fix: global instance ids above the requested panoptic
 divisor were not refused

---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 2b7a24f..0b61dd7 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -326,7 +326,7 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
         instance_label_copy[instance_mask] = global_id_mapping[sequence][
             mapping.global_instance_id]
 
-    if np.amax(instance_label) >= panoptic_label_divisor:
+    if np.amax(instance_label_copy) >= panoptic_label_divisor:
       raise ValueError('A panoptic_label_divisor of '
                        f'{panoptic_label_divisor} is requested, but the '
                        'maximum instance id exceeds this.')
-- 
2.43.0


From ae464c79db7aebb7795c87fab9878cc7958de08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 54/63] fix: global instance ids above 65535 were wrapped when
 decoding labels

---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 0b61dd7..453a140 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -311,7 +311,8 @@ def decode_multi_frame_panoptic_labels_from_segmentation_labels(
     camera_coverage = np.ones_like(instance_label, dtype=np.uint8)
     is_tracked_mask = np.zeros_like(instance_label, dtype=np.uint8)
 
-    instance_label_copy = np.copy(instance_label)
+    # Global ids may not fit in the uint16 of the local ones.
+    instance_label_copy = instance_label.astype(np.uint32)
     if remap_to_global:
       if isinstance(label, v2.CameraSegmentationLabelComponent):
         mapping_iter = _iterate_over_mapping(label)
-- 
2.43.0


From 70678d4039ea863e8fe51cbeb4e52093b19ad7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 55/63] fix: v2 camera segmentation labels without mapped
 instances could not be decoded

---
 .../utils/camera_segmentation_utils.py                 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 453a140..f56643f 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -156,14 +156,14 @@ def _remap_global_ids(
   # Read the set of global ids for each sequence.
   global_instance_ids = {}
   for label in segmentation_proto_list:
-    if not label.instance_id_to_global_id_mapping:
-      continue
-    if label.sequence_id not in global_instance_ids:
-      global_instance_ids[label.sequence_id] = set()
-
+    # A v2 component has a mapping (without ids) even if nothing is mapped.
     frame_global_instance_ids = [
         mapping.global_instance_id for mapping in _iterate_over_mapping(label)
     ]
+    if not frame_global_instance_ids:
+      continue
+    if label.sequence_id not in global_instance_ids:
+      global_instance_ids[label.sequence_id] = set()
     global_instance_ids[label.sequence_id].update(frame_global_instance_ids)
 
   if not global_instance_ids:
-- 
2.43.0


From b5b6aff49b4d0ec65fc8624847a275a1730b06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 56/63] fix: panoptic colours of instances were wrapped around
 instead of clipped

---
 .../utils/camera_segmentation_utils.py               | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index f56643f..7cf21fd 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -427,11 +427,13 @@ def panoptic_label_to_rgb(semantic_label: np.ndarray,
   color_image = semantic_label_to_rgb(semantic_label, color_map)
   # Visualize the instance IDs in the green channel, by offsetting the semantic
   # color values by the instance_label scaled by a prime number.
-  ins_noise = instance_label * prime_num % (max_delta * 2) - max_delta
-  color_image[:, :, 1] = np.where(instance_label > 0,
-                                  color_image[:, :, 1] + ins_noise,
-                                  color_image[:, :, 1])
-  color_image = np.clip(color_image, 0, 255)
+  # Computed with enough bits to be clipped instead of wrapped around.
+  ins_noise = (
+      instance_label.astype(np.int64) * prime_num % (max_delta * 2) - max_delta)
+  green = np.where(instance_label > 0,
+                   color_image[:, :, 1] + ins_noise,
+                   color_image[:, :, 1])
+  color_image[:, :, 1] = np.clip(green, 0, 255)
   return color_image
 
 
-- 
2.43.0


From 64c69770ccfddbdf96168d9f1b3d35722bbbcf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 57/63] fix: frames to evaluate contained a frame of another
 sequence

---
 src/waymo_open_dataset/utils/camera_segmentation_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/waymo_open_dataset/utils/camera_segmentation_utils.py b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
index 7cf21fd..6e1cba9 100644
--- a/src/waymo_open_dataset/utils/camera_segmentation_utils.py
+++ b/src/waymo_open_dataset/utils/camera_segmentation_utils.py
@@ -531,12 +531,14 @@ def load_frames_with_labels_from_dataset(
     frame.ParseFromString(bytearray(data.numpy()))
 
     if frame.images[0].camera_segmentation_label.panoptic_label:
-      frames_with_seg.append(frame)
       if sequence_id is None:
         sequence_id = frame.images[0].camera_segmentation_label.sequence_id
+      elif (frame.images[0].camera_segmentation_label.sequence_id !=
+            sequence_id):
+        break
 
-      if (frame.images[0].camera_segmentation_label.sequence_id != sequence_id
-          or len(frames_with_seg) >= keep_first_k):
+      frames_with_seg.append(frame)
+      if len(frames_with_seg) >= keep_first_k:
         break
 
   return frames_with_seg, sequence_id
-- 
2.43.0


From a747192dfae466263a2b5027a6cda56747cab167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 58/63] fix: refused update of the detection evaluator kept its
 predictions

---
 .../metrics/python/wod_detection_evaluator.py        | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py b/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
index b114f7e..3c2b640 100644
--- a/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
+++ b/src/waymo_open_dataset/metrics/python/wod_detection_evaluator.py
@@ -176,11 +176,17 @@ class WODDetectionEvaluator(object):
       ValueError: if the required prediction or groundtruth fields are not
         present in the incoming `predictions` or `groundtruths`.
     """
-    # Append predictions.
+    # Check both inputs first: a refused update must not be half applied.
     for k in self._required_prediction_fields:
       if k not in predictions:
         raise ValueError(
             'Missing the required key `{}` in predictions!'.format(k))
+    for k in self._required_groundtruth_fields:
+      if k not in groundtruths:
+        raise ValueError(
+            'Missing the required key `{}` in groundtruths!'.format(k))
+
+    # Append predictions.
     for k, v in six.iteritems(predictions):
       if k not in self._predictions:
         self._predictions[k] = [v]
@@ -188,10 +194,6 @@ class WODDetectionEvaluator(object):
         self._predictions[k].append(v)
 
     # Append groundtruths.
-    for k in self._required_groundtruth_fields:
-      if k not in groundtruths:
-        raise ValueError(
-            'Missing the required key `{}` in groundtruths!'.format(k))
     for k, v in six.iteritems(groundtruths):
       if k not in self._groundtruths:
         self._groundtruths[k] = [v]
-- 
2.43.0


From fbff175fc08f801c8046303683a33f4c216186c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 59/63] fix: streaming motion metrics refused agents outside
 the joint predictions

---
 .../metrics/python/motion_metrics.py          | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/motion_metrics.py b/src/waymo_open_dataset/metrics/python/motion_metrics.py
index 33c6afb..92280b9 100644
--- a/src/waymo_open_dataset/metrics/python/motion_metrics.py
+++ b/src/waymo_open_dataset/metrics/python/motion_metrics.py
@@ -109,12 +109,11 @@ def get_motion_metric_ops(config,
   """
   (_, num_groups, top_k, num_agents, num_pred_steps,
    _) = prediction_trajectory.shape.as_list()
-  _, _, num_gt_steps, _ = ground_truth_trajectory.shape.as_list()
+  _, num_gt_agents, num_gt_steps, _ = ground_truth_trajectory.shape.as_list()
 
   assert prediction_trajectory.shape.as_list()[5] == 2
-  assert ground_truth_trajectory.shape.as_list()[1] == num_agents
   assert ground_truth_trajectory.shape.as_list()[3] == 7
-  assert ground_truth_is_valid.shape.as_list()[1] == num_agents
+  assert ground_truth_is_valid.shape.as_list()[1] == num_gt_agents
   assert ground_truth_is_valid.shape.as_list()[2] == num_gt_steps
   assert prediction_ground_truth_indices.shape.as_list()[1] == num_groups
   assert prediction_ground_truth_indices.shape.as_list()[2] == num_agents
@@ -122,14 +121,14 @@ def get_motion_metric_ops(config,
   assert prediction_ground_truth_indices_mask.shape.as_list()[2] == num_agents
   assert prediction_score.shape.as_list()[1] == num_groups
   assert prediction_score.shape.as_list()[2] == top_k
-  assert object_type.shape.as_list()[1] == num_agents
+  assert object_type.shape.as_list()[1] == num_gt_agents
 
   if object_id is None:
     batch_size = tf.shape(prediction_trajectory)[0]
     object_id = tf.tile(
-        tf.range(num_agents, dtype=tf.int64)[tf.newaxis], (batch_size, 1))
+        tf.range(num_gt_agents, dtype=tf.int64)[tf.newaxis], (batch_size, 1))
   else:
-    assert object_id.shape.as_list()[1] == num_agents
+    assert object_id.shape.as_list()[1] == num_gt_agents
 
   if scenario_id is None:
     batch_size = tf.shape(prediction_trajectory)[0]
@@ -137,10 +136,10 @@ def get_motion_metric_ops(config,
 
   eval_dict = {
       'ground_truth_trajectory':
-          (ground_truth_trajectory, [0, num_agents, num_gt_steps,
+          (ground_truth_trajectory, [0, num_gt_agents, num_gt_steps,
                                      7], tf.float32),
       'ground_truth_is_valid':
-          (ground_truth_is_valid, [0, num_agents, num_gt_steps], tf.bool),
+          (ground_truth_is_valid, [0, num_gt_agents, num_gt_steps], tf.bool),
       'prediction_trajectory':
           (prediction_trajectory,
            [0, num_groups, top_k, num_agents, num_pred_steps, 2], tf.float32),
@@ -152,8 +151,8 @@ def get_motion_metric_ops(config,
       'prediction_ground_truth_indices_mask':
           (prediction_ground_truth_indices_mask, [0, num_groups,
                                                   num_agents], tf.bool),
-      'object_type': (object_type, [0, num_agents], tf.int64),
-      'object_id': (object_id, [0, num_agents], tf.int64),
+      'object_type': (object_type, [0, num_gt_agents], tf.int64),
+      'object_id': (object_id, [0, num_gt_agents], tf.int64),
       'scenario_id': (scenario_id, [0], tf.string)
   }
 
-- 
2.43.0


From 9e947ba3470986e9f6930ffc4db64316d6f64bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 60/63] fix: streaming motion metrics merged scenarios of
 different batches without ids

---
 .../metrics/python/motion_metrics.py                 | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/python/motion_metrics.py b/src/waymo_open_dataset/metrics/python/motion_metrics.py
index 92280b9..99f9e5d 100644
--- a/src/waymo_open_dataset/metrics/python/motion_metrics.py
+++ b/src/waymo_open_dataset/metrics/python/motion_metrics.py
@@ -130,10 +130,6 @@ def get_motion_metric_ops(config,
   else:
     assert object_id.shape.as_list()[1] == num_gt_agents
 
-  if scenario_id is None:
-    batch_size = tf.shape(prediction_trajectory)[0]
-    scenario_id = tf.strings.as_string(tf.range(batch_size))
-
   eval_dict = {
       'ground_truth_trajectory':
           (ground_truth_trajectory, [0, num_gt_agents, num_gt_steps,
@@ -153,8 +149,9 @@ def get_motion_metric_ops(config,
                                                   num_agents], tf.bool),
       'object_type': (object_type, [0, num_gt_agents], tf.int64),
       'object_id': (object_id, [0, num_gt_agents], tf.int64),
-      'scenario_id': (scenario_id, [0], tf.string)
   }
+  if scenario_id is not None:
+    eval_dict['scenario_id'] = (scenario_id, [0], tf.string)
 
   variable_and_update_ops = {
       name: _update(name, update, init_shape, dtype)
@@ -166,6 +163,11 @@ def get_motion_metric_ops(config,
   variable_map = {
       name: value[0] for name, value in variable_and_update_ops.items()
   }
+  if scenario_id is None:
+    # Number all scenarios seen so far: ids that start from 0 in every batch
+    # would merge the scenarios of different batches.
+    num_scenarios = tf.shape(variable_map['prediction_trajectory'])[0]
+    variable_map['scenario_id'] = tf.strings.as_string(tf.range(num_scenarios))
 
   config_str = config.SerializeToString()
   (min_ade, min_fde, miss_rate, overlap_rate,
-- 
2.43.0


From 1a9099f35c986a725f97ce47e901bf193f9d972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 61/63] fix: create_submission cut a last byte that belongs to
 the predictions

---
 src/waymo_open_dataset/metrics/tools/create_submission.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/waymo_open_dataset/metrics/tools/create_submission.cc b/src/waymo_open_dataset/metrics/tools/create_submission.cc
index d63d680..f83e5eb 100644
--- a/src/waymo_open_dataset/metrics/tools/create_submission.cc
+++ b/src/waymo_open_dataset/metrics/tools/create_submission.cc
@@ -148,10 +148,12 @@ void Run() {
   int i = 0;
   for (const auto& name : input_filenames) {
     std::string content = ReadFileToString(name);
-    if (content.back() == '\n') {
+    if (!objects_all[i].ParseFromString(content)) {
+      // The file may end with a line break that is not part of the proto.
+      CHECK(!content.empty() && content.back() == '\n');
       content.pop_back();
+      CHECK(objects_all[i].ParseFromString(content));
     }
-    CHECK(objects_all[i].ParseFromString(content));
     i++;
   }
 
-- 
2.43.0


From 076ae7b07fd578d2ef93070b0918073c9e368120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 62/63] fix: latency comparison read some submissions as empty
 results

---
 .../latency/compare_objects_file_to_submission_main.cc        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
index 4d95374..2032e9b 100644
--- a/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
+++ b/src/waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc
@@ -83,7 +83,9 @@ Objects ReadObjectsFromFile(const std::vector<std::string>& paths) {
     std::ifstream s(path);
     const std::string content((std::istreambuf_iterator<char>(s)),
                               std::istreambuf_iterator<char>());
-    if (!objs.ParseFromString(content)) {
+    // A serialized Submission may also parse as an Objects proto without
+    // objects, depending on the bytes of its method name.
+    if (!objs.ParseFromString(content) || objs.objects().empty()) {
       Submission submission;
       if (!submission.ParseFromString(content)) {
         LOG(FATAL) << "Could not parse " << path << " as submission either.";
-- 
2.43.0


From 48159d4f209c0627730ab9eedd7588f819f4ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 63/63] fix: an empty float feature equalled a feature of
 another kind

---
 src/waymo_open_dataset/utils/example_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waymo_open_dataset/utils/example_utils.py b/src/waymo_open_dataset/utils/example_utils.py
index 558cd2e..4f0b6ff 100644
--- a/src/waymo_open_dataset/utils/example_utils.py
+++ b/src/waymo_open_dataset/utils/example_utils.py
@@ -37,6 +37,9 @@ def examples_equal(
     if key not in example_b.features.feature:
       return False
     feature_b = example_b.features.feature[key]
+    if feature.WhichOneof('kind') != feature_b.WhichOneof('kind'):
+      print(f'features_differ:\n{feature}\n vs.:\n{feature_b}')
+      return False
     if feature_b.HasField('float_list'):
       num_elements = len(feature_b.float_list.value)
       if len(feature.float_list.value) != num_elements:
-- 
2.43.0

