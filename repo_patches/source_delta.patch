From fb573be3d505b67ac80f8a48ae873e911a6e020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 01/62] fix: place the bounding points around the centre of the
 input, not around the origin

---
 include/LoadBalancedDCTriangulator.tpp | 2 +-
 src/lib/DCTriangulator.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index e73b28e..9adb3b8 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -88,7 +88,7 @@ namespace LoadBalancing
                 p.coords = stats.mid;
 
                 for (uint d = 0; d < D; ++d)
-                    p.coords[d] =
+                    p.coords[d] +=
                             (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
                 this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index 6905f0e..9bd87ce 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -78,7 +78,7 @@ DCTriangulator<D, Precision>::DCTriangulator(
             p.coords = stats.mid;
 
             for (uint d = 0; d < D; ++d)
-                p.coords[d] =
+                p.coords[d] +=
                         (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
             this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
-- 
2.43.0


From c4b18ef9abb6e0cc86d1dee33ab75c232f93c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 02/62] fix: initialise maxima with lowest(): all-negative
 coordinates had a maximum of numeric_limits::min()

---
 include/Geometry.h    | 2 +-
 include/Partitioner.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 13c7c10..8388ba5 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -260,7 +260,7 @@ public:
 
         dBox<D, Precision> bounds;
         bounds.low.fill(std::numeric_limits<Precision>::max());
-        bounds.high.fill(std::numeric_limits<Precision>::min());
+        bounds.high.fill(std::numeric_limits<Precision>::lowest());
 
 #ifndef NDEBUG
         std::size_t lc = 0;
diff --git a/include/Partitioner.h b/include/Partitioner.h
index 61e77ec..985893d 100644
--- a/include/Partitioner.h
+++ b/include/Partitioner.h
@@ -79,7 +79,7 @@ struct dPointStats {
         for (uint dim = 0; dim < D; ++dim) {
             min[dim] = std::numeric_limits<Precision>::max();
             mid[dim] = 0;
-            max[dim] = std::numeric_limits<Precision>::min();
+            max[dim] = std::numeric_limits<Precision>::lowest();
         }
     }
 
@@ -122,7 +122,7 @@ dPointStats<D, Precision> getPointStatsSeq(const InputIt &first,
 
     for (uint dim = 0; dim < D; ++dim) {
         stats.min[dim] = std::numeric_limits<Precision>::max();
-        stats.max[dim] = std::numeric_limits<Precision>::min();
+        stats.max[dim] = std::numeric_limits<Precision>::lowest();
 
         for (auto it = first; it != last; ++it) {
 
-- 
2.43.0


From b5addae49e1e47de0bec8057aab9634511c5bcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 03/62] fix: circumsphere encloses the exact sphere also for
 badly conditioned simplices

The border of a partial triangulation was determined with spheres suffering from
catastrophic cancellation; simplices reaching into the neighboring partition were missed.
---
 src/lib/Geometry.cpp | 427 ++++++++-----------------------------------
 1 file changed, 78 insertions(+), 349 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 884adfa..27e6b4d 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -68,6 +68,39 @@ dVector<D, Precision> operator-(const dVector<D, Precision> &a, const dVector<D,
 
 // specializations
 
+/* Sphere around s0 + num / den through s0. The radius is rounded outward: the result encloses the exact
+ * sphere, no matter how badly conditioned the simplex is. perm and numPerm are the sums of the absolute
+ * values of the terms of den and num, i.e. a measure of the cancellation in them.
+ */
+template<uint D, typename Precision>
+static dSphere<D, Precision> enclosingSphere(const dPoint<D, Precision> &s0, const std::array<double, D> &num,
+                                             const double numPerm, const double den, const double perm) {
+
+    constexpr double eps = 16 * std::numeric_limits<double>::epsilon();
+    constexpr double epsP = 16 * std::numeric_limits<Precision>::epsilon();
+
+    dSphere<D, Precision> sphere;
+    sphere.center = s0.coords;
+    sphere.radius = std::numeric_limits<Precision>::infinity();
+
+    const double relErr = eps * perm / std::abs(den);
+    if (!(relErr < 0.5)) // den is not distinguishable from zero
+        return sphere;
+
+    double r2 = 0, mag = 0;
+    for (uint d = 0; d < D; ++d) {
+        const double u = num[d] / den;
+        sphere.center[d] = s0.coords[d] + u;
+        r2 += u * u;
+        mag += std::abs(s0.coords[d]) + std::abs(u);
+    }
+
+    const double r = std::sqrt(r2);
+    sphere.radius = r + 2 * (relErr * r + eps * numPerm / std::abs(den)) + epsP * (r + mag);
+
+    return sphere;
+}
+
 template<typename Precision>
 class GeometryCore<2, Precision> {
 public:
@@ -189,51 +222,20 @@ public:
     static dSphere<2, Precision>
     circumsphere(const dPoint<2, Precision> &s0, const dPoint<2, Precision> &s1, const dPoint<2, Precision> &s2) {
 
-        dSphere<2, Precision> sphere;
-
-        Precision den = 2 * (s0.coords[0] *
-                             (s1.coords[1] -
-                              s2.coords[1]) +
-                             s1.coords[0] *
-                             (s2.coords[1] -
-                              s0.coords[1]) +
-                             s2.coords[0] *
-                             (s0.coords[1] -
-                              s1.coords[1]));
-
-        sphere.center[0] = ((pow(s0.coords[0], 2) +
-                             pow(s0.coords[1], 2)) *
-                            (s1.coords[1] -
-                             s2.coords[1]) +
-                            (pow(s1.coords[0], 2) +
-                             pow(s1.coords[1], 2)) *
-                            (s2.coords[1] -
-                             s0.coords[1]) +
-                            (pow(s2.coords[0], 2) +
-                             pow(s2.coords[1], 2)) *
-                            (s0.coords[1] -
-                             s1.coords[1])) /
-                           den;
-
-        sphere.center[1] = ((pow(s0.coords[0], 2) +
-                             pow(s0.coords[1], 2)) *
-                            (s2.coords[0] -
-                             s1.coords[0]) +
-                            (pow(s1.coords[0], 2) +
-                             pow(s1.coords[1], 2)) *
-                            (s0.coords[0] -
-                             s2.coords[0]) +
-                            (pow(s2.coords[0], 2) +
-                             pow(s2.coords[1], 2)) *
-                            (s1.coords[0] -
-                             s0.coords[0])) /
-                           den;
-
-        sphere.radius =
-                sqrt(pow(sphere.center[0] - s0.coords[0], 2) +
-                     pow(sphere.center[1] - s0.coords[1], 2));
+        // relative to s0: differences of squares of absolute coordinates cancel catastrophically
+        const double bx = double(s1.coords[0]) - s0.coords[0], by = double(s1.coords[1]) - s0.coords[1];
+        const double cx = double(s2.coords[0]) - s0.coords[0], cy = double(s2.coords[1]) - s0.coords[1];
 
-        return sphere;
+        const double b = bx * bx + by * by;
+        const double c = cx * cx + cy * cy;
+
+        const double den = 2 * (bx * cy - by * cx);
+        const double perm = 2 * (std::abs(bx * cy) + std::abs(by * cx));
+
+        const std::array<double, 2> num = {cy * b - by * c, bx * c - cx * b};
+        const double numPerm = (std::abs(bx) + std::abs(by)) * c + (std::abs(cx) + std::abs(cy)) * b;
+
+        return enclosingSphere<2, Precision>(s0, num, numPerm, den, perm);
     }
 };
 
@@ -412,312 +414,39 @@ public:
     static dSphere<3, Precision>
     circumsphere(const dPoint<3, Precision> &s0, const dPoint<3, Precision> &s1, const dPoint<3, Precision> &s2, const dPoint<3, Precision> &s3) {
 
-        dSphere<3, Precision> sphere;
-
-        Precision den = 2 * (s0.coords[0] *
-                             (s2.coords[1] *
-                              s3.coords[2] +
-                              s1.coords[1] *
-                              (s2.coords[2] -
-                               s3.coords[2]) -
-                              s3.coords[1] *
-                              s2.coords[2] -
-                              (s2.coords[1] -
-                               s3.coords[1]) *
-                              s1.coords[2]) -
-                             s1.coords[0] *
-                             (s2.coords[1] *
-                              s3.coords[2] -
-                              s3.coords[1] *
-                              s2.coords[2]) -
-                             s0.coords[1] *
-                             (s2.coords[0] *
-                              s3.coords[2] +
-                              s1.coords[0] *
-                              (s2.coords[2] -
-                               s3.coords[2]) -
-                              s3.coords[0] *
-                              s2.coords[2] -
-                              (s2.coords[0] -
-                               s3.coords[0]) *
-                              s1.coords[2]) +
-                             s1.coords[1] *
-                             (s2.coords[0] *
-                              s3.coords[2] -
-                              s3.coords[0] *
-                              s2.coords[2]) +
-                             s0.coords[2] *
-                             (s2.coords[0] *
-                              s3.coords[1] +
-                              s1.coords[0] *
-                              (s2.coords[1] -
-                               s3.coords[1]) -
-                              s3.coords[0] *
-                              s2.coords[1] -
-                              (s2.coords[0] -
-                               s3.coords[0]) *
-                              s1.coords[1]) -
-                             s1.coords[2] *
-                             (s2.coords[0] *
-                              s3.coords[1] -
-                              s3.coords[0] *
-                              s2.coords[1]));
-
-        sphere.center[0] =
-                (-s0.coords[1] *
-                 (-s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[2] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] +
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2)) *
-                  (s2.coords[2] -
-                   s3.coords[2])) +
-                 s1.coords[1] *
-                 ((pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] -
-                  s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) +
-                 s0.coords[2] *
-                 (-s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[1] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[1] -
-                   s3.coords[1]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) -
-                 s1.coords[2] *
-                 (s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) +
-                 (pow(s0.coords[2], 2) +
-                  pow(s0.coords[1], 2) +
-                  pow(s0.coords[0], 2)) *
-                 (s2.coords[1] *
-                  s3.coords[2] +
-                  s1.coords[1] *
-                  (s2.coords[2] -
-                   s3.coords[2]) -
-                  s3.coords[1] *
-                  s2.coords[2] -
-                  (s2.coords[1] -
-                   s3.coords[1]) *
-                  s1.coords[2]) -
-                 (pow(s1.coords[2], 2) +
-                  pow(s1.coords[1], 2) +
-                  pow(s1.coords[0], 2)) *
-                 (s2.coords[1] *
-                  s3.coords[2] -
-                  s3.coords[1] *
-                  s2.coords[2])) /
-                den;
-
-        sphere.center[1] =
-                (s0.coords[0] *
-                 (-s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[2] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] +
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2)) *
-                  (s2.coords[2] -
-                   s3.coords[2])) -
-                 s1.coords[0] *
-                 ((pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) *
-                  s3.coords[2] -
-                  s2.coords[2] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) -
-                 s0.coords[2] *
-                 (-s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[0] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) +
-                 s1.coords[2] *
-                 (s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) -
-                 (pow(s0.coords[2], 2) +
-                  pow(s0.coords[1], 2) +
-                  pow(s0.coords[0], 2)) *
-                 (s2.coords[0] *
-                  s3.coords[2] +
-                  s1.coords[0] *
-                  (s2.coords[2] -
-                   s3.coords[2]) -
-                  s3.coords[0] *
-                  s2.coords[2] -
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  s1.coords[2]) +
-                 (pow(s1.coords[2], 2) +
-                  pow(s1.coords[1], 2) +
-                  pow(s1.coords[0], 2)) *
-                 (s2.coords[0] *
-                  s3.coords[2] -
-                  s3.coords[0] *
-                  s2.coords[2])) /
-                den;
-
-        sphere.center[2] =
-                (-s0.coords[0] *
-                 (-s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[1] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[1] -
-                   s3.coords[1]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) +
-                 s1.coords[0] *
-                 (s3.coords[1] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[1] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) +
-                 s0.coords[1] *
-                 (-s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2)) -
-                  s1.coords[0] *
-                  (-pow(s3.coords[2], 2) +
-                   pow(s2.coords[2], 2) -
-                   pow(s3.coords[1], 2) +
-                   pow(s2.coords[1], 2) -
-                   pow(s3.coords[0], 2) +
-                   pow(s2.coords[0], 2)) +
-                  s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) +
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  (pow(s1.coords[2], 2) +
-                   pow(s1.coords[1], 2) +
-                   pow(s1.coords[0], 2))) -
-                 s1.coords[1] *
-                 (s3.coords[0] *
-                  (pow(s2.coords[2], 2) +
-                   pow(s2.coords[1], 2) +
-                   pow(s2.coords[0], 2)) -
-                  s2.coords[0] *
-                  (pow(s3.coords[2], 2) +
-                   pow(s3.coords[1], 2) +
-                   pow(s3.coords[0], 2))) -
-                 (s2.coords[0] *
-                  s3.coords[1] -
-                  s3.coords[0] *
-                  s2.coords[1]) *
-                 (pow(s1.coords[2], 2) +
-                  pow(s1.coords[1], 2) +
-                  pow(s1.coords[0], 2)) +
-                 (s2.coords[0] *
-                  s3.coords[1] +
-                  s1.coords[0] *
-                  (s2.coords[1] -
-                   s3.coords[1]) -
-                  s3.coords[0] *
-                  s2.coords[1] -
-                  (s2.coords[0] -
-                   s3.coords[0]) *
-                  s1.coords[1]) *
-                 (pow(s0.coords[2], 2) +
-                  pow(s0.coords[1], 2) +
-                  pow(s0.coords[0], 2))) /
-                den;
-
-        sphere.radius =
-                sqrt(pow(sphere.center[0] - s0.coords[0], 2) +
-                     pow(sphere.center[1] - s0.coords[1], 2) +
-                     pow(sphere.center[2] - s0.coords[2], 2));
+        // relative to s0: differences of products of absolute coordinates cancel catastrophically
+        std::array<std::array<double, 3>, 3> v;
+        std::array<double, 3> l;
+        for (uint d = 0; d < 3; ++d) {
+            v[0][d] = double(s1.coords[d]) - s0.coords[d];
+            v[1][d] = double(s2.coords[d]) - s0.coords[d];
+            v[2][d] = double(s3.coords[d]) - s0.coords[d];
+        }
+        for (uint i = 0; i < 3; ++i)
+            l[i] = v[i][0] * v[i][0] + v[i][1] * v[i][1] + v[i][2] * v[i][2];
+
+        std::array<double, 3> num = {0, 0, 0};
+        double numPerm = 0, den = 0, perm = 0;
+        for (uint i = 0; i < 3; ++i) {
+            const auto &p = v[(i + 1) % 3];
+            const auto &q = v[(i + 2) % 3];
+
+            for (uint d = 0; d < 3; ++d) {
+                const uint e = (d + 1) % 3, f = (d + 2) % 3;
+                const double cross = p[e] * q[f] - p[f] * q[e];
+                const double crossPerm = std::abs(p[e] * q[f]) + std::abs(p[f] * q[e]);
+
+                num[d] += l[i] * cross;
+                numPerm += l[i] * crossPerm;
+
+                if (i == 0) {
+                    den += 2 * v[0][d] * cross;
+                    perm += 2 * std::abs(v[0][d]) * crossPerm;
+                }
+            }
+        }
 
-        return sphere;
+        return enclosingSphere<3, Precision>(s0, num, numPerm, den, perm);
     }
 };
 
-- 
2.43.0


From 85a8c5d226eb6853df1ca9d2dc72016d54a61c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 04/62] fix: growing hash table lost inserts racing with a
 migration and read the table pointer unsynchronised

---
 include/datastructures/Growing_LP.hxx | 84 +++++++++++++++------------
 1 file changed, 47 insertions(+), 37 deletions(-)

diff --git a/include/datastructures/Growing_LP.hxx b/include/datastructures/Growing_LP.hxx
index b4b8a62..1210218 100644
--- a/include/datastructures/Growing_LP.hxx
+++ b/include/datastructures/Growing_LP.hxx
@@ -23,7 +23,7 @@ public:
 
     template<typename... Args>
     GrowingHashTable(Args... args)
-            : g_epoch_r(0), g_epoch_w(0), helperThreads(0) {
+            : g_epoch_r(0), g_epoch_w(0), activeInserts(0), helperThreads(0) {
         g_table_r = std::make_shared<HT>(std::forward<Args>(args)...);
         g_table_w = g_table_r;
     }
@@ -35,7 +35,7 @@ public:
               g_table_r(other.g_table_r),
               g_epoch_w(other.g_epoch_w.load()),
               g_table_w(other.g_table_w),
-              helperThreads(0) { }
+              activeInserts(0), helperThreads(0) { }
 
     ~GrowingHashTable() = default;
 
@@ -44,6 +44,7 @@ public:
         g_table_r = other.g_table_r;
         g_epoch_w.store(other.g_epoch_w.load());
         g_table_w = other.g_table_w;
+        activeInserts.store(0);
         helperThreads.store(0);
 
         return *this;
@@ -71,8 +72,9 @@ private:
         return g_table_r->size();
     }
 
+    std::atomic_uint activeInserts;
     std::atomic_uint helperThreads;
-    std::mutex grow_mutex;
+    mutable std::mutex grow_mutex;
 
 };
 
@@ -180,12 +182,9 @@ public:
 
 private:
     void getTable() const {
-        l_epoch = parent.g_epoch_r.load();
+        std::lock_guard<std::mutex> lock(parent.grow_mutex);
         l_table = parent.g_table_r;
-
-        if (l_table->m_version != l_epoch) {
-            getTable();
-        }
+        l_epoch = l_table->m_version;
     }
 
 private:
@@ -215,19 +214,28 @@ public:
 
     template<typename... Args>
     InsertReturn insert(Args... args) {
-        uint t_epoch = parent.g_epoch_w.load();
-        if (t_epoch > l_epoch) {
-            getTable();
-            if (t_epoch > l_epoch) {
+        while (true) {
+            // announce the insert before checking the epoch: a migration waits for all announced inserts,
+            // otherwise an insert into an already migrated block would be lost
+            parent.activeInserts.fetch_add(1);
+
+            if (parent.g_epoch_w.load() == l_epoch) {
+                auto result = l_table->insert(args...);
+                parent.activeInserts.fetch_sub(1);
+
+                if (!(result == InsertReturn::State::Full))
+                    return result;
+
                 grow();
+            } else {
+                parent.activeInserts.fetch_sub(1);
+
+                getTable();
+                if (parent.g_epoch_w.load() > l_epoch) {
+                    grow();
+                }
             }
         }
-        auto result = l_table->insert(args...);
-        if (result == InsertReturn::State::Full) {
-            grow();
-            return insert(args...);
-        } else
-            return result;
     }
 
     template<typename... Args>
@@ -337,12 +345,9 @@ public:
 
 private:
     void getTable() const {
-        l_epoch = parent.g_epoch_r.load();
+        std::lock_guard<std::mutex> lock(parent.grow_mutex);
         l_table = parent.g_table_r;
-
-        if (l_table->m_version != l_epoch) {
-            getTable();
-        }
+        l_epoch = l_table->m_version;
     }
 
     void grow() {
@@ -352,22 +357,29 @@ private:
         //std::cout << "Growing " << typeid(HT).name() <<std::endl;
 
         HashPtr w_table;
-        { //should be atomic
+        {
             std::lock_guard<std::mutex> lock(parent.grow_mutex);
             if (parent.g_table_w->m_version == l_table->m_version) {
-                auto temp = std::make_shared<HT>(l_table->capacity() << 1,
-                                                 l_table->m_version + 1);
-                parent.g_table_w = temp;
+                parent.g_table_w = std::make_shared<HT>(l_table->capacity() << 1,
+                                                        l_table->m_version + 1);
+                parent.g_epoch_w.store(parent.g_table_w->m_version);
             }
             w_table = parent.g_table_w;
-        }
 
-        //CAS epoch_w up
-        auto t_epoch = l_table->m_version;
-        parent.g_epoch_w.compare_exchange_strong(t_epoch, w_table->m_version);
+            if (parent.g_table_r->m_version > l_table->m_version) {
+                // our table has already been replaced
+                l_table = parent.g_table_r;
+                l_epoch = l_table->m_version;
+                return;
+            }
+
+            //nhelper ++
+            parent.helperThreads.fetch_add(1);
+        }
 
-        //nhelper ++
-        parent.helperThreads.fetch_add(1);
+        //wait for inserts still going to the old table
+        while (parent.activeInserts.load() && parent.g_epoch_r.load() == l_table->m_version)
+        {};
 
         //get block + while block legal migrate and get new block
         auto begin = l_table->m_currentCopyBlock.fetch_add(c_BlockSize);
@@ -388,17 +400,15 @@ private:
         while (parent.helperThreads.load(std::memory_order_acquire))
         {};
 
-        //CAS table into R-Position
+        //publish the new table
         {
             std::lock_guard<std::mutex> lock(parent.grow_mutex);
             if (parent.g_table_r->m_version < w_table->m_version) {
                 parent.g_table_r = w_table;
+                parent.g_epoch_r.store(w_table->m_version);
             }
         }
 
-        //CAS epoch_r up
-        t_epoch = l_table->m_version;
-        parent.g_epoch_r.compare_exchange_strong(t_epoch, w_table->m_version);
         getTable();
     }
 
-- 
2.43.0


From 160ec84a2699e9cf74b16495d0d4bc8ede4d285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:33 +0000
Subject: [PATCH 05/62] fix: accurate grid checker kept a pointer to a point
 set that no longer exists

---
 .../load_balancing/AccurateGridIntersectionChecker.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/load_balancing/AccurateGridIntersectionChecker.h b/include/load_balancing/AccurateGridIntersectionChecker.h
index c6a878b..197166c 100644
--- a/include/load_balancing/AccurateGridIntersectionChecker.h
+++ b/include/load_balancing/AccurateGridIntersectionChecker.h
@@ -22,7 +22,6 @@ namespace LoadBalancing
 
 		private:
 		const dPoints<D, Precision>* points;
-		const Point_Ids* pointIds;
 		std::shared_ptr<CellsWithPoints> mCells;
 
 
@@ -41,11 +40,9 @@ namespace LoadBalancing
 
 		AccurateGridIntersectionChecker(GridIntersectionChecker<D, Precision> gic,
 		                                std::shared_ptr<CellsWithPoints> cells,
-		                                const dPoints<D, Precision>& points,
-		                                const Point_Ids& pointIds)
+		                                const dPoints<D, Precision>& points)
 			: GridIntersectionChecker<D, Precision>(std::move(gic)),
 			  points(&points),
-			  pointIds(&pointIds),
 			  mCells(std::move(cells)) { }
 		
 		virtual bool intersects(const dSphere<D, Precision>& sphere,
@@ -56,8 +53,7 @@ namespace LoadBalancing
 				auto it = mCells->find(cell);
 				assert(it != mCells->end());
 				for(tIdType pointId : it->second.pointIds) {
-					if(pointIds->contains(pointId)
-					   && checkCircumsphereContainsPoint((*points)[pointId], sphere, simplex))
+					if(checkCircumsphereContainsPoint((*points)[pointId], sphere, simplex))
 						return true;
 				}
 			}
@@ -137,10 +133,10 @@ namespace LoadBalancing
 			for(auto& partition : gridIntersectionPartitioning) {
 				auto intersectionChecker = std::move(partition.intersectionChecker);
 				auto gridIntersectionChecker =
-					*(dynamic_cast<GIC*>(intersectionChecker.release()));
+					*(dynamic_cast<GIC*>(intersectionChecker.get()));
 				partition.intersectionChecker =
 					std::make_unique<AGIC>(std::move(gridIntersectionChecker),
-					                       cellsPtr, points, ids);
+					                       cellsPtr, points);
 			}
 
 			return gridIntersectionPartitioning;
-- 
2.43.0


From 890d481436dacdedd7c241aac42e450ae52ad612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:33 +0000
Subject: [PATCH 06/62] fix: inner nodes of the nearest-sample bipartitioner
 had no intersection checker

---
 .../NearestSamplePointAssigningSampleBipartitioner.h            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h b/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
index 9a721f8..142d8fc 100644
--- a/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
+++ b/include/load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h
@@ -81,6 +81,8 @@ namespace LoadBalancing
 
 				leftTree.intersectionChecker = std::move(children[0].intersectionChecker);
 				rightTree.intersectionChecker = std::move(children[1].intersectionChecker);
+				result.intersectionChecker =
+					std::make_unique<BoundsIntersectionChecker<D, Precision>>(bounds);
 				result.attachment = typename decltype(tree)::ChildContainer {
 					std::move(leftTree), std::move(rightTree)};
 			} else {
-- 
2.43.0


From 4e6e24bef5941791963e58d99e6f2bfc8b050021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:21 +0000
Subject: [PATCH 07/62] fix: hyperplane bipartitioner fitted a plane through no
 points at all

---
 .../sample_partitioner/HyperplaneBipartitioner.h           | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h b/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
index 9b4b2d3..fd2113e 100644
--- a/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
+++ b/include/load_balancing/sample_partitioner/HyperplaneBipartitioner.h
@@ -69,6 +69,13 @@ namespace LoadBalancing
 					}
 				}
 
+				// without an edge between the two sides there is nothing to separate
+				if(splitPoints.empty()) {
+					result.intersectionChecker = std::move(intersectionChecker);
+					result.attachment = pointIds;
+					return result;
+				}
+
 				// make hyperplane
 				const auto m = splitPoints.size();
 				constexpr auto n = D + 1;
-- 
2.43.0


From 861be40dbdfe1634aa31ed1de4c65bf8dad11b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:53 +0000
Subject: [PATCH 08/62] fix: partitions without finite points left simplices of
 bounding points in the result

---
 include/LoadBalancedDCTriangulator.tpp |  8 ++++++++
 include/load_balancing/PartitionTree.h | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index 9adb3b8..c4b903e 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -593,6 +593,14 @@ namespace LoadBalancing
 
             VTUNE_TASK(Partitioning);
             auto partioning = std::move(std::get<typename PartitionTree<D, Precision>::ChildContainer>(tree.attachment));
+
+            // a partition of nothing but the bounding points has no part in the triangulation
+            auto isEmpty = [](const PartitionTree<D, Precision> &child) { return !child.hasFinitePoints(); };
+            if (!std::all_of(partioning.begin(), partioning.end(), isEmpty))
+                partioning.erase(std::remove_if(partioning.begin(), partioning.end(), isEmpty), partioning.end());
+            if (partioning.size() == 1)
+                return recursiveTriangulate(std::move(partioning[0]), provenance + "0");
+
             auto partSize = partioning.size();
             ASSERT(partSize > 0);
             VTUNE_END_TASK(Partitioning);
diff --git a/include/load_balancing/PartitionTree.h b/include/load_balancing/PartitionTree.h
index 1536757..12e52de 100644
--- a/include/load_balancing/PartitionTree.h
+++ b/include/load_balancing/PartitionTree.h
@@ -70,6 +70,18 @@ namespace LoadBalancing
             return std::holds_alternative<Point_Ids>(attachment);
         }
 
+        bool hasFinitePoints() const {
+            if(isLeaf()) {
+                const auto& ids = std::get<Point_Ids>(attachment);
+                return std::any_of(ids.begin(), ids.end(), dPoint<D, Precision>::isFinite);
+            }
+
+            const auto& children = std::get<ChildContainer>(attachment);
+            return std::any_of(children.begin(), children.end(), [](const PartitionTree& child) {
+                return child.hasFinitePoints();
+            });
+        }
+
 	private:
         static void flattenContainer(ChildContainer& children)
 		{
-- 
2.43.0


From 0f0c3409ad9301dbbd4cc2b42e4888c38582048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:53 +0000
Subject: [PATCH 09/62] fix: AABB tree dropped the cells of points on the last
 grid line

---
 include/datastructures/AABBTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/AABBTree.h b/include/datastructures/AABBTree.h
index 32adbc7..7e52def 100644
--- a/include/datastructures/AABBTree.h
+++ b/include/datastructures/AABBTree.h
@@ -249,7 +249,8 @@ private:
         // round bounds to cell size
         for(uint d = 0; d < D; ++d){
             bounds.low[d] = std::floor(bounds.low[d] / cell_size) * cell_size;
-            bounds.high[d] = std::ceil(bounds.high[d] / cell_size) * cell_size;
+            // the cell of a point on a grid line is the one above
+            bounds.high[d] = (std::floor(bounds.high[d] / cell_size) + 1) * cell_size;
         }
 
         return bounds;
-- 
2.43.0


From 022244d1056f5bedc9e598d10f1aceb38986b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:31 +0000
Subject: [PATCH 10/62] fix: border detection missed simplices cut off by
 partitions reaching into another one

---
 include/LoadBalancedDCTriangulator.tpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index c4b903e..e01e464 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -148,13 +148,31 @@ namespace LoadBalancing
 
         /* Walk along the neighbors,
         * testing for each neighbor whether its circumsphere is within the
-        * partition or not
+        * partition or not.
+        *
+        * The walk may start at the convex hull only if all other partitions are outside of it. If they reach into
+        * this partition, they may cut off the circumspheres of simplices anywhere in it.
         */
 
+        const auto &bounds = partitioning[partition].bounds;
+        bool overlap = false;
+        for (uint i = 0; i < partitioning.size() && !overlap; ++i) {
+            overlap = i != partition;
+            for (uint d = 0; d < D && overlap; ++d)
+                overlap = partitioning[i].bounds.low[d] < bounds.high[d] && bounds.low[d] < partitioning[i].bounds.high[d];
+        }
+
+        Id_Vector start = simplices.convexHull;
+        if (overlap) {
+            start.clear();
+            for (const auto &simplex : simplices)
+                start.push_back(simplex.id);
+        }
+
         INDENT
 
         VTUNE_TASK(IdentifyEdge);
-        tbb::parallel_do(simplices.convexHull, [&](const tIdType id,
+        tbb::parallel_do(start, [&](const tIdType id,
                                                 tbb::parallel_do_feeder<tIdType> &feeder) {
 
             if (!dSimplex<D, Precision>::isFinite(id))
-- 
2.43.0


From c3ec3102606b07dd59b901537d5156798a3f27b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:02 +0000
Subject: [PATCH 11/62] fix: nextPow2(0) was 0, hash tables created for no
 elements could not take any

---
 include/utils/Misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/Misc.h b/include/utils/Misc.h
index 88d856f..8528996 100644
--- a/include/utils/Misc.h
+++ b/include/utils/Misc.h
@@ -19,7 +19,7 @@ T isPowN(const T x, const T n) {
 
 template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type * = nullptr>
 T nextPow2(const T x) {
-    T v = x - 1;
+    T v = x > 0 ? x - 1 : 0; // the smallest power of two is 1, also for 0
 
     for (T s = 1; s < sizeof(T) * CHAR_BIT; s <<= 1) {
         v |= v >> s;
-- 
2.43.0


From 6a0d38a2cd1decd86a90e1f26e547e9cf3116484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 12/62] fix: sample graph edge weights collapsed to one value
 because their scale was truncated to an integer

---
 include/load_balancing/sample_partitioner/Sampler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index c07ad68..ec0d4af 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -36,7 +36,7 @@ namespace LoadBalancing
 	private:
 		const In minIn, maxIn;
 		const Out minOut, maxOut;
-		const Out scale;
+		const In scale;
 	};
 	
     struct Graph {
-- 
2.43.0


From fda1aa8191641263ac72e6242118f056787f9606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 13/62] fix: sample graph hash table was sized by the absolute
 simplex id

---
 include/load_balancing/sample_partitioner/Sampler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/sample_partitioner/Sampler.h b/include/load_balancing/sample_partitioner/Sampler.h
index ec0d4af..6098a39 100644
--- a/include/load_balancing/sample_partitioner/Sampler.h
+++ b/include/load_balancing/sample_partitioner/Sampler.h
@@ -312,7 +312,7 @@ namespace LoadBalancing
             typedef GrowingHashTable<tEdgeMap> tgEdgeMap;
             typedef GrowingHashTableHandle<tEdgeMap> hEdgeMap;
 
-            tgEdgeMap edgeMap(D * simplices.upperBound() - simplices.lowerBound());
+            tgEdgeMap edgeMap(D * (simplices.upperBound() - simplices.lowerBound()));
             tbb::enumerable_thread_specific<hEdgeMap,
                     tbb::cache_aligned_allocator<hEdgeMap>,
                     tbb::ets_key_usage_type::ets_key_per_instance> tsEdgeMapHandle(std::ref(edgeMap));
-- 
2.43.0


From 3787b17012f77be903359227e459771c6736c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 14/62] fix: partition bounds were computed with concurrent
 writes into one vector<bool>

---
 include/load_balancing/BoundsIntersectionChecker.h | 2 +-
 include/load_balancing/GridIntersectionChecker.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/BoundsIntersectionChecker.h b/include/load_balancing/BoundsIntersectionChecker.h
index 75f31d0..bb72bbd 100644
--- a/include/load_balancing/BoundsIntersectionChecker.h
+++ b/include/load_balancing/BoundsIntersectionChecker.h
@@ -58,7 +58,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions); // not bool: written concurrently
 			
 			tbb::parallel_for(size_t(0), partitions, [&](auto partition) {
 			    for(auto id : idss[partition]) {
diff --git a/include/load_balancing/GridIntersectionChecker.h b/include/load_balancing/GridIntersectionChecker.h
index d1d1988..ceaedcd 100644
--- a/include/load_balancing/GridIntersectionChecker.h
+++ b/include/load_balancing/GridIntersectionChecker.h
@@ -124,7 +124,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions); // not bool: written concurrently
 			std::vector<std::unordered_set<dIndex<D, IndexPrecision>,
 				dIndexHasher<D, IndexPrecision>>> indices(partitions);
 			
-- 
2.43.0


From 97933b44241c4af6991457e3a71c2089c0c1b30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 15/62] fix: sequential hash tables grow before they are full

The load factor was computed with an integer division (map, multimap) or
checked only before the insert (set), so tables could fill up completely
and looking up an absent key never ended.
---
 include/datastructures/LP_Map.hxx      | 2 +-
 include/datastructures/LP_MultiMap.hxx | 2 +-
 include/datastructures/LP_Set.hxx      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 8c1d7fd..3d1f298 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -45,7 +45,7 @@ public:
     bool insert(const K &key, const V &value) {
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index fa9557d..ff30ba0 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -131,7 +131,7 @@ public:
 
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index d096c6d..c1211b4 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -305,7 +305,7 @@ public:
     bool insert(const K &key) {
         ASSERT(key != 0);
 
-        if (Growing && !m_rehashing && (double) m_items / (double) m_arraySize >= 0.5)
+        if (Growing && !m_rehashing && 2 * (m_items + 1) > m_arraySize)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
-- 
2.43.0


From 4b3c6eec105ebfbaacbb72fafc9758e75cd6a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 16/62] fix: multimap lookup bound wrapped onto its start in a
 table with two slots

The end of the range was one past the empty slot that terminates the chain,
which is the first slot again if the capacity is two.
---
 include/datastructures/LP_MultiMap.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index ff30ba0..a70572b 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -178,13 +178,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
@@ -464,13 +464,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
-- 
2.43.0


From 77de015856e4058f8645ceb0d019e2f7d46dc896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 17/62] fix: concurrent inserts could fill a hash table
 completely and then probe it forever

The capacity is checked before the insert, so several inserts can pass the
check for the last slot. Inserts and lookups of absent keys did not end in a
full table.
---
 include/datastructures/LP_Map.hxx      | 8 +++++++-
 include/datastructures/LP_MultiMap.hxx | 6 ++++--
 include/datastructures/LP_Set.hxx      | 6 ++++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 3d1f298..da9368a 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -296,7 +296,11 @@ public:
         if (m_items.load() >= m_arraySize >> 1)
             return InsertReturn::State::Full;
 
+        std::size_t probes = 0; // concurrent inserts may fill the table completely
         for (K idx = m_hasher(key); ; idx++) {
+            if (probes++ == m_arraySize)
+                return InsertReturn::State::Full;
+
             idx &= m_arraySize - 1;
             ASSERT(idx < m_arraySize);
 
@@ -334,7 +338,8 @@ public:
 
     V get(const K &key) const {
         ASSERT(key != 0);
-        for (K idx = m_hasher(key); ; idx++) {
+        std::size_t probes = 0;
+        for (K idx = m_hasher(key); probes < m_arraySize; idx++, probes++) {
             idx &= m_arraySize - 1;
             K probedKey = m_keys[idx].load();
             if (probedKey == key)
@@ -343,6 +348,7 @@ public:
                 return 0;
         }
 
+        return 0;
     }
 
     bool contains(const K &key) const {
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index a70572b..f2fd10b 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -404,8 +404,11 @@ public:
         ASSERT(key != 0);
 
 
-        if (m_items.load() >= m_arraySize >> 1)
+        // reserve the slot first: concurrent inserts must not fill the table completely
+        if (m_items.fetch_add(1) >= m_arraySize >> 1) {
+            --m_items;
             return InsertReturn::State::Full;
+        }
 
         std::size_t cols = 0; //count number of steps
         for (K idx = m_hasher(key); ; idx++) {
@@ -429,7 +432,6 @@ public:
             bool cas = m_keys[idx].compare_exchange_strong(prevKey, key);
             if (cas) {
                 m_values[idx].store(value, std::memory_order_relaxed); // insert value
-                ++m_items;
                 return true; // we just added the key to the set
             } else {
                 cols += prevKey != key;
diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index c1211b4..7e5071f 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -580,7 +580,7 @@ public:
         K cols = 0;
         for (K idx = m_hasher(key); ; idx++) {
 
-            if (Growing && cols > c_growThreshold) {
+            if (cols >= m_arraySize || (Growing && cols > c_growThreshold)) {
                 return InsertReturn::State::Full;
             }
 
@@ -620,7 +620,8 @@ public:
     K get(const K &key) const {
         ASSERT(key != 0);
 
-        for (K idx = m_hasher(key); ; idx++) {
+        std::size_t probes = 0;
+        for (K idx = m_hasher(key); probes < m_arraySize; idx++, probes++) {
             idx &= m_arraySize - 1;
             K probedKey = m_array[idx].load();
             if (probedKey == key)
@@ -629,6 +630,7 @@ public:
                 return 0;
         }
 
+        return 0;
     }
 
     bool contains(const K &key) const {
-- 
2.43.0


From 777023173d97012460c9ba17d3b11937a9421972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 18/62] fix: bit set filter counted only the bits of the range
 shared with the filter

---
 include/datastructures/Bit_Set.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/datastructures/Bit_Set.hxx b/include/datastructures/Bit_Set.hxx
index 2f9dc25..f978da8 100644
--- a/include/datastructures/Bit_Set.hxx
+++ b/include/datastructures/Bit_Set.hxx
@@ -375,12 +375,11 @@ public:
     template<class BitSet>
     void filter(const BitSet &filter) {
 
-        m_ones = 0;
         for (std::size_t i = std::max(m_lowerBound, filter.m_lowerBound);
              i < std::min(m_upperBound, filter.m_upperBound);
              i += cENTRIES) {
+            m_ones -= popcount(m_array[_block(i)] & filter.m_array[filter._block(i)]);
             m_array[_block(i)] &= ~filter.m_array[filter._block(i)];
-            m_ones += popcount(m_array[_block(i)]);
         }
     }
 
-- 
2.43.0


From a98f379c3a74a06a23e4cbe9015541d76169fdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 19/62] fix: batchSet cleared other bits of its first and last
 block and shifted by the word size

---
 include/datastructures/Bit_Set.hxx | 37 +++++++++++-------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/include/datastructures/Bit_Set.hxx b/include/datastructures/Bit_Set.hxx
index f978da8..d7580b0 100644
--- a/include/datastructures/Bit_Set.hxx
+++ b/include/datastructures/Bit_Set.hxx
@@ -218,37 +218,28 @@ public:
         ASSERT(m_lowerBound <= from && from < m_upperBound);
         ASSERT(m_lowerBound <= to && to <= m_upperBound);
 
-        /*auto print = [this] (const std::string & msg) {
-            std::cout << msg << ": ";
-            for(std::size_t i = 0; i < capacity(); ++i)
-                std::cout << isSet(i);
-            std::cout << std::endl;
-        };*/
+        if (from == to)
+            return;
 
         std::size_t fromBlock = _block(from);
         std::size_t toBlock = _block(to - 1); // to not included
 
-        //print("before");
+        const tKeyType all = ~(tKeyType) 0;
 
-        // special case: first block
-        m_array[fromBlock] = (~(tKeyType) 0) << (from % cENTRIES);
+        for (std::size_t i = fromBlock; i <= toBlock; ++i) {
+            tKeyType mask = all;
 
-        //print("first ");
+            // special case: first block
+            if (i == fromBlock)
+                mask &= all << (from % cENTRIES);
 
-        // middle block: all ones
-        for (std::size_t i = fromBlock + 1; i < toBlock; ++i)
-            m_array[i] = (~(tKeyType) 0);
+            // special case: last block
+            if (i == toBlock)
+                mask &= all >> (cENTRIES - 1 - (to - 1) % cENTRIES);
 
-        //print("middle");
-
-        // special case: last block
-        m_array[toBlock] = ((~(tKeyType) 0) >> (cENTRIES - (to % cENTRIES))) &
-                           (toBlock == fromBlock ? m_array[toBlock] : (~(tKeyType) 0));
-
-        m_ones = to - from;
-
-
-        //print("after ");
+            m_ones += popcount(mask & ~m_array[i]);
+            m_array[i] |= mask;
+        }
     }
 
     bool isSet(const tKeyType &idx) const {
-- 
2.43.0


From b849e3fcaa67fa436ac0378d39cabf7fb32073b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 20/62] fix: conversion constructors of the bit sets are
 defined in a header, make them inline

---
 include/datastructures/Bit_Set.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/Bit_Set.hxx b/include/datastructures/Bit_Set.hxx
index d7580b0..8c11dd0 100644
--- a/include/datastructures/Bit_Set.hxx
+++ b/include/datastructures/Bit_Set.hxx
@@ -712,14 +712,14 @@ private:
 // conversion ctors
 
 
-Bit_Set::Bit_Set(Concurrent_Bit_Set &&other)
+inline Bit_Set::Bit_Set(Concurrent_Bit_Set &&other)
         : m_arraySize(other.m_arraySize),
           m_lowerBound(other.m_lowerBound),
           m_upperBound(other.m_upperBound),
           m_array(reinterpret_cast<uint *>(other.m_array.release())),
           m_ones(other.m_ones.load()) { }
 
-Concurrent_Bit_Set::Concurrent_Bit_Set(Bit_Set &&other)
+inline Concurrent_Bit_Set::Concurrent_Bit_Set(Bit_Set &&other)
         : m_arraySize(other.m_arraySize),
           m_lowerBound(other.m_lowerBound),
           m_upperBound(other.m_upperBound),
-- 
2.43.0


From fac1587cee2c3cce801f18746799b27866346813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 21/62] fix: BlockedArray::at accepted the index one past the
 end

---
 include/datastructures/BlockedArray.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/datastructures/BlockedArray.hxx b/include/datastructures/BlockedArray.hxx
index 0f6b966..0e5bfaf 100644
--- a/include/datastructures/BlockedArray.hxx
+++ b/include/datastructures/BlockedArray.hxx
@@ -41,13 +41,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
@@ -93,13 +93,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
-- 
2.43.0


From 599c7a38b4c11f5f54a69e091f75ff5d88997949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 22/62] fix: loading a BlockedArray2 dereferenced null blocks

---
 include/datastructures/BlockedArray2.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/datastructures/BlockedArray2.hxx b/include/datastructures/BlockedArray2.hxx
index cc228ae..c081c31 100644
--- a/include/datastructures/BlockedArray2.hxx
+++ b/include/datastructures/BlockedArray2.hxx
@@ -600,8 +600,10 @@ private:
         std::size_t n;
         ar >> n;
         m_blocks.resize(n);
+        m_hint = 0;
 
         for (std::size_t i = 0; i < n; ++i) {
+            m_blocks[i] = std::make_unique<block>(0, 0);
             ar >> *m_blocks[i];
         }
     }
-- 
2.43.0


From 809cf2ff0493d9eb2cceb91e500c986c5b99cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:05 +0000
Subject: [PATCH 23/62] fix: inSphere multiplied two determinants whose product
 can underflow

Points close together (relative to float: about 1e-6 of their coordinates) were all reported as inside.
---
 src/lib/Geometry.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 27e6b4d..49e2c1c 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -66,6 +66,12 @@ dVector<D, Precision> operator-(const dVector<D, Precision> &a, const dVector<D,
     return r;
 }
 
+// sign of a determinant, the product of two of them can underflow
+template<typename Precision>
+static int sign(const Precision x) {
+    return (x > 0) - (x < 0);
+}
+
 // specializations
 
 /* Sphere around s0 + num / den through s0. The radius is rounded outward: the result encloses the exact
@@ -216,7 +222,7 @@ public:
 //
 //        det = alift * bcdet + blift * cadet + clift * abdet;
 
-        return orientation(s0, s1, s2) * Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data()) >= 0;
+        return sign(orientation(s0, s1, s2)) * sign(Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data())) >= 0;
     }
 
     static dSphere<2, Precision>
@@ -408,7 +414,7 @@ public:
 //
 //        det = (dlift * abc - clift * dab) + (blift * cda - alift * bcd);
 
-        return orientation(s0, s1, s2, s3) * Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data()) >= 0;
+        return sign(orientation(s0, s1, s2, s3)) * sign(Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data())) >= 0;
     }
 
     static dSphere<3, Precision>
-- 
2.43.0


From 7745a5d82c18658d464561383dffec43752ebb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:05 +0000
Subject: [PATCH 24/62] fix: fingerprint rotation shifted by the width of the
 type when rotating by 0

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 8388ba5..f9c9a1f 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -659,7 +659,7 @@ private:
     }
 
     inline tHashType _rol(const tHashType x, const uint r) const {
-        return (x << r) | (x >> (sizeof(tHashType) * 8 - r));
+        return (x << r) | (x >> ((sizeof(tHashType) * 8 - r) & (sizeof(tHashType) * 8 - 1)));
     }
 
 public:
-- 
2.43.0


From 516b2acb1037efea347fa5fa9e82741e6df93f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:05 +0000
Subject: [PATCH 25/62] fix: equalNeighbors returned the opposite

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index f9c9a1f..ab613ad 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -499,7 +499,7 @@ public:
     bool equalNeighbors(const dSimplex<D, Precision> &a) const {
         PROFILER_INC("dSimplex_equalNeighbors");
 
-        return neighbors != a.neighbors;
+        return neighbors == a.neighbors;
     }
 
     bool operator==(const tIdType a) const { return id == a; }
-- 
2.43.0


From c34830ae131a4dbf37aed92d00d8a9499f25b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:05 +0000
Subject: [PATCH 26/62] fix: crossCheck gave up on the rest of a range after
 the first missing simplex

---
 src/lib/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 49e2c1c..4009ad4 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -559,7 +559,7 @@ CrossCheckReport<D, Precision> dSimplices<D, Precision>::crossCheck(
                 LOG("did not find simplex " << realSimplex << std::endl);
                 result.valid = false;
                 result.missing.push_back(realSimplex);
-                return;
+                continue;
             }
 
             // check neighbors
-- 
2.43.0


From 44fc953703fa2f45967dc64e08a9022debdbb557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:14 +0000
Subject: [PATCH 27/62] fix: predicates were wrong when compiled with fused
 multiply-adds (-march=native)

orient2d of two identical points and a third one returned nonzero.
---
 src/utils/Predicates.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/utils/Predicates.cpp b/src/utils/Predicates.cpp
index fd6723c..c798af1 100644
--- a/src/utils/Predicates.cpp
+++ b/src/utils/Predicates.cpp
@@ -120,6 +120,15 @@
 
 #include "utils/Predicates.h"
 
+/* The exact arithmetic routines are defeated by fused multiply-adds: the    */
+/*   round-off error of an operation that has been fused is lost.  With      */
+/*   -march=native the compiler is free to contract expressions.               */
+#if defined(__clang__)
+#pragma clang fp contract(off)
+#elif defined(__GNUC__)
+#pragma GCC optimize ("fp-contract=off")
+#endif
+
 //#ifdef USE_CGAL_PREDICATES
 //  #include <CGAL/Exact_predicates_inexact_constructions_kernel.h>
 //  typedef CGAL::Exact_predicates_inexact_constructions_kernel cgalEpick;
-- 
2.43.0


From eb72062fa1dc4419b72bc0fc032a9e94e2a6aca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 28/62] fix: verify rejected Delaunay triangulations of
 cospherical points

---
 include/Geometry.h   | 22 +++++++++++++---------
 src/lib/Geometry.cpp | 12 +++++++-----
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index ab613ad..9ab96ab 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -368,13 +368,14 @@ public:
     static Precision sqDistanceToFace(const dPoint<D, Precision> &p,
                                       const dPoint<D, Precision> &s0, const dPoint<D, Precision> &s1, const dPoint<D, Precision> &s2);
 
+    /* whether p lies inside of or on the sphere, strict: inside only */
     static bool inSphere(const dPoint<D, Precision> &p,
                          const dPoint<D, Precision> &s0, const dPoint<D, Precision> &s1,
-                         const dPoint<D, Precision> &s2);
+                         const dPoint<D, Precision> &s2, const bool strict = false);
 
     static bool inSphere(const dPoint<D, Precision> &p,
                          const dPoint<D, Precision> &s0, const dPoint<D, Precision> &s1, const dPoint<D, Precision> &s2,
-                         const dPoint<D, Precision> &s3);
+                         const dPoint<D, Precision> &s3, const bool strict = false);
 
     static dSphere<D, Precision>
             circumsphere(const dPoint<D, Precision> &s0, const dPoint<D, Precision> &s1,
@@ -406,7 +407,8 @@ public:
     template<class Collection>
     static bool inSphere(const dSimplex<D, Precision> &simplex,
                          const dPoint<D, Precision> &p,
-                         const Collection &points);
+                         const Collection &points,
+                         const bool strict = false);
 
     template<class Collection>
     static dSphere<D, Precision>
@@ -578,10 +580,10 @@ public:
     }
 
     template<class Collection>
-    bool inSphere(const dPoint<D, Precision> &p, const Collection &points) const {
+    bool inSphere(const dPoint<D, Precision> &p, const Collection &points, const bool strict = false) const {
         PROFILER_INC("dSimplex_inSphere");
 
-        return GeometryHelper<D, Precision>::inSphere(*this, p, points);
+        return GeometryHelper<D, Precision>::inSphere(*this, p, points, strict);
     }
 
     template<class Collection>
@@ -1024,9 +1026,10 @@ public:
     template<class Collection>
     static bool inSphere(const dSimplex<2, Precision> &simplex,
                          const dPoint<2, Precision> &p,
-                         const Collection &points) {
+                         const Collection &points,
+                         const bool strict = false) {
         return GeometryCore<2, Precision>::inSphere(p, points[simplex.vertices[0]], points[simplex.vertices[1]],
-                                                    points[simplex.vertices[2]]);
+                                                    points[simplex.vertices[2]], strict);
     }
 
     template<class Collection>
@@ -1080,10 +1083,11 @@ public:
     template<class Collection>
     static bool inSphere(const dSimplex<3, Precision> &simplex,
                          const dPoint<3, Precision> &p,
-                         const Collection &points) {
+                         const Collection &points,
+                         const bool strict = false) {
 
         return GeometryCore<3, Precision>::inSphere(p, points[simplex.vertices[0]], points[simplex.vertices[1]],
-                                                    points[simplex.vertices[2]], points[simplex.vertices[3]]);
+                                                    points[simplex.vertices[2]], points[simplex.vertices[3]], strict);
     }
 
     template<class Collection>
diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 4009ad4..8aa5126 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -185,7 +185,8 @@ public:
     }
 
     static bool inSphere(const dPoint<2, Precision> &p,
-                         const dPoint<2, Precision> &s0, const dPoint<2, Precision> &s1, const dPoint<2, Precision> &s2) {
+                         const dPoint<2, Precision> &s0, const dPoint<2, Precision> &s1, const dPoint<2, Precision> &s2,
+                         const bool strict = false) {
 //        Precision adx, ady, bdx, bdy, cdx, cdy;
 //        Precision abdet, bcdet, cadet;
 //        Precision alift, blift, clift;
@@ -222,7 +223,7 @@ public:
 //
 //        det = alift * bcdet + blift * cadet + clift * abdet;
 
-        return sign(orientation(s0, s1, s2)) * sign(Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data())) >= 0;
+        return sign(orientation(s0, s1, s2)) * sign(Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data())) >= strict;
     }
 
     static dSphere<2, Precision>
@@ -357,7 +358,8 @@ public:
     }
 
     static bool inSphere(const dPoint<3, Precision> &p,
-                         const dPoint<3, Precision> &s0, const dPoint<3, Precision> &s1, const dPoint<3, Precision> &s2, const dPoint<3, Precision> &s3) {
+                         const dPoint<3, Precision> &s0, const dPoint<3, Precision> &s1, const dPoint<3, Precision> &s2, const dPoint<3, Precision> &s3,
+                         const bool strict = false) {
 
 //        Precision aex, bex, cex, dex;
 //        Precision aey, bey, cey, dey;
@@ -414,7 +416,7 @@ public:
 //
 //        det = (dlift * abc - clift * dab) + (blift * cda - alift * bcd);
 
-        return sign(orientation(s0, s1, s2, s3)) * sign(Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data())) >= 0;
+        return sign(orientation(s0, s1, s2, s3)) * sign(Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data())) >= strict;
     }
 
     static dSphere<3, Precision>
@@ -850,7 +852,7 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                     if (dPoint<D,Precision>::isFinite(nn.vertices[d]) && !s.contains(nn.vertices[d])) {
                         // we have found the point of nn that is NOT shared with s
                         const auto &p = points[nn.vertices[d]];
-                        if (s.inSphere(p, points)) {
+                        if (s.inSphere(p, points, true)) {
                             LOG("Point " << nn.vertices[d] << " " << p << " is in circle of " << s << std::endl);
 
                             tbb::spin_mutex::scoped_lock lock(mtx);
-- 
2.43.0


From 1e9336188940a9b8414f00fb2e143b8d0fe967ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 29/62] fix: verify threw on duplicate simplices instead of
 reporting them

---
 src/lib/Geometry.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 8aa5126..372fb87 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -806,6 +806,10 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                 for (auto it = range.first; it != range.second; ++it) {
 
                     const auto &b = thisHandle.at(it->second);
+
+                    if (a.id != b.id && a.equalVertices(b))
+                        continue; // already reported as duplicates
+
                     // a and b are neighbors: the neighbor property is symmetric and the
                     // corresponding simplices must be present in the neighbors arrays
                     // accordingly
-- 
2.43.0


From ba89ef6b2284caad75dd8141cf2737d687677c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 30/62] fix: verify accepted neighbor entries referring to
 removed or unrelated simplices

---
 src/lib/Geometry.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 372fb87..fc61eec 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -795,6 +795,19 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
 
         for (const auto &a : r) {
 
+            // every neighbor entry must refer to an existing simplex sharing a facette
+            for (const auto &n : a.neighbors) {
+                if (!dSimplex<D, Precision>::isFinite(n))
+                    continue;
+
+                if (!thisHandle.contains(n) || a.countSharedVertices(thisHandle.at(n)) != D) {
+                    tbb::spin_mutex::scoped_lock lock(mtx);
+                    LOG("Wrong neighbor " << n << " of " << a << std::endl);
+                    result.wrongNeighbors.emplace_back(a, thisHandle.contains(n) ? thisHandle.at(n) : dSimplex<D, Precision>());
+                    result.valid = false;
+                }
+            }
+
             // we already verified that the face where-used data structure is correct
             // we can use it to verify the neighbor relation
             for (uint i = 0; i < D + 1; ++i) {
@@ -848,7 +861,7 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
             // we check for all neighbors whether the NOT shared point is in the circle
 
             for (const auto &n : s.neighbors) {
-                if (!dSimplex<D, Precision>::isFinite(n))
+                if (!dSimplex<D, Precision>::isFinite(n) || !thisHandle.contains(n))
                     continue;
 
                 const dSimplex<D, Precision> &nn = thisHandle.at(n);
-- 
2.43.0


From 89f4c5e1fea08c58eaea65aafa2d3438c423ef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 31/62] fix: verify counted the reserved index 0 as an unused
 input point

---
 src/lib/Geometry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index fc61eec..edf1b5b 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -664,7 +664,8 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                 }
             }
         } else {
-            for (std::size_t i = 0; i < points.finite_size(); ++i) {
+            const auto range = points.range(); // index 0 is reserved
+            for (std::size_t i = range.begin(); i < range.end(); ++i) {
                 const auto &p = points[i];
                 if (usedPoints.count(i) != 1 && dPoint<D, Precision>::isFinite(i)) {
                     sNotUsed << i << " - " << p << " ";
-- 
2.43.0


From 1bcaefb6a4440b451bfb4f7d25ce118674062ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 32/62] fix: verify ignored the given point ids if the
 triangulation uses all points

---
 src/lib/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index edf1b5b..fbfe3ca 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -651,7 +651,7 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
     for (const auto &s : *this) {
         usedPoints.insert(s.vertices.begin(), s.vertices.end());
     }
-    if (points != usedPoints) {
+    if (pointIds || points != usedPoints) {
         // not all points of input used
         std::stringstream sNotUsed;
 
-- 
2.43.0


From 92e96309fd2c1d83fc158063d8ae1a32cef6d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 33/62] fix: crossCheck threw on neighbor entries referring to
 no simplex

---
 src/lib/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index fbfe3ca..2b06756 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -571,7 +571,7 @@ CrossCheckReport<D, Precision> dSimplices<D, Precision>::crossCheck(
 
                 bool found = false;
                 for (const auto &nn : thisHandle.at(mySimplex->second).neighbors) {
-                    if (dSimplex<D, Precision>::isFinite(nn) &&
+                    if (dSimplex<D, Precision>::isFinite(nn) && thisHandle.contains(nn) &&
                         thisHandle.at(nn).equalVertices(realHandle[n])) {
                         found = true;
                         break;
-- 
2.43.0


From 6ffc6bbe51161702809d27c78682597135573fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:32 +0000
Subject: [PATCH 34/62] fix: sqDistanceToFace did not return a squared distance

---
 src/lib/Geometry.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 2b06756..c307d8b 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -181,7 +181,9 @@ public:
 
         auto n = dVector<2, Precision>({ v[1], -v[0] });
 
-        return std::abs(dot(n,r) / dot(n, n));
+        const auto nr = dot(n, r);
+
+        return nr * nr / dot(n, n);
     }
 
     static bool inSphere(const dPoint<2, Precision> &p,
@@ -354,7 +356,9 @@ public:
                                          (u[2] * v[0] - u[0] * v[2]),
                                          (u[0] * v[1] - u[1] * v[0]) });
 
-        return std::abs(dot(w,n) / dot(n,n));
+        const auto wn = dot(w, n);
+
+        return wn * wn / dot(n, n);
     }
 
     static bool inSphere(const dPoint<3, Precision> &p,
-- 
2.43.0


From d61d4ba2a5d27a9dea4d0dadf0484498e52d238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:32 +0000
Subject: [PATCH 35/62] fix: findNearestSimplex started from an empty slot and
 never considered the starting simplex

---
 include/Geometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 9ab96ab..c0e9f78 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -844,7 +844,7 @@ public:
         auto cmp = [](const pqItem &a, const pqItem &b) { return a.first > b.first; };
 
         if(hintSimplex == dSimplex<D, Precision>::cINF){
-            hintSimplex = this->lowerBound();
+            hintSimplex = (*this->begin()).id; // the slot at the lower bound might be empty
         }
 
         std::priority_queue<pqItem, std::vector<pqItem>, decltype(cmp)> pQueue(cmp);
@@ -855,7 +855,7 @@ public:
 
         uint hintBlock = 0;
         Precision minD = std::numeric_limits<Precision>::max();
-        tIdType minDId = dPoint<D, Precision>::cINF;
+        tIdType minDId = hintSimplex;
 
         VTUNE_TASK(FindNearestSimplex);
         while (!pQueue.empty()) {
-- 
2.43.0


From 8c5116ad1c49944fecbf9c582a4a8642123d1cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:18 +0000
Subject: [PATCH 36/62] fix: two different definitions of operator- for
 vectors, the linker could pick the reversed one

---
 src/lib/Geometry.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index c307d8b..1278e22 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -41,9 +41,9 @@ std::atomic<tIdType> dSimplices<D, Precision>::simplexID(1);
 /*  jrs@cs.cmu.edu                                                           */
 /*****************************************************************************/
 
-// common operations
+// common operations, local to this file: load_balancing/VectorOperations.h defines operators of the same name
 template<std::size_t D, typename Precision>
-Precision dot(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
+static Precision dot(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
     Precision r = 0;
     for(uint d = 0; d < D; ++d)
         r += a[d] * b[d];
@@ -51,7 +51,7 @@ Precision dot(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
 }
 
 template<std::size_t D, typename Precision>
-dVector<D, Precision> operator+(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
+static dVector<D, Precision> operator+(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
     dVector<D, Precision> r = a;
     for(uint d = 0; d < D; ++d)
         r[d] += b[d];
@@ -59,10 +59,10 @@ dVector<D, Precision> operator+(const dVector<D, Precision> &a, const dVector<D,
 }
 
 template<std::size_t D, typename Precision>
-dVector<D, Precision> operator-(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
-    dVector<D, Precision> r = b;
+static dVector<D, Precision> operator-(const dVector<D, Precision> &a, const dVector<D, Precision> &b){
+    dVector<D, Precision> r = a;
     for(uint d = 0; d < D; ++d)
-        r[d] -= a[d];
+        r[d] -= b[d];
     return r;
 }
 
-- 
2.43.0


From 528f594b9c01096c931a3086bcf416fe619d586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:53 +0000
Subject: [PATCH 37/62] fix: vecToBox did not compile for float

---
 include/load_balancing/BoxUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/BoxUtils.h b/include/load_balancing/BoxUtils.h
index 5e7674a..d59780c 100644
--- a/include/load_balancing/BoxUtils.h
+++ b/include/load_balancing/BoxUtils.h
@@ -64,7 +64,7 @@ namespace LoadBalancing
     template <uint D, typename Precision>
     dVector<D, Precision> vecToLowerQuadrant(dVector<D, Precision> v) {        
         std::transform(begin(v), end(v), begin(v), [](Precision x) {
-            return std::max(x, 0.0);
+            return std::max(x, Precision(0));
         });
         return v;
     }
-- 
2.43.0


From c8ceee96f6d07ce4cbbae63e62f1a7db2b05db27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:44 +0000
Subject: [PATCH 38/62] fix: expansion sums read one element past the end of
 their operands

---
 src/utils/Predicates.cpp | 56 ++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/utils/Predicates.cpp b/src/utils/Predicates.cpp
index c798af1..f17caa4 100644
--- a/src/utils/Predicates.cpp
+++ b/src/utils/Predicates.cpp
@@ -727,29 +727,29 @@ protected:
         eindex = findex = 0;
         if ((fnow > enow) == (fnow > -enow)) {
             Q = enow;
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
         } else {
             Q = fnow;
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
         }
         hindex = 0;
         if ((eindex < elen) && (findex < flen)) {
             if ((fnow > enow) == (fnow > -enow)) {
                 Fast_Two_Sum(enow, Q, Qnew, h[0]);
-                enow = e[++eindex];
+                if (++eindex < elen) enow = e[eindex];
             } else {
                 Fast_Two_Sum(fnow, Q, Qnew, h[0]);
-                fnow = f[++findex];
+                if (++findex < flen) fnow = f[findex];
             }
             Q = Qnew;
             hindex = 1;
             while ((eindex < elen) && (findex < flen)) {
                 if ((fnow > enow) == (fnow > -enow)) {
                     Two_Sum(Q, enow, Qnew, h[hindex]);
-                    enow = e[++eindex];
+                    if (++eindex < elen) enow = e[eindex];
                 } else {
                     Two_Sum(Q, fnow, Qnew, h[hindex]);
-                    fnow = f[++findex];
+                    if (++findex < flen) fnow = f[findex];
                 }
                 Q = Qnew;
                 hindex++;
@@ -757,13 +757,13 @@ protected:
         }
         while (eindex < elen) {
             Two_Sum(Q, enow, Qnew, h[hindex]);
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
             Q = Qnew;
             hindex++;
         }
         while (findex < flen) {
             Two_Sum(Q, fnow, Qnew, h[hindex]);
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
             Q = Qnew;
             hindex++;
         }
@@ -801,19 +801,19 @@ protected:
         eindex = findex = 0;
         if ((fnow > enow) == (fnow > -enow)) {
             Q = enow;
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
         } else {
             Q = fnow;
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
         }
         hindex = 0;
         if ((eindex < elen) && (findex < flen)) {
             if ((fnow > enow) == (fnow > -enow)) {
                 Fast_Two_Sum(enow, Q, Qnew, hh);
-                enow = e[++eindex];
+                if (++eindex < elen) enow = e[eindex];
             } else {
                 Fast_Two_Sum(fnow, Q, Qnew, hh);
-                fnow = f[++findex];
+                if (++findex < flen) fnow = f[findex];
             }
             Q = Qnew;
             if (hh != 0.0) {
@@ -822,10 +822,10 @@ protected:
             while ((eindex < elen) && (findex < flen)) {
                 if ((fnow > enow) == (fnow > -enow)) {
                     Two_Sum(Q, enow, Qnew, hh);
-                    enow = e[++eindex];
+                    if (++eindex < elen) enow = e[eindex];
                 } else {
                     Two_Sum(Q, fnow, Qnew, hh);
-                    fnow = f[++findex];
+                    if (++findex < flen) fnow = f[findex];
                 }
                 Q = Qnew;
                 if (hh != 0.0) {
@@ -835,7 +835,7 @@ protected:
         }
         while (eindex < elen) {
             Two_Sum(Q, enow, Qnew, hh);
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
             Q = Qnew;
             if (hh != 0.0) {
                 h[hindex++] = hh;
@@ -843,7 +843,7 @@ protected:
         }
         while (findex < flen) {
             Two_Sum(Q, fnow, Qnew, hh);
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
             Q = Qnew;
             if (hh != 0.0) {
                 h[hindex++] = hh;
@@ -883,28 +883,28 @@ protected:
         eindex = findex = 0;
         if ((fnow > enow) == (fnow > -enow)) {
             g0 = enow;
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
         } else {
             g0 = fnow;
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
         }
         if ((eindex < elen) && ((findex >= flen)
                                 || ((fnow > enow) == (fnow > -enow)))) {
             Fast_Two_Sum(enow, g0, Qnew, q);
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
         } else {
             Fast_Two_Sum(fnow, g0, Qnew, q);
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
         }
         Q = Qnew;
         for (hindex = 0; hindex < elen + flen - 2; hindex++) {
             if ((eindex < elen) && ((findex >= flen)
                                     || ((fnow > enow) == (fnow > -enow)))) {
                 Fast_Two_Sum(enow, q, R, h[hindex]);
-                enow = e[++eindex];
+                if (++eindex < elen) enow = e[eindex];
             } else {
                 Fast_Two_Sum(fnow, q, R, h[hindex]);
-                fnow = f[++findex];
+                if (++findex < flen) fnow = f[findex];
             }
             Two_Sum(Q, R, Qnew, q);
             Q = Qnew;
@@ -946,28 +946,28 @@ protected:
         hindex = 0;
         if ((fnow > enow) == (fnow > -enow)) {
             g0 = enow;
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
         } else {
             g0 = fnow;
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
         }
         if ((eindex < elen) && ((findex >= flen)
                                 || ((fnow > enow) == (fnow > -enow)))) {
             Fast_Two_Sum(enow, g0, Qnew, q);
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
         } else {
             Fast_Two_Sum(fnow, g0, Qnew, q);
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
         }
         Q = Qnew;
         for (count = 2; count < elen + flen; count++) {
             if ((eindex < elen) && ((findex >= flen)
                                     || ((fnow > enow) == (fnow > -enow)))) {
                 Fast_Two_Sum(enow, q, R, hh);
-                enow = e[++eindex];
+                if (++eindex < elen) enow = e[eindex];
             } else {
                 Fast_Two_Sum(fnow, q, R, hh);
-                fnow = f[++findex];
+                if (++findex < flen) fnow = f[findex];
             }
             Two_Sum(Q, R, Qnew, q);
             Q = Qnew;
-- 
2.43.0


From d0d117138e777581816b895e12a45f4bf3e4fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:06 +0000
Subject: [PATCH 39/62] fix: lookups in a full set or map converted from a
 concurrent one never ended

---
 include/datastructures/LP_Map.hxx | 4 +++-
 include/datastructures/LP_Set.hxx | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index da9368a..5265c6d 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -79,7 +79,8 @@ public:
     V get(const K &key) const {
         ASSERT(key != 0);
 
-        for (K idx = m_hasher(key); ; idx++) {
+        std::size_t probes = 0; // a map converted from a concurrent one may be full
+        for (K idx = m_hasher(key); probes < m_arraySize; idx++, probes++) {
             idx &= m_arraySize - 1;
             K probedKey = m_keys[idx];
             if (probedKey == key)
@@ -88,6 +89,7 @@ public:
                 return 0;
         }
 
+        return 0;
     }
 
     bool contains(const K &key) const {
diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index 7e5071f..3274365 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -332,7 +332,8 @@ public:
     bool contains(const K &key) const {
         ASSERT(key != 0);
 
-        for (K idx = m_hasher(key); ; idx++) {
+        std::size_t probes = 0; // a set converted from a concurrent one may be full
+        for (K idx = m_hasher(key); probes < m_arraySize; idx++, probes++) {
             idx &= m_arraySize - 1;
             K probedKey = m_array[idx];
             if (probedKey == key)
@@ -341,6 +342,7 @@ public:
                 return false;
         }
 
+        return false;
     }
 
     std::size_t count(const K &key) const {
-- 
2.43.0


From 0a7c90be376aba659aebbf3863f60e23300dcf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:06 +0000
Subject: [PATCH 40/62] fix: the d-way partitioner refused a single thread

---
 include/utils/Misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/Misc.h b/include/utils/Misc.h
index 8528996..83dce65 100644
--- a/include/utils/Misc.h
+++ b/include/utils/Misc.h
@@ -14,7 +14,7 @@ T isPow2(const T x) {
 
 template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type * = nullptr>
 T isPowN(const T x, const T n) {
-    return x != 0 && x % n == 0;
+    return x == 1 || (x != 0 && x % n == 0); // n^0 is a power of n, too
 }
 
 template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type * = nullptr>
-- 
2.43.0


From 9d6f206ab63526dca4466aa1c88df355fbf94c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:32 +0000
Subject: [PATCH 41/62] fix: the extend partitioner asserted on a partition
 with at most one point

---
 src/lib/Partitioner.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lib/Partitioner.cpp b/src/lib/Partitioner.cpp
index b2d07f9..bb9aad6 100644
--- a/src/lib/Partitioner.cpp
+++ b/src/lib/Partitioner.cpp
@@ -199,19 +199,17 @@ ExtendPartitioner<D, Precision>::partition(const dPointStats<D, Precision> &stat
                                           bool ignoreInfinte) const {
 
     // determine most vast dimension
+    // (any dimension will do if there is at most one point)
     Precision maxExtend = 0;
-    int maxDim = -1;
+    uint k = 0;
 
     for (uint d = 0; d < D; ++d) {
         if (stats.max[d] - stats.min[d] > maxExtend) {
             maxExtend = stats.max[d] - stats.min[d];
-            maxDim = d;
+            k = d;
         }
     }
 
-    ASSERT((signed) 0 <= maxDim && maxDim < (signed) D);
-    uint k = static_cast<uint>(maxDim);
-
     VLOG("Stats: " << stats << std::endl);
     VLOG("Splitting dimension is " << k << std::endl);
 
-- 
2.43.0


From ca113858756293d1be55462e74e8667d03266c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:40 +0000
Subject: [PATCH 42/62] fix: partitioners and generators were deleted through
 bases without virtual destructor

---
 include/SpatialSort.h                | 2 ++
 include/load_balancing/Partitioner.h | 2 ++
 include/utils/Generator.h            | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/SpatialSort.h b/include/SpatialSort.h
index b1290c1..7ea1da7 100644
--- a/include/SpatialSort.h
+++ b/include/SpatialSort.h
@@ -6,6 +6,8 @@ template<uint D, typename Precision>
 class SpatialSorter {
 
 public:
+    virtual ~SpatialSorter() = default;
+
     virtual void sort(dPoints<D, Precision> &points
             /*, bool filterInfinite = false */) = 0;
 };
diff --git a/include/load_balancing/Partitioner.h b/include/load_balancing/Partitioner.h
index df783d4..f88a75f 100644
--- a/include/load_balancing/Partitioner.h
+++ b/include/load_balancing/Partitioner.h
@@ -8,6 +8,8 @@ namespace LoadBalancing
     template <uint D, typename Precision, typename MonitorT>
     struct Partitioner
     {
+        virtual ~Partitioner() = default;
+
         virtual PartitionTree<D, Precision> partition(const dBox<D, Precision>& bounds,
                                         dPoints<D, Precision>& points,
                                         const Point_Ids& pointIds,
diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index b71252d..e1d9d25 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -8,6 +8,8 @@ template<uint D, typename Precision>
 class PointGenerator {
 
 public:
+    virtual ~PointGenerator() = default;
+
     dPoints<D, Precision> generate(const tIdType n, const dBox<D, Precision> &bounds,
                                      tGenerator &gen) const {
 
-- 
2.43.0


From 1f0134d963877cb379d19fef24da91e4c2eac9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 43/62] fix: simplex marks were read and written by several
 threads without synchronisation

---
 include/Geometry.h                     | 34 +++++++++++++++++++++++++-
 include/LoadBalancedDCTriangulator.tpp | 18 +++++---------
 include/utils/Serialization.hxx        |  5 +++-
 src/lib/DCTriangulator.cpp             | 18 +++++---------
 4 files changed, 49 insertions(+), 26 deletions(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index c0e9f78..dcffe50 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -15,6 +15,7 @@
 #include <queue>
 #include <array>
 #include <cmath>
+#include <atomic>
 #include <functional>
 #include <set>
 
@@ -39,6 +40,37 @@ typedef uint32_t tHashType;
 typedef uint64_t tIdType;
 typedef uint8_t tMarkType;
 
+/* mark of a simplex, read and raised by several threads at once */
+class tSimplexMark {
+
+public:
+    tSimplexMark(const tMarkType v = 0) : m_mark(v) { }
+
+    tSimplexMark(const tSimplexMark &other) : m_mark(other) { }
+
+    tSimplexMark &operator=(const tSimplexMark &other) {
+        m_mark.store(other, std::memory_order_relaxed);
+        return *this;
+    }
+
+    operator tMarkType() const {
+        return m_mark.load(std::memory_order_relaxed);
+    }
+
+    // raises the mark to v, returns false if it already was v or higher
+    bool raise(const tMarkType v) {
+        tMarkType old = m_mark.load(std::memory_order_relaxed);
+        while (old < v) {
+            if (m_mark.compare_exchange_weak(old, v, std::memory_order_relaxed))
+                return true;
+        }
+        return false;
+    }
+
+private:
+    std::atomic<tMarkType> m_mark;
+};
+
 typedef std::vector<tIdType> Id_Vector;
 typedef tbb::concurrent_vector<tIdType> Concurrent_Id_Vector;
 
@@ -669,7 +701,7 @@ public:
     std::array<tIdType, D + 1> vertices;
     std::array<tIdType, D + 1> neighbors;
     tHashType vFingerprint;
-    mutable tMarkType mark;
+    mutable tSimplexMark mark;
 
 public:
     static bool isFinite(const tIdType &i) {
diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index e01e464..d3e37c0 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -186,10 +186,9 @@ namespace LoadBalancing
             const auto &simplex = simplicesHandle[id];
 
 
-            if (simplex.mark == doneMark) {
+            if (!simplex.mark.raise(doneMark)) {
                 return; //already checked
             }
-            simplex.mark = doneMark;
 
             const auto cs = simplex.circumsphere(this->points);
             bool intersectsBounds = false;
@@ -209,9 +208,8 @@ namespace LoadBalancing
                 }
 
                 for (const auto &n : simplex.neighbors) {
-                    if (dSimplex<D, Precision>::isFinite(n) && simplicesHandle[n].mark < queuedMark) {
+                    if (dSimplex<D, Precision>::isFinite(n) && simplicesHandle[n].mark.raise(queuedMark)) {
                         // n was not yet inspected
-                        simplicesHandle[n].mark = queuedMark;
                         feeder.add(n);
                     }
                 }
@@ -253,16 +251,14 @@ namespace LoadBalancing
             for (const auto &edgeSimplexID : range) {
                 const auto &edgeSimplex = simplicesHandle[edgeSimplexID];
 
-                if (edgeSimplex.mark == doneMark) {
+                if (!edgeSimplex.mark.raise(doneMark)) {
                     continue; //already checked
                 }
-                edgeSimplex.mark = doneMark;
 
                 for (const auto &firstLayer : edgeSimplex.neighbors) {
                     if (dSimplex<D, Precision>::isFinite(firstLayer) && !edgeSimplices.count(firstLayer)) {
                         // we have an "inward" neighbor, add it to the wuFaces DS
-                        if (simplicesHandle[firstLayer].mark < queuedMark) {
-                            simplicesHandle[firstLayer].mark = queuedMark;
+                        if (simplicesHandle[firstLayer].mark.raise(queuedMark)) {
 
                             for (uint i = 0; i < D + 1; ++i) {
                                 auto facetteHash = simplicesHandle[firstLayer].faceFingerprint(i);
@@ -326,10 +322,9 @@ namespace LoadBalancing
 
             dSimplex<D, Precision> &simplex = simplicesHandle[id];
 
-            if (simplex.mark == doneMark) {
+            if (!simplex.mark.raise(doneMark)) {
                 return; //already checked
             }
-            simplex.mark = doneMark;
 
             PLOG("Checking neighbors of " << simplex << std::endl);
     #ifndef NDEBUG
@@ -371,8 +366,7 @@ namespace LoadBalancing
                             ASSERT(!set || cand == simplex.neighbors[d]); //second term is to guard against double entries
 
                             simplex.neighbors[d] = cand;
-                            if(simplicesHandle[cand].mark < queuedMark) {
-                                simplicesHandle[cand].mark = queuedMark;
+                            if(simplicesHandle[cand].mark.raise(queuedMark)) {
                                 feeder.add(cand);
                             }
     #ifndef NDEBUG
diff --git a/include/utils/Serialization.hxx b/include/utils/Serialization.hxx
index 8230d09..80658b1 100644
--- a/include/utils/Serialization.hxx
+++ b/include/utils/Serialization.hxx
@@ -95,7 +95,10 @@ namespace boost {
             ar & s.vertices;
             ar & s.neighbors;
             ar & s.vFingerprint;
-            ar & s.mark;
+
+            tMarkType mark = s.mark;
+            ar & mark;
+            s.mark = mark;
         }
 
 //        template<class Archive, uint D, typename Precision>
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index 9bd87ce..980ae3c 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -144,10 +144,9 @@ void DCTriangulator<D, Precision>::getEdge(const dSimplices<D, Precision> &simpl
         const auto &simplex = simplicesHandle[id];
 
 
-        if (simplex.mark == doneMark) {
+        if (!simplex.mark.raise(doneMark)) {
             return; //already checked
         }
-        simplex.mark = doneMark;
 
         const auto cs = simplex.circumsphere(this->points);
         bool intersectsBounds = false;
@@ -167,9 +166,8 @@ void DCTriangulator<D, Precision>::getEdge(const dSimplices<D, Precision> &simpl
             }
 
             for (const auto &n : simplex.neighbors) {
-                if (dSimplex<D, Precision>::isFinite(n) && simplicesHandle[n].mark < queuedMark) {
+                if (dSimplex<D, Precision>::isFinite(n) && simplicesHandle[n].mark.raise(queuedMark)) {
                     // n was not yet inspected
-                    simplicesHandle[n].mark = queuedMark;
                     feeder.add(n);
                 }
             }
@@ -211,16 +209,14 @@ cWuFaces DCTriangulator<D, Precision>::buildWhereUsed(const dSimplices<D, Precis
         for (const auto &edgeSimplexID : range) {
             const auto &edgeSimplex = simplicesHandle[edgeSimplexID];
 
-            if (edgeSimplex.mark == doneMark) {
+            if (!edgeSimplex.mark.raise(doneMark)) {
                 continue; //already checked
             }
-            edgeSimplex.mark = doneMark;
 
             for (const auto &firstLayer : edgeSimplex.neighbors) {
                 if (dSimplex<D, Precision>::isFinite(firstLayer) && !edgeSimplices.count(firstLayer)) {
                     // we have an "inward" neighbor, add it to the wuFaces DS
-                    if (simplicesHandle[firstLayer].mark < queuedMark) {
-                        simplicesHandle[firstLayer].mark = queuedMark;
+                    if (simplicesHandle[firstLayer].mark.raise(queuedMark)) {
 
                         for (uint i = 0; i < D + 1; ++i) {
                             auto facetteHash = simplicesHandle[firstLayer].faceFingerprint(i);
@@ -284,10 +280,9 @@ void DCTriangulator<D, Precision>::updateNeighbors(
 
         dSimplex<D, Precision> &simplex = simplicesHandle[id];
 
-        if (simplex.mark == doneMark) {
+        if (!simplex.mark.raise(doneMark)) {
             return; //already checked
         }
-        simplex.mark = doneMark;
 
         PLOG("Checking neighbors of " << simplex << std::endl);
 #ifndef NDEBUG
@@ -329,8 +324,7 @@ void DCTriangulator<D, Precision>::updateNeighbors(
                         ASSERT(!set || cand == simplex.neighbors[d]); //second term is to guard against double entries
 
                         simplex.neighbors[d] = cand;
-                        if(simplicesHandle[cand].mark < queuedMark) {
-                            simplicesHandle[cand].mark = queuedMark;
+                        if(simplicesHandle[cand].mark.raise(queuedMark)) {
                             feeder.add(cand);
                         }
 #ifndef NDEBUG
-- 
2.43.0


From 0310b6d5adbd486779d9f1876434b63f013bc5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 44/62] fix: point hashers of several threads drew from one
 unsynchronised generator

---
 include/datastructures/LP_Set.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index 3274365..466d880 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -23,10 +23,16 @@
 #include <boost/serialization/access.hpp>
 #include <boost/serialization/array.hpp>
 
+namespace _detail {
+    // tables are created by several threads at once, the generator is shared
+    inline std::mutex hasherMutex;
+}
+
 template<typename T>
 struct Hasher {
 
     Hasher() {
+        std::lock_guard<std::mutex> lock(_detail::hasherMutex);
         std::uniform_int_distribution<T> dist(std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
         while (a = dist(startGen), a % 2 == 0) { } // find odd value
     }
-- 
2.43.0


From 120c6a71a37a89d6f9f58a8960635ca4f40d79e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 45/62] fix: merging removed simplices other threads were still
 looking at

---
 include/LoadBalancedDCTriangulator.tpp | 10 +++++++++-
 src/lib/DCTriangulator.cpp             | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index d3e37c0..db08d17 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -445,6 +445,7 @@ namespace LoadBalancing
 
         Concurrent_Id_Vector cConvexHull;
         Concurrent_Id_Vector insertedSimplices;
+        Concurrent_Id_Vector rejectedSimplices;
 
         auto cmpSearch =
                 [&tsMergedDTHandle](const tIdType &a, const tHashType &hash) {
@@ -491,11 +492,18 @@ namespace LoadBalancing
                         wuFacesHandle.insert((edgeSimplex.faceFingerprint(d)), edgeSimplex.id);
                     }
                 } else {
-                    edgeSimplex.id = dSimplex<D, Precision>::cINF;
+                    rejectedSimplices.push_back(edgeSimplex.id);
                 }
             }
         });
 
+        // the iterators look at the ids of simplices in the ranges of other threads,
+        // so the simplices can only be removed after the loop
+        uint hint = 0;
+        for (const auto &id : rejectedSimplices) {
+            edgeDT.at(id, hint).id = dSimplex<D, Precision>::cINF;
+        }
+
         mergedDT.merge(std::move(edgeDT), false);
         mergedDT.convexHull.reserve(mergedDT.convexHull.size() + cConvexHull.size());
         std::move(cConvexHull.begin(), cConvexHull.end(), std::back_inserter(mergedDT.convexHull));
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index 980ae3c..e81a4e4 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -403,6 +403,7 @@ dSimplices<D, Precision> DCTriangulator<D, Precision>::mergeTriangulation(
 
     Concurrent_Id_Vector cConvexHull;
     Concurrent_Id_Vector insertedSimplices;
+    Concurrent_Id_Vector rejectedSimplices;
 
     auto cmpSearch =
             [&tsMergedDTHandle](const tIdType &a, const tHashType &hash) {
@@ -449,11 +450,18 @@ dSimplices<D, Precision> DCTriangulator<D, Precision>::mergeTriangulation(
                     wuFacesHandle.insert((edgeSimplex.faceFingerprint(d)), edgeSimplex.id);
                 }
             } else {
-                edgeSimplex.id = dSimplex<D, Precision>::cINF;
+                rejectedSimplices.push_back(edgeSimplex.id);
             }
         }
     });
 
+    // the iterators look at the ids of simplices in the ranges of other threads,
+    // so the simplices can only be removed after the loop
+    uint hint = 0;
+    for (const auto &id : rejectedSimplices) {
+        edgeDT.at(id, hint).id = dSimplex<D, Precision>::cINF;
+    }
+
     mergedDT.merge(std::move(edgeDT), false);
     mergedDT.convexHull.reserve(mergedDT.convexHull.size() + cConvexHull.size());
     std::move(cConvexHull.begin(), cConvexHull.end(), std::back_inserter(mergedDT.convexHull));
-- 
2.43.0


From 99c61c12af2fb97695fc60b9c217b609b756599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:09 +0000
Subject: [PATCH 46/62] fix: generators left points unset if n is not a
 multiple of the bubbles or lines, or wrote them one id too low

---
 include/load_balancing/MaliciousBubbleGenerator.h | 4 ++--
 include/load_balancing/UnboundBubbleGenerator.h   | 5 +++--
 include/utils/Generator.h                         | 9 +++++----
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/load_balancing/MaliciousBubbleGenerator.h b/include/load_balancing/MaliciousBubbleGenerator.h
index 15b1186..d9428f3 100644
--- a/include/load_balancing/MaliciousBubbleGenerator.h
+++ b/include/load_balancing/MaliciousBubbleGenerator.h
@@ -32,7 +32,7 @@ protected:
         std::normal_distribution<Precision> pointDist(0.0, 0.5);
         
         for(size_t i = 0; i < n; ++i) {
-            size_t centerIndex = i * ((float)mNumBubbles / n);
+            size_t centerIndex = i * mNumBubbles / n;
             const auto& center = bubbleCenters[centerIndex];
             const auto& radius = bubbleRadiuses[centerIndex];
                   
@@ -43,7 +43,7 @@ protected:
                 });
                 coords = coords * radius + center;
             } while(!bounds.contains(coords));            
-            points[i] = coords;
+            points[i + 1] = coords; // id 0 is reserved
         }
     }
     
diff --git a/include/load_balancing/UnboundBubbleGenerator.h b/include/load_balancing/UnboundBubbleGenerator.h
index 6c274c0..de47afc 100644
--- a/include/load_balancing/UnboundBubbleGenerator.h
+++ b/include/load_balancing/UnboundBubbleGenerator.h
@@ -54,14 +54,15 @@ protected:
         });
         
         for(size_t i = 0; i < n; ++i) {
-            size_t centerIndex = i * ((float)mNumBubbles / n);
+            size_t centerIndex = i * mNumBubbles / n;
             
             dVector<D, Precision> coords;
             std::generate(coords.begin(), coords.end(), [&pointDist, &gen]() -> auto {
                 return pointDist(gen);
             });
             
-            points[i] = bubbleCenters[centerIndex] + coords;
+            // id 0 is reserved
+            points[i + 1] = bubbleCenters[centerIndex] + coords;
         }
     }
 };
diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index e1d9d25..fb69a78 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -151,7 +151,6 @@ protected:
             }
         }
 
-        tIdType ppB = n / bubbles.size(); // points per bubble
         for(uint b = 0; b < bubbles.size(); ++b) {
             const auto & bubble = bubbles[b];
 
@@ -163,7 +162,8 @@ protected:
                 span[d] -= bubble.low[d];
             }
 
-            for (tIdType i = b*ppB + 1; i <= (b+1)*ppB; ++i) {
+            // the bubbles share the n points as evenly as possible
+            for (tIdType i = b * n / bubbles.size() + 1; i <= (b + 1) * n / bubbles.size(); ++i) {
                 dPoint<D, Precision> p;
 
                 do {
@@ -276,7 +276,7 @@ protected:
         // a is skewed
         // b crosses the opposite corner
 
-        for (tIdType i = 1; i < n; i += 2) {
+        for (tIdType i = 1; i <= n; i += 2) {
             dPoint<D, Precision> p1, p2;
 
             Precision r = dice();
@@ -288,7 +288,8 @@ protected:
 
 
             points[i] = std::move(p1);
-            points[i + 1] = std::move(p2);
+            if (i + 1 <= n)
+                points[i + 1] = std::move(p2);
         }
 
         // TODO checks for colliding points, straight lines, etc.
-- 
2.43.0


From 873b6ff1402117ff44e8a59b6fc63dc3c57ed6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:37 +0000
Subject: [PATCH 47/62] fix: increments of profiling counters by several
 threads could be lost

---
 include/utils/Timings.h | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/utils/Timings.h b/include/utils/Timings.h
index 530411c..dea48d0 100644
--- a/include/utils/Timings.h
+++ b/include/utils/Timings.h
@@ -7,6 +7,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <chrono>
 #include <string>
 #include <vector>
@@ -27,6 +28,30 @@ public:
     typedef ulong tMeasurement;
     typedef tbb::concurrent_vector<tMeasurement> tMeasurements;
 
+    /* counter that can be increased by several threads at once */
+    class tCounter {
+
+    public:
+        tCounter() : m_value(0) { }
+
+        tCounter(const tCounter &other) : m_value(other) { }
+
+        tCounter &operator=(const tCounter &other) {
+            m_value = static_cast<tMeasurement>(other);
+            return *this;
+        }
+
+        operator tMeasurement() const { return m_value; }
+
+        tCounter &operator+=(const tMeasurement &value) {
+            m_value += value;
+            return *this;
+        }
+
+    private:
+        std::atomic<tMeasurement> m_value;
+    };
+
 public:
 
     ExperimentRun();
@@ -108,7 +133,7 @@ public:
 private:
     std::map<std::string, std::string> m_traits;
     tbb::concurrent_unordered_map<std::string, tMeasurements> m_measurements;
-    tbb::concurrent_unordered_map<std::string, tMeasurement> m_counters;
+    tbb::concurrent_unordered_map<std::string, tCounter> m_counters;
 
 private:
     static std::vector<std::string> c_ignored_fields;
-- 
2.43.0


From 7519d54831ce2ce815946908ac9b1243e1cb8f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:38 +0000
Subject: [PATCH 48/62] fix: comparing experiment runs depended on the ignored
 traits and on the order of the operands

---
 src/utils/Timings.cpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/utils/Timings.cpp b/src/utils/Timings.cpp
index 5066629..f3f16ab 100644
--- a/src/utils/Timings.cpp
+++ b/src/utils/Timings.cpp
@@ -76,25 +76,15 @@ ExperimentRun::tMeasurement ExperimentRun::avgMeasurement(const std::string &nam
 
 bool ExperimentRun::operator==(const ExperimentRun &o) const {
 
-    if (m_traits.size() != o.m_traits.size())
-        return false;
-
-    bool eq = true;
-    for (const auto &t : m_traits) {
-
-        if (std::find(c_ignored_fields.begin(), c_ignored_fields.end(), t.first) != c_ignored_fields.end())
-            //trait is ignored field
-            continue;
-
-        if (o.m_traits.count(t.first) == 0)
-            // the other object does not contain this trait
-            return false;
-        else if (t.second != o.m_traits.at(t.first))
-            eq = false;
-    }
-
-
-    return eq;
+    auto relevant = [](const std::map<std::string, std::string> &traits) {
+        std::map<std::string, std::string> result;
+        for (const auto &t : traits)
+            if (std::find(c_ignored_fields.begin(), c_ignored_fields.end(), t.first) == c_ignored_fields.end())
+                result.insert(t);
+        return result;
+    };
+
+    return relevant(m_traits) == relevant(o.m_traits);
 
 }
 
-- 
2.43.0


From a9d6150d03acfa90189f50216d744b360c91778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:06 +0000
Subject: [PATCH 49/62] fix: numbers with a leading zero before the point were
 no floats, any first character was taken for a sign, header functions were
 not inline

---
 include/utils/StringUtils.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/utils/StringUtils.h b/include/utils/StringUtils.h
index 1b0d998..6ee41d2 100644
--- a/include/utils/StringUtils.h
+++ b/include/utils/StringUtils.h
@@ -4,14 +4,14 @@
 #include <regex>
 #include <string>
 
-bool is_int(const std::string & s){
+inline bool is_int(const std::string & s){
     return !s.empty() &&
            ((s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|][0-9]+")));
+           || std::regex_match(s, std::regex("[-+]?[0-9]+")));
 }
 
-bool is_float(const std::string & s){
+inline bool is_float(const std::string & s){
     return !s.empty() && (
            (s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|](([1-9][0-9]*\\.?[0-9]*)|(\\.[0-9]+))([Ee][+-]?[0-9]+)?")));
+           || std::regex_match(s, std::regex("[-+]?(([0-9]+\\.?[0-9]*)|(\\.[0-9]+))([Ee][+-]?[0-9]+)?")));
 }
\ No newline at end of file
-- 
2.43.0


From 5dbb2b58db86749a3b8609d2a5babbe6927da841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:06 +0000
Subject: [PATCH 50/62] fix: progress increments of several threads could
 return the count of another thread

---
 include/utils/ProgressDisplay.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/utils/ProgressDisplay.h b/include/utils/ProgressDisplay.h
index 504e9be..a3caf9b 100644
--- a/include/utils/ProgressDisplay.h
+++ b/include/utils/ProgressDisplay.h
@@ -33,7 +33,8 @@ public:
     //  Effects: display appropriate scale
     //  Postconditions: count()==0, expected_count()==expected_count_
     {
-        _count = _next_tic_count = _tic = 0;
+        _count = 0;
+        _next_tic_count = _tic = 0;
         _expected_count = expected_count_;
 
         m_os << m_s1 << "0%   10   20   30   40   50   60   70   80   90   100%\n"
@@ -51,13 +52,14 @@ public:
     {
         while (_mtx.test_and_set(std::memory_order_acquire)) // acquire lock
             ;                                                  // spin
-        if ((_count += increment) >= _next_tic_count) {
+        const unsigned long newCount = (_count += increment);
+        if (newCount >= _next_tic_count) {
             display_tic();
         }
 
         _mtx.clear(std::memory_order_release); // release lock
 
-        return _count;
+        return newCount;
     }
 
     unsigned long operator++() { return operator+=(1); }
@@ -72,7 +74,8 @@ private:
     const std::string m_s2; //  const char *, and efficiency or size are
     const std::string m_s3; //  not issues
 
-    unsigned long _count, _expected_count, _next_tic_count;
+    std::atomic<unsigned long> _count; // read without the lock by count()
+    unsigned long _expected_count, _next_tic_count;
     unsigned int _tic;
     std::atomic_flag _mtx = ATOMIC_FLAG_INIT;
 
-- 
2.43.0


From 85a9556d3ae889d3940653aa7c213e18beec363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:06 +0000
Subject: [PATCH 51/62] fix: terminal color commands contained characters
 instead of numbers

---
 src/utils/ccolor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/ccolor.cpp b/src/utils/ccolor.cpp
index 099f085..b855933 100644
--- a/src/utils/ccolor.cpp
+++ b/src/utils/ccolor.cpp
@@ -18,10 +18,10 @@ namespace zkr {
     };
 
     char *cc::color(char attr, char fg, char bg) {
-        static char command[13];
+        static char command[20];
 
         /* Command is the control command to the terminal */
-        sprintf(command, "%c[%c;%c;%cm", 0x1B, attr, fg + 30, bg + 40);
+        sprintf(command, "%c[%d;%d;%dm", 0x1B, attr, fg + 30, bg + 40);
         return command;
     }
 
-- 
2.43.0


From d6485390cd131cfbd312dda4d1905323b86dc22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:42 +0000
Subject: [PATCH 52/62] fix: the experiment asked a moved-from partitioner for
 its name and used the accumulator before its construction

---
 include/load_balancing/Experiment.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index 187c71a..b6815b5 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -34,8 +34,8 @@ namespace LoadBalancing
         Setup setup;
         std::ostream& out;
         std::string partitionerName;
+        ComprehensiveAccumulator acc; // initialized before the triangulator whose monitor refers to it
         DCTriangulator<D, Precision, ComprehensiveMonitor> triangulator;
-        ComprehensiveAccumulator acc;
         size_t runs;
         
         void start();
@@ -49,7 +49,7 @@ namespace LoadBalancing
         : setup(std::move(setup)),
           out(out),
           partitionerName(partitioner->info()),
-          triangulator(this->setup.bounds, this->setup.points, this->setup.threads, std::move(partitioner), 100, false, (partitioner->info().find("bipartitioner") == std::string::npos), true, ComprehensiveMonitor(acc)),
+          triangulator(this->setup.bounds, this->setup.points, this->setup.threads, std::move(partitioner), 100, false, (partitionerName.find("bipartitioner") == std::string::npos), true, ComprehensiveMonitor(acc)),
           //triangulator(this->setup.bounds, this->setup.points, this->setup.threads, std::move(partitioner), 100, false, false, true, ComprehensiveMonitor(acc)),
           runs(0) {
         start();
-- 
2.43.0


From 3404458fa23cdb438e4a883d86ddc6337aeb7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:42 +0000
Subject: [PATCH 53/62] fix: the report of an experiment repeated the figures
 of its previous runs

---
 include/load_balancing/Experiment.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index b6815b5..371afcd 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -62,6 +62,11 @@ namespace LoadBalancing
     
     template<uint D, typename Precision>
     bool Experiment<D, Precision>::runOnce() {
+        // report the figures of this run only
+        acc.numTriangulatedPoints = 0;
+        acc.partitionSizes.clear();
+        acc.baseTriangulations.clear();
+
         auto dt = triangulator.triangulate();
         bool result = true;
             
-- 
2.43.0


From 27697d09704819267de40227769a3d8315d94376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:42 +0000
Subject: [PATCH 54/62] fix: the report of an experiment counted the reserved
 point and removed simplices

---
 include/load_balancing/Experiment.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index 371afcd..d0393bd 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -75,7 +75,7 @@ namespace LoadBalancing
             << "            \"partitiontime\": " << acc.partitionTime.count() << ",\n"
             << "            \"triangulationtime\": " << acc.triangulationTime.count() << ",\n"
             << "            \"triangulatedPoints\": " << acc.numTriangulatedPoints << ",\n"
-            << "            \"simplices\": " << dt.exact_size() << ",\n"
+            << "            \"simplices\": " << std::distance(dt.begin(), dt.end()) << ",\n"
             << "            \"sampleSize\": " << acc.sampleSize << ",\n";
             if(setup.verify) {
 	            result = verify(dt);
@@ -126,7 +126,7 @@ namespace LoadBalancing
             << "    \"triangulator\": \"" << "load balanced DC Triangulator\",\n"
             << "    \"partitioner\": \"" << partitionerName << "\",\n"
             << "    \"distribution\": \"" << setup.distribution << "\",\n"
-            << "    \"numpoints\": " << setup.points.finite_size() << ",\n"
+            << "    \"numpoints\": " << setup.points.finite_size() - 1 /* id 0 is reserved */ << ",\n"
             << "    \"threads\": " << setup.threads << ",\n"
             << "    \"seed\": " << setup.seed << ",\n"
             << "    \"results\": [";
-- 
2.43.0


From 1aefd7248ad990ac85d8b620ca991c25adab0134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:06 +0000
Subject: [PATCH 55/62] fix: an empty trait could not be read back from the
 text of an experiment run

---
 src/utils/Timings.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/Timings.cpp b/src/utils/Timings.cpp
index f3f16ab..b7c8537 100644
--- a/src/utils/Timings.cpp
+++ b/src/utils/Timings.cpp
@@ -25,7 +25,13 @@ ExperimentRun::ExperimentRun(const std::string &run, std::string _traitSep, std:
 
     while (currPos < run.length()) {
         innerSep = run.find(_innerSep, currPos);
-        traitSep = run.find(_traitSep, currPos);
+
+        //no further trait in the string
+        if (innerSep == std::string::npos)
+            break;
+
+        //the value might be empty, it begins behind the inner separator
+        traitSep = run.find(_traitSep, innerSep + _innerSep.length());
 
         //we have the last trait in the string
         traitSep = traitSep != std::string::npos ? traitSep : run.length() + 1;
-- 
2.43.0


From 37a6a6ebfaef1c5031f6af638293eb6b6fb08263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:12 +0000
Subject: [PATCH 56/62] fix: arguments and distribution were not escaped in the
 report of an experiment

---
 include/load_balancing/Experiment.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/Experiment.h b/include/load_balancing/Experiment.h
index d0393bd..7900c4a 100644
--- a/include/load_balancing/Experiment.h
+++ b/include/load_balancing/Experiment.h
@@ -1,5 +1,7 @@
 #pragma once
 #include <ctime>
+#include <iomanip>
+#include <iterator>
 #include <ostream>
 #include <chrono>
 #include <sstream>
@@ -42,6 +44,7 @@ namespace LoadBalancing
         void finish();
         bool verify(const dSimplices<D, Precision>& dt);
         std::string makeDateTimeString() const;
+        static std::string escape(const std::string& text);
     };
     
     template<uint D, typename Precision>
@@ -122,10 +125,10 @@ namespace LoadBalancing
         out << "{\n"
             << "    \"commit\": \"" << GIT_COMMIT << "\",\n"
             << "    \"date\": \"" << makeDateTimeString() << "\",\n"
-            << "    \"args\": \"" << setup.argumentString <<"\",\n"
+            << "    \"args\": \"" << escape(setup.argumentString) <<"\",\n"
             << "    \"triangulator\": \"" << "load balanced DC Triangulator\",\n"
             << "    \"partitioner\": \"" << partitionerName << "\",\n"
-            << "    \"distribution\": \"" << setup.distribution << "\",\n"
+            << "    \"distribution\": \"" << escape(setup.distribution) << "\",\n"
             << "    \"numpoints\": " << setup.points.finite_size() - 1 /* id 0 is reserved */ << ",\n"
             << "    \"threads\": " << setup.threads << ",\n"
             << "    \"seed\": " << setup.seed << ",\n"
@@ -161,4 +164,18 @@ namespace LoadBalancing
         stream << std::put_time(&tm, "%FT%T%z");
         return stream.str();
     }
+    
+    template<uint D, typename Precision>
+    std::string Experiment<D, Precision>::escape(const std::string& text) {
+        std::stringstream stream;
+        for(unsigned char c : text) {
+            if(c == '"' || c == '\\')
+                stream << '\\' << c;
+            else if(c < 0x20) // control characters
+                stream << "\\u" << std::hex << std::setw(4) << std::setfill('0') << static_cast<uint>(c);
+            else
+                stream << c;
+        }
+        return stream.str();
+    }
 }
-- 
2.43.0


From a96a4231fe5aaad0a5dc567059a4d75a715e49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:12 +0000
Subject: [PATCH 57/62] fix: an unknown partitioner name dereferenced a null
 pointer

---
 include/load_balancing/CommandLineInterface.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/load_balancing/CommandLineInterface.h b/include/load_balancing/CommandLineInterface.h
index 49f583e..aa8adad 100644
--- a/include/load_balancing/CommandLineInterface.h
+++ b/include/load_balancing/CommandLineInterface.h
@@ -192,6 +192,8 @@ std::unique_ptr<lb::Partitioner<D, Precision, MonitorT>> createPartitioner(const
             uint d = vm["split-dimension"].as<uint>();
             ASSERT(d < D);
             oldPartitioner = std::make_unique<OneDimPartitioner<D, Precision>>(d);
+		} else {
+			throw std::runtime_error("unknown option for argument 'partitioner'");
 		}
         auto maxRecursions = oldPartitioner->getRecursionDepth(threads);
         partitioner =
-- 
2.43.0


From 25f69be203bd2740d583f93c2e9b851e30abebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:12 +0000
Subject: [PATCH 58/62] fix: the point dump contained the reserved point

---
 src/exe/LB_PointDump.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exe/LB_PointDump.cpp b/src/exe/LB_PointDump.cpp
index aa40700..2553a07 100644
--- a/src/exe/LB_PointDump.cpp
+++ b/src/exe/LB_PointDump.cpp
@@ -1,4 +1,5 @@
 #include <cstdio>
+#include <iterator>
 #include "load_balancing/CommandLineInterface.h"
 
 constexpr uint D = 3;
@@ -41,7 +42,8 @@ int main(int argc, char** argv) {
     auto N = vm["n"].as<tIdType>();
     points = pg->generate(N, bounds, startGen);
     
-    for(const auto& point : points) {
+    for(auto it = std::next(points.begin()) /* id 0 is reserved */; it != points.end(); ++it) {
+        const auto& point = *it;
         printf("%f %f %f\n", point.coords[0], point.coords[1], point.coords[2]);
     }
 }
-- 
2.43.0


From ce06b3cbd06e48984a4039c274384c78cd7ba790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:12 +0000
Subject: [PATCH 59/62] fix: the verbosity given to the experiments was
 ignored, a missing dimension was read uninitialised

---
 src/exe/LB_Experiments.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/exe/LB_Experiments.cpp b/src/exe/LB_Experiments.cpp
index 7b77bc9..c5c96a6 100644
--- a/src/exe/LB_Experiments.cpp
+++ b/src/exe/LB_Experiments.cpp
@@ -56,7 +56,7 @@ int main(int argc, char *argv[]) {
     uint threads = tbb::task_scheduler_init::default_num_threads();
     std::string pointFile;
     std::string partitionerName;
-    uint dim;
+    uint dim = 0;
     int verbosity = (short)Logger::Verbosity::NORMAL;
 
     auto cCommandLine = defaultOptions<double>();
@@ -66,11 +66,10 @@ int main(int argc, char *argv[]) {
                                "load points from file");
     cCommandLine.add_options()("verbosity", po::value<int>(&verbosity),
                                "verbosity");
-    LOGGER.setLogLevel(static_cast<Logger::Verbosity>(verbosity));
-
     po::variables_map vm;
     po::store(po::parse_command_line(argc, argv, cCommandLine), vm);
     po::notify(vm);
+    LOGGER.setLogLevel(static_cast<Logger::Verbosity>(verbosity));
 
     if (vm.count("help")) {
         std::cout << cCommandLine << std::endl;
-- 
2.43.0


From cf569f57ba19a4bffcbdf5e00083833daa38fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:49 +0000
Subject: [PATCH 60/62] fix: tasks executed by a waiting thread left its log
 indentation changed, which failed an assertion

---
 include/LoadBalancedDCTriangulator.tpp |  3 +++
 include/utils/Logger.h                 | 14 ++++++++++++++
 src/lib/DCTriangulator.cpp             |  3 +++
 3 files changed, 20 insertions(+)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index db08d17..67db27d 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -316,6 +316,7 @@ namespace LoadBalancing
         tbb::parallel_do(toCheck.range(), [&](const tIdType &id,
                                             tbb::parallel_do_feeder<tIdType> &feeder) {
 
+            const Logger::IndentGuard indentGuard;
             LOGGER.setIndent(saveIndent);
 
             auto &simplicesHandle = tsSimplicesHandle.local();
@@ -634,6 +635,7 @@ namespace LoadBalancing
             tbb::parallel_for(
                     std::size_t(0), partSize,
                     [&](const uint i) {
+                        const Logger::IndentGuard indentGuard;
                         LOGGER.setIndent(
                                 provenance.length()); // new thread, initialize Logger indent
                         INDENT
@@ -662,6 +664,7 @@ namespace LoadBalancing
             tbb::parallel_for(
                     std::size_t(0), partSize,
                     [&](const uint i) {
+                        const Logger::IndentGuard indentGuard;
                         LOGGER.setIndent(
                                 provenance.length()); // new thread, initialize Logger indent
                         INDENT
diff --git a/include/utils/Logger.h b/include/utils/Logger.h
index 5b321de..f250a0e 100644
--- a/include/utils/Logger.h
+++ b/include/utils/Logger.h
@@ -85,6 +85,20 @@ public:
 
     uint getIndent() { return indentLevel; }
 
+    /* Restores the indentation at the end of a task: the thread may execute it
+     * while it waits in the middle of another one */
+    class IndentGuard {
+    public:
+        IndentGuard() : saved(indentLevel) { }
+        ~IndentGuard() { indentLevel = saved; }
+
+        IndentGuard(const IndentGuard &) = delete;
+        IndentGuard &operator=(const IndentGuard &) = delete;
+
+    private:
+        const uint saved;
+    };
+
     template<typename InputIt>
     void logContainer(const InputIt &first, const InputIt &last, Verbosity level,
                       const std::string &prefix = "",
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index e81a4e4..05cbca4 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -274,6 +274,7 @@ void DCTriangulator<D, Precision>::updateNeighbors(
     tbb::parallel_do(toCheck.range(), [&](const tIdType &id,
                                           tbb::parallel_do_feeder<tIdType> &feeder) {
 
+        const Logger::IndentGuard indentGuard;
         LOGGER.setIndent(saveIndent);
 
         auto &simplicesHandle = tsSimplicesHandle.local();
@@ -532,6 +533,7 @@ dSimplices<D, Precision> DCTriangulator<D, Precision>::_triangulate(const Point_
         tbb::parallel_for(
                 std::size_t(0), partioning.size(),
                 [&](const uint i) {
+                    const Logger::IndentGuard indentGuard;
                     LOGGER.setIndent(
                             provenance.length()); // new thread, initialize Logger indent
                     INDENT
@@ -552,6 +554,7 @@ dSimplices<D, Precision> DCTriangulator<D, Precision>::_triangulate(const Point_
         tbb::parallel_for(
                 std::size_t(0), partioning.size(),
                 [&](const uint i) {
+                    const Logger::IndentGuard indentGuard;
                     LOGGER.setIndent(
                             provenance.length()); // new thread, initialize Logger indent
                     INDENT
-- 
2.43.0


From 5da049563bb08cc29fcc5c2178443c6568ecca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:58 +0000
Subject: [PATCH 61/62] fix: the prolix log read the neighbors of a simplex
 while another task updated them

---
 include/LoadBalancedDCTriangulator.tpp | 2 +-
 src/lib/DCTriangulator.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index 67db27d..62a824c 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -363,7 +363,7 @@ namespace LoadBalancing
                             && simplex.isNeighbor(simplicesHandle[cand]) // it is a neighbor
                             && !simplicesHandle[cand].contains(simplex.vertices[d]) // its neighboring at the correct edge
                                 ) {
-                            PLOG("Neighbor with " << simplicesHandle[cand] << std::endl);
+                            PLOG("Neighbor with " << cand << std::endl); // whose neighbors may be updated right now
                             ASSERT(!set || cand == simplex.neighbors[d]); //second term is to guard against double entries
 
                             simplex.neighbors[d] = cand;
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index 05cbca4..09e5394 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -321,7 +321,7 @@ void DCTriangulator<D, Precision>::updateNeighbors(
                         && simplex.isNeighbor(simplicesHandle[cand]) // it is a neighbor
                         && !simplicesHandle[cand].contains(simplex.vertices[d]) // its neighboring at the correct edge
                             ) {
-                        PLOG("Neighbor with " << simplicesHandle[cand] << std::endl);
+                        PLOG("Neighbor with " << cand << std::endl); // whose neighbors may be updated right now
                         ASSERT(!set || cand == simplex.neighbors[d]); //second term is to guard against double entries
 
                         simplex.neighbors[d] = cand;
-- 
2.43.0


From a375d83b3b1e81f8cc1d5e4cef7e7fdeba22827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:58 +0000
Subject: [PATCH 62/62] fix: k-way splitter converted NaN and negative numbers
 to size_t and cut double coordinates to float

---
 include/load_balancing/kWaySplitter.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/load_balancing/kWaySplitter.h b/include/load_balancing/kWaySplitter.h
index 19d62bc..53696eb 100644
--- a/include/load_balancing/kWaySplitter.h
+++ b/include/load_balancing/kWaySplitter.h
@@ -55,8 +55,8 @@ namespace LoadBalancing
 
 			if(depth < splits.size()) { 
 				size_t dim = depth % D;
-				float min = stats.min[dim];
-				float max = stats.max[dim];
+				Precision min = stats.min[dim];
+				Precision max = stats.max[dim];
 				size_t numPartitions = splits[depth];
                 
                 std::vector<Concurrent_Growing_Point_Ids> idsets;
@@ -72,10 +72,11 @@ namespace LoadBalancing
                     for(auto id : range) {
                         if(dPoint<D, Precision>::isFinite(id)) {
                             auto coord = points[id].coords[dim];
-                            float normalizedAxisPosition = (coord - min)/(max - min);
-                            int partition = (size_t)std::floor(normalizedAxisPosition
-                                                               * numPartitions);
-                            partition = std::clamp(partition, 0, (int)numPartitions - 1);
+                            // not a number if all points have the same coordinate
+                            Precision axisPosition = (coord - min)/(max - min) * numPartitions;
+                            size_t partition = axisPosition > 0
+                                ? std::min<Precision>(std::floor(axisPosition), numPartitions - 1)
+                                : 0;
                             
                             Handle tsPointHandle = std::ref(idsets[partition]);
                             auto& pointsHandle = tsPointHandle.local();
-- 
2.43.0

