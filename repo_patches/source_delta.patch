From 1f6806632af57030d0aea6c26c9c5de4a72d5aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:08 +0000
Subject: [PATCH 01/23] fix: IntegerTraits<int64_t>::log2Mod() counts leading
 zeros on 64 bits

It used nlz8(), which only looks at the low byte.
---
 common/include/rofl/common/numeric_traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index b620365..2a0d2b2 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -258,9 +258,9 @@ struct IntegerTraits<int64_t> {
 
     static IntegerType log2Mod(const IntegerType& i) {
         if (i > 0)
-            return (BIT_NUM - 1 - nlz8(i));
+            return (BIT_NUM - 1 - nlz64(i));
         else if (i < 0)
-            return (BIT_NUM - 1 - nlz8(-i));
+            return (BIT_NUM - 1 - nlz64(-i));
         else
             return 0;  // arbitrary output for invalid argument 0
     }
-- 
2.43.0


From 296eb5144b4368c0273ca62ad33988a384623da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:08 +0000
Subject: [PATCH 02/23] fix: FloatTraits<double> has 11 exponent bits

EXPONENT_BITS was 8, which gave wrong EXPONENT_MASK, EXPONENT_MAX and SIGN_MASK.
---
 common/include/rofl/common/numeric_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index 2a0d2b2..81a61e6 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -437,7 +437,7 @@ struct FloatTraits<double> {
 
     static const int BIT_NUM = 64;
     static const int MANTISSA_BITS = 52;
-    static const int EXPONENT_BITS = 8;
+    static const int EXPONENT_BITS = 11;
     static const int EXPONENT_BIAS = 1023;
 
     static constexpr IntegerType MANTISSA_IMPLICIT_BIT = (IntegerType)1 << MANTISSA_BITS;
-- 
2.43.0


From 3085ed846b74bb3f5b132763cfca8ad160144ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:08 +0000
Subject: [PATCH 03/23] fix: intervalPow2Int() shifts in the integer's own
 width

1 << level overflowed int for 64-bit integers (and 1 << -1 for equal arguments),
and the middle of the full unsigned range was one below low + 2^(level - 1).
---
 common/include/rofl/common/morton_sort.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index da42b0d..a87a400 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -112,10 +112,14 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
     //   mid         00001000  -> 8
     level = IT::BIT_NUM - IT::nlz(IT::removeSign(i1) ^ IT::removeSign(i2));
     if (level < IT::BIT_NUM) {
-        intervMask = (1 << level) - 1;
+        intervMask = (IntegerType)(((UnsignedType)1 << level) - 1);
         low = i1 & (~intervMask);
         upp = (low | intervMask);
-        mid = low | (1 << (level - 1));
+        if (level > 0) {
+            mid = low | (IntegerType)((UnsignedType)1 << (level - 1));
+        } else {
+            mid = low;
+        }
         // ROFL_VAR1(level);
         // ROFL_MSG("i1          " << std::bitset<IT::BIT_NUM>(i1));
         // ROFL_MSG("i2          " << std::bitset<IT::BIT_NUM>(i2));
@@ -128,7 +132,7 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
         intervMask = ~0;
         low = std::numeric_limits<I>::min();
         upp = std::numeric_limits<I>::max();
-        mid = (upp + low) / 2;
+        mid = (I)((UnsignedType)low + ((UnsignedType)1 << (IT::BIT_NUM - 1)));
     }
     return (int)level;
 }
-- 
2.43.0


From e3117fc5d8c86614c2f4b36a1c533e67ce8a2904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:44 +0000
Subject: [PATCH 04/23] fix: BoustrophedonIndexer keeps consecutive cells
 adjacent in 3 or more dimensions

With an odd inner dimension the sweep direction was computed from the digit
alone, so the visit jumped between non-adjacent cells.
---
 common/include/rofl/common/interval_indices.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index 4e5e78f..764e0c4 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -144,7 +144,9 @@ namespace rofl {
                 for (int d = Dim - 1; d >= 0; --d) {
                     //ROFL_VAR3(d, indices[d], odd);
                     if (odd) {
-                        odd = indices[d] % 2;
+                        // an odd number of sweeps is behind: direction of the next dimension
+                        // depends also on the number of cells of those sweeps
+                        odd = (indices[d] + dimensions[d]) % 2;
                         indices[d] = dimensions[d] - indices[d] - 1;
                     } else {
                         odd = indices[d] % 2;
-- 
2.43.0


From 37b90609bda40a458763878b19aab6db90976342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:44 +0000
Subject: [PATCH 05/23] fix: IntervalIndices::size() is 0 for an empty interval
 with negative dimensions

initMinMax() with max < min gives negative dimensions: empty() is true, but
size() (and hence the end iterators) was a huge number or a positive product.
---
 common/include/rofl/common/interval_indices.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index 764e0c4..e52e6af 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -353,6 +353,9 @@ namespace rofl {
          * Returns the number of indices items included in the interval.
          */
         size_t size() const {
+            if (empty()) {
+                return 0;
+            }
             size_t s = 1;
             for (int d = 0; d < Dim; ++d) {
                 s *= dimensions_[d];
-- 
2.43.0


From 307fc86960b41e061ce87c54013e7a430e107621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:31 +0000
Subject: [PATCH 06/23] fix: MinMaxHeap::heapDownMin() stops after swapping
 with a child

The swapped item lies on a max level, so going on with the min rule below it
breaks the heap order when values are duplicated.
---
 common/include/rofl/common/min_max_heap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 3c58787..0bcfc10 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -368,7 +368,7 @@ namespace rofl {
                     icurr = igrand;
                 } else if (ichild < data_.size() && cmp_(data_[ichild], data_[icurr])) {
                     std::swap(data_[icurr], data_[ichild]);
-                    icurr = ichild;
+                    icurr = data_.size();
                 } else {
                     icurr = data_.size();
                 }
-- 
2.43.0


From feb9b0edcb263dbe0a40227c50cddca2ed54dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:31 +0000
Subject: [PATCH 07/23] fix: MinMaxHeap::nextTop() considers children and
 grandchildren of the root

---
 common/include/rofl/common/min_max_heap.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 0bcfc10..b0c9d8b 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -130,10 +130,14 @@ namespace rofl {
             ROFL_ASSERT(!data_.empty());
             if (data_.size() == 1) {
                 return data_[0];
-            } else if (data_.size() < 4) {
-                return data_[childMin(0)];
             } else {
-                return data_[grandchildMin(0)];
+                // the next minimum is either a child or a grandchild of the root
+                size_t inext = childMin(0);
+                size_t igrand = grandchildMin(0);
+                if (igrand < data_.size() && cmp_(data_[igrand], data_[inext])) {
+                    inext = igrand;
+                }
+                return data_[inext];
             }
         }
 
-- 
2.43.0


From 454f44a47a437ebb56dbf032ce91f7de823bd97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:31 +0000
Subject: [PATCH 08/23] fix: MinMaxHeap::nextBottom() considers children and
 grandchildren of the maximum

---
 common/include/rofl/common/min_max_heap.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index b0c9d8b..b2711c3 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -148,7 +148,18 @@ namespace rofl {
             if (data_.size() < 3) {
                 return data_[0];
             } else {
-                return data_[childMin(0)];
+                // the next maximum is either the sibling, a child or a grandchild of the maximum
+                size_t imax = childMax(0);
+                size_t inext = 3 - imax;
+                size_t ichild = childMax(imax);
+                if (ichild < data_.size() && cmp_(data_[inext], data_[ichild])) {
+                    inext = ichild;
+                }
+                size_t igrand = grandchildMax(imax);
+                if (igrand < data_.size() && cmp_(data_[inext], data_[igrand])) {
+                    inext = igrand;
+                }
+                return data_[inext];
             }
         }
 
-- 
2.43.0


From ec81d7f0dfbde533635d31bd0dd463132535c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:51 +0000
Subject: [PATCH 09/23] fix: DisjointSet::makeSet() counts the new set

---
 common/src/disjoint_set.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index c12ceea..ad84dc3 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -53,6 +53,7 @@ namespace rofl {
         n.rank = 0;
         n.size = 1;
         nodes_.push_back(n);
+        setNum_++;
         return n.parent;
     }
 
-- 
2.43.0


From 572304818aaba08a0e66d2a5b32b211f5c8e5d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:51 +0000
Subject: [PATCH 10/23] fix: DisjointSet::join() and size() do not access nodes
 of invalid ids

---
 common/include/rofl/common/disjoint_set.h | 1 +
 common/src/disjoint_set.cpp               | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/common/include/rofl/common/disjoint_set.h b/common/include/rofl/common/disjoint_set.h
index 31296b6..a27734d 100644
--- a/common/include/rofl/common/disjoint_set.h
+++ b/common/include/rofl/common/disjoint_set.h
@@ -82,6 +82,7 @@ namespace rofl {
          */
         size_t size(int n) {
             id_type root = find(n);
+            if (root == (id_type) nodes_.size()) return 0;
             return nodes_[root].size;
         }
 
diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index ad84dc3..40a01c2 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -76,6 +76,9 @@ namespace rofl {
     DisjointSet::id_type DisjointSet::join(id_type n1, id_type n2) {
         id_type root1 = find(n1);
         id_type root2 = find(n2);
+        id_type invalid = (id_type) nodes_.size();
+        // find() has already complained about invalid ids
+        if (root1 == invalid || root2 == invalid) return invalid;
         // If n1 and n2 are already in the same set, there is no join to do
         if (root1 == root2) return nodes_.size();
 
-- 
2.43.0


From 69e53b4f56ebfc3b767dfdf0c81697e048226280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:53 +0000
Subject: [PATCH 11/23] fix: LabelSet equality compares both sets entirely

---
 common/src/label_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/label_set.cpp b/common/src/label_set.cpp
index be5586b..7122c7e 100644
--- a/common/src/label_set.cpp
+++ b/common/src/label_set.cpp
@@ -54,11 +54,11 @@ namespace rofl {
     }
     
     bool LabelSet::operator==(const LabelSet& ls) const {
-        return std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return labels_ == ls.labels_;
     }
     
     bool LabelSet::operator!=(const LabelSet& ls) const {
-        return !std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return !(labels_ == ls.labels_);
     }
 
     bool LabelSet::insert(Label label) {
-- 
2.43.0


From 2396b5cf4f89feb9c9216338fb2fe0d5222e8524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:09 +0000
Subject: [PATCH 12/23] fix: normalize360() and normalize180() return angles
 within the documented interval

---
 common/src/functions.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index bb9f57b..29f679c 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -104,11 +104,19 @@ namespace rofl {
     }
     
     double normalize360(double angle) {
-        return (angle - K_2PI * floor(angle / K_2PI));
+        constexpr double period = 2.0 * M_PI;
+        double res = angle - period * floor(angle / period);
+        // due to rounding, res may be slightly less than 0.0 or equal to period
+        if (res < 0.0 || res >= period) res = 0.0;
+        return res;
     }
     
     double normalize180(double angle) {
-        return (angle - M_PI * floor(angle / M_PI));
+        constexpr double period = M_PI;
+        double res = angle - period * floor(angle / period);
+        // due to rounding, res may be slightly less than 0.0 or equal to period
+        if (res < 0.0 || res >= period) res = 0.0;
+        return res;
     }
 
     double evaluateFourier(const std::vector<double>& coeffs, double theta) {
-- 
2.43.0


From 8ca568286f0de3056649cf2207e10aa218f36985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:48 +0000
Subject: [PATCH 13/23] fix: normalizeAngle2Pi() returns angles within [0,
 2*pi)

---
 geometry/src/base_geometry2.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometry/src/base_geometry2.cpp b/geometry/src/base_geometry2.cpp
index 6e68898..5a45f42 100644
--- a/geometry/src/base_geometry2.cpp
+++ b/geometry/src/base_geometry2.cpp
@@ -40,7 +40,10 @@ namespace rofl {
     // --------------------------------------------------------------
 
     Scalar normalizeAngle2Pi(Scalar angle) {
-        return (angle - K_2PI * floor(angle / K_2PI));
+        Scalar res = angle - K_2PI * floor(angle / K_2PI);
+        // due to rounding, res may be slightly less than 0.0 or equal to K_2PI
+        if (res < 0.0 || res >= K_2PI) res = 0.0;
+        return res;
     }
 
     bool insideAngleInterval(Scalar x, Scalar y, Vector2 pBeg, Vector2 pEnd) {
-- 
2.43.0


From b8b9df8eccc922f7aa82485da2e112d9d6870dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:48 +0000
Subject: [PATCH 14/23] fix: length of a degree of longitude is computed from
 the latitude of the origin

---
 geometry/include/rofl/geometry/gis.h |  4 ++--
 geometry/src/gis.cpp                 | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/geometry/include/rofl/geometry/gis.h b/geometry/include/rofl/geometry/gis.h
index 0fc78b0..b6dc682 100644
--- a/geometry/include/rofl/geometry/gis.h
+++ b/geometry/include/rofl/geometry/gis.h
@@ -69,10 +69,10 @@ namespace rofl {
      * Returns the meters-per-degree of corresponding to latitude at zero altitude.
      * The implementation follows mdeglat() from the Python library AlvinXY,
      * which uses spherical harmonics representation.
-     * @param lon longitude in decimal degrees
+     * @param lat latitude in decimal degrees
      * @return the corresponding distance in meters [m]
      */
-    Scalar meterPerDegLon(Scalar lon);
+    Scalar meterPerDegLon(Scalar lat);
 
     /**
      * Converts latitude and longitude coordinates into "flattened" local Cartesian X and Y coordinates
diff --git a/geometry/src/gis.cpp b/geometry/src/gis.cpp
index f9c04ab..f34e333 100644
--- a/geometry/src/gis.cpp
+++ b/geometry/src/gis.cpp
@@ -36,20 +36,20 @@ namespace rofl {
         return dist;
     }
 
-    Scalar meterPerDegLon(Scalar lon) {
-        Scalar lonRad, dist;
-        lonRad = lon / 180.0 * M_PI;
-        dist = 111415.13 * cos(lonRad) - 94.55 * cos(3.0 * lonRad) + 0.12 * cos(5.0 * lonRad);
+    Scalar meterPerDegLon(Scalar lat) {
+        Scalar latRad, dist;
+        latRad = lat / 180.0 * M_PI;
+        dist = 111415.13 * cos(latRad) - 94.55 * cos(3.0 * latRad) + 0.12 * cos(5.0 * latRad);
         return dist;
     }
 
     void convertLatLonToLocalXY(Scalar latOrg, Scalar lonOrg, Scalar lat, Scalar lon, Scalar& x, Scalar& y) {
-        x = (lon - lonOrg) * meterPerDegLon(lonOrg);
+        x = (lon - lonOrg) * meterPerDegLon(latOrg);
         y = (lat - latOrg) * meterPerDegLat(latOrg);
     }
 
     void convertLocalXYToLatLon(Scalar latOrg, Scalar lonOrg, Scalar x, Scalar y, Scalar& lat, Scalar& lon) {
-        lon = x / meterPerDegLon(lonOrg) + lonOrg;
+        lon = x / meterPerDegLon(latOrg) + lonOrg;
         lat = y / meterPerDegLat(latOrg) + latOrg;
     }
 }
-- 
2.43.0


From d15502b3e4e896a44e12b915e1f6eddc75329949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:20 +0000
Subject: [PATCH 15/23] fix: Profiler computes the average and the variance of
 the measured times

---
 common/include/rofl/common/profiler.h | 2 +-
 common/src/profiler.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index f6a55d6..02c3031 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -53,7 +53,7 @@ namespace rofl {
 
             double getVariance() const {
                 if (count > 1) {
-                    return (timeAvg / (count - 1));
+                    return (timeVar / (count - 1));
                 } else {
                     return 0.0;
                 }
diff --git a/common/src/profiler.cpp b/common/src/profiler.cpp
index 77122f3..4d4e120 100644
--- a/common/src/profiler.cpp
+++ b/common/src/profiler.cpp
@@ -31,7 +31,7 @@ namespace rofl {
         } else {
             // Computes mean value and variance with online Welford’s method 
             double timeAvgOld = it->second.timeAvg;
-            it->second.timeAvg += (time - timeAvgOld) / (double) it->second.count;
+            it->second.timeAvg += (time - timeAvgOld) / (double) (it->second.count + 1);
             it->second.timeVar += (time - it->second.timeAvg) * (time - timeAvgOld);
             if (time < it->second.timeMin) {
                 it->second.timeMin = time;
-- 
2.43.0


From 6b100fab79a7c2ebcb0918278d77c44ee28d5c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:47 +0000
Subject: [PATCH 16/23] fix: HoughPlaneDetector::getPlaneParam(int, int, int)
 left out rhoMin

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index a8d08fd..b01e3b8 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -174,7 +174,7 @@ namespace rofl {
         ROFL_ASSERT_VAR2(0 <= irho && irho < rhoNum_, irho, rhoNum_);
         PlaneParam planeParam;
         const Vector3 normal = getNormal(itheta, iphi);
-        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho);
+        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho + rhoMin_);
         return planeParam;
     }
 
-- 
2.43.0


From fd78752a462def4a99965954a36c4a7fed154369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:47 +0000
Subject: [PATCH 17/23] fix: HoughPlaneDetector::insert divided by zero with
 fewer than 8 phi bins

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index b01e3b8..a030bae 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -198,7 +198,7 @@ namespace rofl {
     void HoughPlaneDetector::insert(const VectorVector3& points) {
         int indicesAngle[3];
         rofl::Scalar rho;
-        int phiNotify = phiNum_ / 8;
+        int phiNotify = std::max(phiNum_ / 8, 1);
 
         // Computes the Hough Transform (HT) by incrementing counting cells
         for (indicesAngle[0] = 0; indicesAngle[0] < thetaNum_; ++indicesAngle[0]) {
-- 
2.43.0


From 36543003b247ae1a384c9755e040751c83bdb68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:47 +0000
Subject: [PATCH 18/23] fix: HoughPlaneDetector::insert counted points just
 below rhoMin in the first bin

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index a030bae..50688c8 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -212,7 +212,7 @@ namespace rofl {
                 for (auto &p : points) {
                     rho = normal(0) * p(0) + normal(1) * p(1) + normal(2) * p(2);
                     //indicesAngle[2] = (int) round((rho - rhoMin_) / rhoRes_);
-                    indicesAngle[2] = (int) ((rho - rhoMin_) / rhoRes_);
+                    indicesAngle[2] = (int) floor((rho - rhoMin_) / rhoRes_);
                     if (0 <= indicesAngle[2] && indicesAngle[2] < rhoNum_) {
                         //houghTransform_.value( { itheta, iphi, irho })++;
                         houghTransform_.value(indicesAngle)++;
-- 
2.43.0


From 9e0eba7e8319ed4498c85b85f4970744ffeba918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:37 +0000
Subject: [PATCH 19/23] fix: MortonTree::insert dropped the id of an item when
 resetId is false

---
 common/include/rofl/common/morton_tree.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index c2064fa..671bff2 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -177,6 +177,8 @@ class MortonTree {
         std::copy(item.values, item.values + Dim, itemCopy.values);
         if (resetId) {
             itemCopy.id = items_.size();
+        } else {
+            itemCopy.id = item.id;
         }
         items_.push_back(itemCopy);
         ordered_ = false;
-- 
2.43.0


From a1bb8383df769fd434dc7175dbbf29d8e2afb897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:45 +0000
Subject: [PATCH 20/23] fix: PeakFinderD::detect tests the first cell of the
 domain too

---
 common/include/rofl/common/peak_finder_d.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/include/rofl/common/peak_finder_d.h b/common/include/rofl/common/peak_finder_d.h
index a5c6bfd..516ada0 100644
--- a/common/include/rofl/common/peak_finder_d.h
+++ b/common/include/rofl/common/peak_finder_d.h
@@ -148,7 +148,6 @@ namespace rofl {
             }
             //ROFL_VAR4(*domainIt, windowInterval, novelInterval, windowItems.size());
             indicesPrev = *domainIt;
-            ++domainIt;
 
             // Moves the window on each cell of domain in boustrophedon order
             for (; domainIt != domainEnd; ++domainIt) {
-- 
2.43.0


From 5b77d8b0dac19c754448c11dd9344dd640ce2efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:45 +0000
Subject: [PATCH 21/23] fix: PeakFinderD::detect compares a cell with the best
 other cell of its window

Cells already out of the window and second copies of the cell itself were
left in the heap and taken for its best competitor, so peaks were missed.
---
 common/include/rofl/common/peak_finder_d.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/include/rofl/common/peak_finder_d.h b/common/include/rofl/common/peak_finder_d.h
index 516ada0..be06c13 100644
--- a/common/include/rofl/common/peak_finder_d.h
+++ b/common/include/rofl/common/peak_finder_d.h
@@ -172,15 +172,15 @@ namespace rofl {
                 //   !comp_(map(windowItems.top()), map(*domainIt))) -> map(*domainIt) >= map(windowItems.top()
                 if (!enableFilterMinValue_ || comp_(map(*domainIt), valueMin_)) {
                     if (!windowItems.empty() && !comp_(map(windowItems.top()), map(*domainIt))) {
-                        //ROFL_VAR4(outIdx(*domainIt), map(*domainIt), outIdx(windowItems.top()), map(windowItems.top()));
-                        //ROFL_VAR3(outIdx(windowItems.nextTop()), map(windowItems.nextTop()), comp_(map(*domainIt), map(windowItems.nextTop())));
-                        //Indices curTop = windowItems.top();
-                        //windowItems.popTop();
-                        if (comp_(map(*domainIt), map(windowItems.nextTop()))) {
+                        // Finds the best item of the window other than the current cell
+                        while (!windowItems.empty() && (windowItems.top() == *domainIt || !windowInterval.inside(windowItems.top()))) {
+                            windowItems.popTop();
+                        }
+                        if (windowItems.empty() || comp_(map(*domainIt), map(windowItems.top()))) {
                             //insertMax = *domainIt;
                             maxima.push(*domainIt);
                         }
-                        //windowItems.push(curTop);
+                        windowItems.push(*domainIt);
                     }
                 }
                 indicesPrev = *domainIt;
-- 
2.43.0


From b9d14f1ea66f95f7cc12adb84e19dc910b1869a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:08 +0000
Subject: [PATCH 22/23] fix: VectorArray operators +, -, * and / set the
 components of the result (they did not compile, and - added)

---
 common/include/rofl/common/vector_array.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index b242922..b1b512b 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -40,7 +40,7 @@ namespace rofl {
 		Type operator+(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res[d] = (*this)[d] + other[d];
 			}
 			return res;
 		}
@@ -48,7 +48,7 @@ namespace rofl {
 		Type operator-(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res[d] = (*this)[d] - other[d];
 			}
 			return res;
 		}
@@ -56,7 +56,7 @@ namespace rofl {
 		Type operator*(const Value& scalar)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = scalar * (*this)[d];
+				res[d] = scalar * (*this)[d];
 			}
 			return res;
 		}
@@ -64,7 +64,7 @@ namespace rofl {
 		Type operator*(const Type& other)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] * other[d];
+				res[d] = (*this)[d] * other[d];
 			}
 			return res;
 		}
@@ -72,7 +72,7 @@ namespace rofl {
 		Type operator/(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] / other[d];
+				res[d] = (*this)[d] / other[d];
 			}
 			return res;
 		}
-- 
2.43.0


From 79666dad30fb178fc46987392840210c63d53932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:08 +0000
Subject: [PATCH 23/23] fix: VectorArray::operator*= by one of its own
 components

---
 common/include/rofl/common/vector_array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index b1b512b..fd138fb 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -85,8 +85,9 @@ namespace rofl {
 		}
 
 		Type& operator*=(const Value& scalar) {
+			const Value factor = scalar;
 			for (size_t d = 0; d < Dim; ++d) {
-				(*this)[d] *= scalar;
+				(*this)[d] *= factor;
 			}
 			return *this;
 		}
-- 
2.43.0

