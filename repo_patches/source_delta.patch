From 06160ee5d555241dc652d04840e917937ebb4625 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 01/26] fix: NormalizedAngleInterval::expandTo must not test
 wrapping to detect a full union

When both endpoints of the argument lie in this interval the union is either
this interval or the full one; which of the two it is depends on containment,
not on whether both intervals wrap.
---
 src/NormalizedAngleInterval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NormalizedAngleInterval.cc b/src/NormalizedAngleInterval.cc
index 7bd2433..2d3bc52 100644
--- a/src/NormalizedAngleInterval.cc
+++ b/src/NormalizedAngleInterval.cc
@@ -217,7 +217,7 @@ NormalizedAngleInterval & NormalizedAngleInterval::expandTo(
                 // Both endpoints of x are in this interval. This interval
                 // either contains x, in which case this interval is the
                 // desired union, or the union is the full interval.
-                if (wraps() != x.wraps()) {
+                if (!contains(x)) {
                     *this = full();
                 }
             } else {
-- 
2.43.0


From d31668cca609b52af61343a1ae25c37b388037e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 02/26] fix: RangeSet::Iterator::operator-(n) must move
 backwards

---
 include/lsst/sphgeom/RangeSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lsst/sphgeom/RangeSet.h b/include/lsst/sphgeom/RangeSet.h
index e0e7ac4..ea173bc 100644
--- a/include/lsst/sphgeom/RangeSet.h
+++ b/include/lsst/sphgeom/RangeSet.h
@@ -149,7 +149,7 @@ public:
         Iterator operator--(int) { Iterator i(*this); p -= 2; return i; }
 
         Iterator operator+(ptrdiff_t n) const { return Iterator(p + 2 * n); }
-        Iterator operator-(ptrdiff_t n) const { return Iterator(p + 2 * n); }
+        Iterator operator-(ptrdiff_t n) const { return Iterator(p - 2 * n); }
 
         Iterator & operator+=(ptrdiff_t n) { p += 2 * n; return *this; }
         Iterator & operator-=(ptrdiff_t n) { p -= 2 * n; return *this; }
-- 
2.43.0


From 2493a4c8a6439ee2a8d16a6ddf0b03ffeb134b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 03/26] fix: encode the integer itself, not its value as a
 double, in portable encodeU64

---
 include/lsst/sphgeom/codec.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lsst/sphgeom/codec.h b/include/lsst/sphgeom/codec.h
index dea0c62..3a7091c 100644
--- a/include/lsst/sphgeom/codec.h
+++ b/include/lsst/sphgeom/codec.h
@@ -98,8 +98,7 @@ inline void encodeU64(std::uint64_t item, std::vector<std::uint8_t> & buffer) {
     auto ptr = reinterpret_cast<std::uint8_t const *>(&item);
     buffer.insert(buffer.end(), ptr, ptr + 8);
 #else
-    union { std::uint64_t u; double d; };
-    d = item;
+    std::uint64_t u = item;
     buffer.push_back(static_cast<std::uint8_t>(u));
     buffer.push_back(static_cast<std::uint8_t>(u >> 8));
     buffer.push_back(static_cast<std::uint8_t>(u >> 16));
-- 
2.43.0


From 62bf3a4fd85d7da24e50fe7be75964ca2931c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 04/26] fix: reject operand sizes that exceed the buffer when
 decoding CompoundRegions

---
 src/CompoundRegion.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CompoundRegion.cc b/src/CompoundRegion.cc
index cae1d51..e81739f 100644
--- a/src/CompoundRegion.cc
+++ b/src/CompoundRegion.cc
@@ -50,7 +50,7 @@ namespace {
 // A version of decodeU64 from codec.h that checks for buffer overruns and
 // increments the buffer pointer it is given.
 std::uint64_t consumeDecodeU64(std::uint8_t const *&buffer, std::uint8_t const *end) {
-    if (buffer + 8 > end) {
+    if (end - buffer < 8) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     std::uint64_t result = decodeU64(buffer);
@@ -113,9 +113,15 @@ std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
     ++buffer;
     std::array<std::unique_ptr<Region>, 2> result;
     std::uint64_t nBytes1 = consumeDecodeU64(buffer, end);
+    if (nBytes1 > static_cast<std::uint64_t>(end - buffer)) {
+        throw std::runtime_error("Encoded CompoundRegion is truncated.");
+    }
     result[0] = Region::decode(buffer, nBytes1);
     buffer += nBytes1;
     std::uint64_t nBytes2 = consumeDecodeU64(buffer, end);
+    if (nBytes2 > static_cast<std::uint64_t>(end - buffer)) {
+        throw std::runtime_error("Encoded CompoundRegion is truncated.");
+    }
     result[1] = Region::decode(buffer, nBytes2);
     buffer += nBytes2;
     if (buffer != end) {
-- 
2.43.0


From 745db080f9d87368cbfb13ddb018e9d59a00d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 05/26] fix: check the length before reading the type code in
 ConvexPolygon::decode

---
 src/ConvexPolygon.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 598ee8a..133f39f 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -368,8 +368,8 @@ std::vector<std::uint8_t> ConvexPolygon::encode() const {
 std::unique_ptr<ConvexPolygon> ConvexPolygon::decode(std::uint8_t const * buffer,
                                                      size_t n)
 {
-    if (buffer == nullptr || *buffer != TYPE_CODE ||
-        n < 1 + 24*3 || (n - 1) % 24 != 0) {
+    if (buffer == nullptr || n < 1 + 24*3 || (n - 1) % 24 != 0 ||
+        *buffer != TYPE_CODE) {
         throw std::runtime_error("Byte-string is not an encoded ConvexPolygon");
     }
     std::unique_ptr<ConvexPolygon> poly(new ConvexPolygon);
-- 
2.43.0


From f741941e54ee3f66383ba3a8742a484ee6ba49e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:47 +0000
Subject: [PATCH 06/26] fix: keep Box3d components empty together when
 expanding to a NaN vector

---
 include/lsst/sphgeom/Box3d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lsst/sphgeom/Box3d.h b/include/lsst/sphgeom/Box3d.h
index 353d494..2dd7e22 100644
--- a/include/lsst/sphgeom/Box3d.h
+++ b/include/lsst/sphgeom/Box3d.h
@@ -255,6 +255,8 @@ public:
         _intervals[0].expandTo(b.x());
         _intervals[1].expandTo(b.y());
         _intervals[2].expandTo(b.z());
+        // An empty interval stays empty if the coordinate of b is NaN.
+        _enforceInvariants();
         return *this;
     }
 
-- 
2.43.0


From 3029ac7898b6fafc6bc9f8c627925cecfd9f244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 07/26] fix: zero the low digits in BigInteger::multiplyPow2

Shifts by more than 32 bits that are not a multiple of 32 cleared one digit
too high, losing low bits and leaving a stale lowest digit.
---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 99e345c..59c61b2 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -246,7 +246,7 @@ BigInteger & BigInteger::multiplyPow2(unsigned n) {
         }
         _digits[z] = high << s;
         for (unsigned i = z; i != 0; --i) {
-            _digits[i] = 0;
+            _digits[i - 1] = 0;
         }
         _size = (_digits[size] == 0) ? size: size + 1;
     }
-- 
2.43.0


From fb973e694e9333543d72e7e76b2be55fe4ae63ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 08/26] fix: strip leading zeroes of the difference in
 BigInteger subtraction

The test looked at the minuend, which is only the same array as the result
when the operands have not been swapped.
---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 59c61b2..b533c25 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -103,7 +103,7 @@ unsigned _sub(std::uint32_t * const m,
     // If we subtracted anything from the most significant digit in m1, strip
     // any leading zeroes that may have been introduced.
     if (i == size1) {
-        while (m1[i - 1] == 0) { --i; }
+        while (m[i - 1] == 0) { --i; }
         return i;
     }
     // Otherwise, copy the remaining digits from m1 to m.
-- 
2.43.0


From 35ff2bd623faddf72b3c4a1828a72273cf90748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 09/26] fix: do not overwrite the multiplier in
 BigInteger::multiply

When the multiplicand has fewer digits than the multiplier, or is the
multiplier, digits were overwritten before their last use.
---
 src/BigInteger.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index b533c25..c80fd44 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -33,6 +33,7 @@
 #include "lsst/sphgeom/BigInteger.h"
 
 #include <algorithm>
+#include <vector>
 
 
 namespace lsst {
@@ -114,8 +115,9 @@ unsigned _sub(std::uint32_t * const m,
 }
 
 // `_mul` computes the product of m1 and m2 and stores the result in m,
-// which may equal either m1 or m2. It assumes that m1 has at least as many
-// digits as m2, and returns the the number of digits in the product.
+// which may equal m1 but must not overlap with m2. It assumes that m1 has at
+// least as many digits as m2, and returns the the number of digits in the
+// product.
 unsigned _mul(std::uint32_t * const m,
               std::uint32_t const * const m1,
               std::uint32_t const * const m2,
@@ -126,8 +128,8 @@ unsigned _mul(std::uint32_t * const m,
     // digit counts. A requirement for anything fancier involves enough
     // complexity that switching to GMP is definitely warranted.
     //
-    // The only small subtlety here is that because m is allowed to alias m1
-    // or m2, we compute products of m2 from most to least significant digit of
+    // The only small subtlety here is that because m is allowed to alias m1,
+    // we compute products of m2 from most to least significant digit of
     // m1. This way no as yet unprocessed input digits are overwritten.
     unsigned const size = size1 + size2;
     for (unsigned i = size1; i < size; ++i) {
@@ -260,10 +262,11 @@ BigInteger & BigInteger::multiply(BigInteger const & b) {
         return *this;
     }
     _checkCapacity(_size + b._size);
-    if (_size >= b._size) {
+    if (_size >= b._size && this != &b) {
         _size = _mul(_digits, _digits, b._digits, _size, b._size);
     } else {
-        _size = _mul(_digits, b._digits, _digits, b._size, _size);
+        std::vector<std::uint32_t> digits(_digits, _digits + _size);
+        _size = _mul(_digits, b._digits, digits.data(), b._size, _size);
     }
     return *this;
 }
-- 
2.43.0


From 6454299357a0fa2e6ca6ab6d16db5bbceee7cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 10/26] fix: keep visiting root pixels after simplification in
 PixelFinder

---
 src/PixelFinder.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 718d184..16f2d6b 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -128,8 +128,11 @@ private:
         int shift = 2 * (_desiredLevel - level);
         _ranges->insert(index << shift, (index + 1) << shift);
         while (_ranges->size() > _maxRanges) {
-            // Reduce the subdivision level.
-            --_level;
+            // Reduce the subdivision level. It cannot drop below 0, because
+            // the remaining root pixels must still be visited.
+            if (_level > 0) {
+                --_level;
+            }
             shift += 2;
             // When looking for intersecting pixels, ranges are simplified
             // by expanding them outwards, causing nearly adjacent small ranges
-- 
2.43.0


From 712055371157ce2eccef14dd17fa41b8f96f3373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 11/26] fix: approximate ellipses by circles that outlive the
 pixel finder

---
 src/PixelFinder.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 16f2d6b..659efb0 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -164,8 +164,15 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         Finder<Circle, InteriorOnly> find(s, *circle, level, maxRanges);
         find();
     } else if (auto ellipse = dynamic_cast<Ellipse const *>(&r)) {
-        Finder<Circle, InteriorOnly> find(
-            s, ellipse->getBoundingCircle(), level, maxRanges);
+        // Approximate the ellipse by a circle that contains it, or, when
+        // looking for interior pixels, by a circle that it contains. Note
+        // that the finder holds on to a pointer to the circle.
+        Circle const circle = InteriorOnly
+            ? Circle(ellipse->getCenter(),
+                     std::min(ellipse->getAlpha(), ellipse->getBeta()) -
+                         2.0 * Angle(MAX_ASIN_ERROR))
+            : ellipse->getBoundingCircle();
+        Finder<Circle, InteriorOnly> find(s, circle, level, maxRanges);
         find();
     } else if (auto box = dynamic_cast<Box const *>(&r)) {
         Finder<Box, InteriorOnly> find(s, *box, level, maxRanges);
-- 
2.43.0


From d5a6ac00d5bd6131bcbdf5f4d603f27958052b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 12/26] fix: restrict Q3C and modified-Q3C envelopes to the
 universe

---
 src/Mq3cPixelization.cc | 4 +++-
 src/Q3cPixelization.cc  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Mq3cPixelization.cc b/src/Mq3cPixelization.cc
index 269c990..6d3630f 100644
--- a/src/Mq3cPixelization.cc
+++ b/src/Mq3cPixelization.cc
@@ -343,7 +343,9 @@ std::unique_ptr<Region> Mq3cPixelization::pixel(std::uint64_t i) const {
 #endif
 
 RangeSet Mq3cPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<Mq3cPixelFinder, false>(r, maxRanges, _level);
+    // Simplification can add indexes of non-existent root pixels.
+    return detail::findPixels<Mq3cPixelFinder, false>(
+        r, maxRanges, _level).intersection(universe());
 }
 
 RangeSet Mq3cPixelization::_interior(Region const & r, size_t maxRanges) const {
diff --git a/src/Q3cPixelization.cc b/src/Q3cPixelization.cc
index 686b824..4e066cc 100644
--- a/src/Q3cPixelization.cc
+++ b/src/Q3cPixelization.cc
@@ -341,7 +341,9 @@ std::unique_ptr<Region> Q3cPixelization::pixel(std::uint64_t i) const {
 #endif
 
 RangeSet Q3cPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<Q3cPixelFinder, false>(r, maxRanges, _level);
+    // Simplification can add indexes of non-existent root pixels.
+    return detail::findPixels<Q3cPixelFinder, false>(
+        r, maxRanges, _level).intersection(universe());
 }
 
 RangeSet Q3cPixelization::_interior(Region const & r, size_t maxRanges) const {
-- 
2.43.0


From 07fbe930fb8bcdc00fd9a49b21a762f90b153df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 13/26] fix: honor maxRanges when pixelizing compound regions

---
 src/PixelFinder.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 659efb0..837b412 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -152,6 +152,25 @@ private:
 };
 
 
+// `limitRanges` simplifies s until it contains at most maxRanges ranges,
+// where 0 means that there is no limit.
+template <bool InteriorOnly>
+void limitRanges(RangeSet & s, size_t maxRanges) {
+    if (maxRanges == 0) {
+        return;
+    }
+    for (int shift = 2; s.size() > maxRanges; shift += 2) {
+        if (InteriorOnly) {
+            s.complement();
+        }
+        s.simplify(shift);
+        if (InteriorOnly) {
+            s.complement();
+        }
+    }
+}
+
+
 // `findPixels` implements pixel-finding for an arbitrary Region, given a
 // PixelFinder subclass for a specific pixelization.
 template <
@@ -187,12 +206,14 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.join(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else if (auto intersection_region = dynamic_cast<IntersectionRegion const *>(&r)) {
         Region const &region1 = intersection_region->getOperand(0);
         Region const &region2 = intersection_region->getOperand(1);
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.intersection(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else {
         throw std::runtime_error(std::string("PixelFinder: Unsupported type ") + typeid(r).name());
     }
-- 
2.43.0


From 1c70acb4d1fb6ef0cc10822e61cc415afb4f10b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 14/26] fix: full ellipses contain every point

---
 src/Ellipse.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index 31cfef8..7aa3b01 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -165,6 +165,11 @@ Ellipse::Ellipse(UnitVector3d const & center,
 }
 
 bool Ellipse::contains(UnitVector3d const & v) const {
+    if (isFull()) {
+        // |tan a| and |tan b| may be infinite, in which case the quadratic
+        // form below evaluates to NaN for some v.
+        return true;
+    }
     UnitVector3d const c = getCenter();
     double vdotc = v.dot(c);
     Vector3d u;
-- 
2.43.0


From 575d4fb92e72c0591e0f8aef9ee90cfc20d31c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 15/26] fix: do not move the center outside the arc between the
 centers when expanding circles

---
 src/Circle.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Circle.cc b/src/Circle.cc
index 13f3fdf..2fc06da 100644
--- a/src/Circle.cc
+++ b/src/Circle.cc
@@ -32,6 +32,7 @@
 
 #include "lsst/sphgeom/Circle.h"
 
+#include <algorithm>
 #include <ostream>
 #include <stdexcept>
 
@@ -171,6 +172,9 @@ Circle & Circle::expandTo(Circle const & x) {
     }
     // The circles intersect or are disjoint.
     Angle o = 0.5 * (cc + _openingAngle + x._openingAngle);
+    // One circle may contain the other by less than the error margin of the
+    // tests above, in which case it is the minimal bounding circle.
+    o = std::max(o, std::max(_openingAngle, x._openingAngle));
     if (o + 2.0 * Angle(MAX_ASIN_ERROR) >= Angle(PI)) {
         *this = full();
         return *this;
@@ -181,7 +185,7 @@ Circle & Circle::expandTo(Circle const & x) {
     // with normal n that span from _center.rotatedAround(n, -_openingAngle)
     // to x._center.rotatedAround(n, x._openingAngle). The MBC center is the
     // midpoint of this interval.
-    Angle r = o - _openingAngle;
+    Angle r = std::min(o - _openingAngle, Angle(cc));
     // Rotate _center by angle r around n to obtain the MBC center. This is
     // done using Rodriques' formula, simplified by taking advantage of the
     // orthogonality of _center and n.
-- 
2.43.0


From c5484b25eb5ce369dbfa82cf8ddd355fcf0fe96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 16/26] fix: do not index out of bounds when normalizing
 vectors with a NaN y component

---
 src/Vector3d.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vector3d.cc b/src/Vector3d.cc
index f3dc349..4f9a8e4 100644
--- a/src/Vector3d.cc
+++ b/src/Vector3d.cc
@@ -60,7 +60,7 @@ double Vector3d::normalize() {
         {0, 2, 1, UNUSED},
         {1, 0, 2, UNUSED},
         {UNUSED, UNUSED, UNUSED, UNUSED},
-        {UNUSED, UNUSED, UNUSED, UNUSED},
+        {2, 0, 1, UNUSED},      // only if y is NaN
         {2, 0, 1, UNUSED},
         {1, 2, 0, UNUSED},
         {2, 1, 0, UNUSED}
-- 
2.43.0


From 09d3f1ef81cb73513aa37614d648cadf04219d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 17/26] fix: negative chunk identifiers are not valid

---
 src/Chunker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 56a7b28..b9d20b4 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -291,7 +291,7 @@ std::vector<std::int32_t> Chunker::getAllSubChunks(std::int32_t chunkId) const {
 
 bool Chunker::valid(std::int32_t chunkId) const {
     std::int32_t const s = getStripe(chunkId);
-    return s >= 0 and s < _numStripes and
+    return chunkId >= 0 and s < _numStripes and
            getChunk(chunkId, s) < _stripes.at(s).numChunksPerStripe;
 }
 
-- 
2.43.0


From d922196b88c1dc7a9a4c7e2ede277c3cfc3da934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 18/26] fix: avoid integer overflow when validating Chunker
 parameters

---
 src/Chunker.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index b9d20b4..413d058 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -65,17 +65,18 @@ Chunker::Chunker(std::int32_t numStripes,
                  std::int32_t numSubStripesPerStripe) :
     _numStripes(numStripes),
     _numSubStripesPerStripe(numSubStripesPerStripe),
-    _numSubStripes(numStripes * numSubStripesPerStripe),
-    _maxSubChunksPerSubStripeChunk(0),
-    _subStripeHeight(Angle(PI) / _numSubStripes)
+    _numSubStripes(0),
+    _maxSubChunksPerSubStripeChunk(0)
 {
     if (numStripes < 1 || numSubStripesPerStripe < 1) {
         throw std::runtime_error("The number of stripes and sub-stripes "
                                  "per stripe must be positive");
     }
-    if (numStripes * numSubStripesPerStripe > 180*3600) {
+    if (numSubStripesPerStripe > 180*3600 / numStripes) {
         throw std::runtime_error("Sub-stripes are too small");
     }
+    _numSubStripes = numStripes * numSubStripesPerStripe;
+    _subStripeHeight = Angle(PI) / _numSubStripes;
     Angle const stripeHeight = Angle(PI) / _numStripes;
     _stripes.reserve(_numStripes);
     _subStripes.reserve(_numSubStripes);
-- 
2.43.0


From 860d8bf5a980c2462459a0ad6a73934e786f1bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 19/26] fix: empty regions do not intersect any chunks

---
 src/Chunker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 413d058..628b04f 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -112,6 +112,9 @@ std::vector<std::int32_t> Chunker::getChunksIntersecting(Region const & r) const
     std::vector<std::int32_t> chunkIds;
     // Find the stripes that intersect the bounding box of r.
     Box b = r.getBoundingBox().dilatedBy(Angle(BOX_EPSILON));
+    if (b.isEmpty()) {
+        return chunkIds;
+    }
     double ya = std::floor((b.getLat().getA() + Angle(0.5 * PI)) / _subStripeHeight);
     double yb = std::floor((b.getLat().getB() + Angle(0.5 * PI)) / _subStripeHeight);
     std::int32_t minSS = std::min(static_cast<std::int32_t>(ya), _numSubStripes - 1);
@@ -159,6 +162,9 @@ std::vector<SubChunks> Chunker::getSubChunksIntersecting(
     std::vector<SubChunks> chunks;
     // Find the stripes that intersect the bounding box of r.
     Box b = r.getBoundingBox().dilatedBy(Angle(BOX_EPSILON));
+    if (b.isEmpty()) {
+        return chunks;
+    }
     double ya = std::floor((b.getLat().getA() + Angle(0.5 * PI)) / _subStripeHeight);
     double yb = std::floor((b.getLat().getB() + Angle(0.5 * PI)) / _subStripeHeight);
     std::int32_t minSS = std::min(static_cast<std::int32_t>(ya), _numSubStripes - 1);
-- 
2.43.0


From eb4e9fc51e9f44b7df4059fcfad571f5e8d45b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:53 +0000
Subject: [PATCH 20/26] fix: detect coplanar points spanning more than a half
 circle in convex hulls

---
 src/ConvexPolygon.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 133f39f..ef31c7d 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -124,16 +124,16 @@ std::vector<UnitVector3d>::iterator findTriangle(
         // discard v and continue.
         int v0v = orientation(n, v0, *v);
         int vv1 = orientation(n, *v, v1);
-        if (v0v == vv1) {
+        int v0v1 = orientation(n, v0, v1);
+        if (v0v == v0v1 && vv1 == v0v1) {
             continue;
         }
-        int v0v1 = orientation(n, v0, v1);
         // If v1 is in the interior of (v0, v), replace v1 with v and continue.
-        if (v0v1 == -vv1) {
+        if (v0v == v0v1) {
             v1 = *v; continue;
         }
         // If v0 is in the interior of (v, v1), replace v0 with v and continue.
-        if (-v0v == v0v1) {
+        if (vv1 == v0v1) {
             v0 = *v; continue;
         }
         // Otherwise, (v0, v1) ∪ (v1, v) and (v, v0) ∪ (v0, v1) both span
-- 
2.43.0


From ea81bfa8f3d75385d95586f3cdee342307f47dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:53 +0000
Subject: [PATCH 21/26] fix: ignore points on the edges of a convex hull

---
 src/ConvexPolygon.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index ef31c7d..c584261 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -231,6 +231,12 @@ void computeHull(std::vector<UnitVector3d> & points) {
                 hullEnd = std::copy(toCCW, hullEnd, fromCCW);
             }
         } else {
+            // A single edge is not counter-clockwise with respect to v. If v
+            // lies on it, then v is in the current hull and can be ignored.
+            i = (fromCCW == points.begin()) ? hullEnd - 1 : fromCCW - 1;
+            if (orientation(*v, *i, *fromCCW) == 0) {
+                continue;
+            }
             if (fromCCW == points.begin()) {
                 *hullEnd = *v;
             } else {
-- 
2.43.0


From 82885a34970584ac2dce2afa6a3a72860f748f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 22/26] fix: reject vectors without a direction when locating a
 Q3C face

Zero vectors and vectors with NaN or infinite components selected entry 255
of the face numbers, which was used to index per-face tables of 6 entries.
---
 src/Q3cPixelizationImpl.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Q3cPixelizationImpl.h b/src/Q3cPixelizationImpl.h
index 8732e95..83d69cf 100644
--- a/src/Q3cPixelizationImpl.h
+++ b/src/Q3cPixelizationImpl.h
@@ -34,7 +34,9 @@
 /// \brief This file contains functions used by Q3C pixelization
 ///        implementations.
 
+#include <cmath>
 #include <cstdint>
+#include <stdexcept>
 #if defined(NO_SIMD) || !defined(__x86_64__)
     #include <tuple>
 #else
@@ -237,7 +239,13 @@ double const FACE_SCALE[31] = {
                     ((v.x() > -v.z()) << 2) +
                     ((v.y() >  v.z()) << 1) +
                      (v.y() > -v.z());
-        return faceNumbers[index];
+        int face = faceNumbers[index];
+        // The zero vector and vectors with NaN or infinite components do not
+        // belong to any face.
+        if (face == 255 || !std::isfinite(v.x() + v.y() + v.z())) {
+            throw std::invalid_argument("Vector has no direction");
+        }
+        return face;
     }
 
     UnitVector3d faceToSphere(int face,
@@ -298,7 +306,13 @@ double const FACE_SCALE[31] = {
         int index = (_mm_movemask_pd(_mm_cmpgt_pd(xx, myy)) << 4) +
                     (_mm_movemask_pd(_mm_cmpgt_pd(xx, mzz)) << 2) +
                      _mm_movemask_pd(_mm_cmpgt_pd(yy, mzz));
-        return faceNumbers[index];
+        int face = faceNumbers[index];
+        // The zero vector and vectors with NaN or infinite components do not
+        // belong to any face.
+        if (face == 255 || !std::isfinite(v.x() + v.y() + v.z())) {
+            throw std::invalid_argument("Vector has no direction");
+        }
+        return face;
     }
 
     UnitVector3d faceToSphere(int face,
-- 
2.43.0


From 938f0b3e15c4b8ff2772c8460cd69eda998edcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 23/26] fix: do not convert NaN and infinities to integers in
 orientationExact

The products of NaN or infinite components have no mantissa to convert;
the conversion was undefined behaviour. Such vectors have no orientation.
---
 src/orientation.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/orientation.cc b/src/orientation.cc
index 71bc48a..4e54fa3 100644
--- a/src/orientation.cc
+++ b/src/orientation.cc
@@ -33,6 +33,7 @@
 #include "lsst/sphgeom/orientation.h"
 
 #include <algorithm>
+#include <cmath>
 
 #include "lsst/sphgeom/BigInteger.h"
 
@@ -77,6 +78,11 @@ void computeProduct(BigFloat & p, double d0, double d1, double d2) {
     p.exponent = e0 + e1 + e2 - 3 * 53;
 }
 
+// `isFinite` returns true iff no component of v is NaN or infinite.
+bool isFinite(Vector3d const & v) {
+    return std::isfinite(v.x()) && std::isfinite(v.y()) && std::isfinite(v.z());
+}
+
 } // unnamed namespace
 
 
@@ -84,6 +90,10 @@ int orientationExact(Vector3d const & a,
                      Vector3d const & b,
                      Vector3d const & c)
 {
+    // The components of a, b and c must be finite to have exact products.
+    if (!isFinite(a) || !isFinite(b) || !isFinite(c)) {
+        return 0;
+    }
     // Product mantissa storage buffers.
     std::uint32_t mantissaBuffers[6][6];
     // Product mantissas.
-- 
2.43.0


From 9e5b1380cd25f4537c2b2321a2cb1ecceec02e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 24/26] fix: RangeSet.isValid in Python returned the
 cardinality

---
 python/lsst/sphgeom/_rangeSet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/sphgeom/_rangeSet.cc b/python/lsst/sphgeom/_rangeSet.cc
index c6559ba..e09fccb 100644
--- a/python/lsst/sphgeom/_rangeSet.cc
+++ b/python/lsst/sphgeom/_rangeSet.cc
@@ -206,7 +206,7 @@ void defineClass(py::class_<RangeSet, std::shared_ptr<RangeSet>> &cls) {
     cls.def("cardinality", &RangeSet::cardinality);
     // max_size() and swap() are omitted. The former is a C++ container
     // requirement, and the latter doesn't seem relevant to Python.
-    cls.def("isValid", &RangeSet::cardinality);
+    cls.def("isValid", &RangeSet::isValid);
     cls.def("ranges", &ranges);
 
     cls.def("__str__",
-- 
2.43.0


From 798591d99b60c03701682246df4f616a7851850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 25/26] fix: spelling of LonLat.__ne__ in Python

---
 python/lsst/sphgeom/_lonLat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/sphgeom/_lonLat.cc b/python/lsst/sphgeom/_lonLat.cc
index d86d510..b0de221 100644
--- a/python/lsst/sphgeom/_lonLat.cc
+++ b/python/lsst/sphgeom/_lonLat.cc
@@ -52,7 +52,7 @@ void defineClass(py::class_<LonLat, std::shared_ptr<LonLat>> &cls) {
     cls.def(py::init<Vector3d const &>(), "vector"_a);
 
     cls.def("__eq__", &LonLat::operator==, py::is_operator());
-    cls.def("__nq__", &LonLat::operator!=, py::is_operator());
+    cls.def("__ne__", &LonLat::operator!=, py::is_operator());
 
     cls.def("getLon", &LonLat::getLon);
     cls.def("getLat", &LonLat::getLat);
-- 
2.43.0


From fa1d59edfd2e9ad56c7dea62efc97e2642cd9312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 26/26] fix: UnitVector3d.x in Python was also an alias of dot

---
 python/lsst/sphgeom/_unitVector3d.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/python/lsst/sphgeom/_unitVector3d.cc b/python/lsst/sphgeom/_unitVector3d.cc
index 62b949a..a3ce574 100644
--- a/python/lsst/sphgeom/_unitVector3d.cc
+++ b/python/lsst/sphgeom/_unitVector3d.cc
@@ -90,7 +90,6 @@ void defineClass(py::class_<UnitVector3d, std::shared_ptr<UnitVector3d>> &cls) {
     cls.def("x", &UnitVector3d::x);
     cls.def("y", &UnitVector3d::y);
     cls.def("z", &UnitVector3d::z);
-    cls.def("x", &UnitVector3d::dot);
     cls.def("dot", &UnitVector3d::dot);
     cls.def("cross", &UnitVector3d::cross);
     cls.def("robustCross", &UnitVector3d::robustCross);
-- 
2.43.0

